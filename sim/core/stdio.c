/* stdio on top of the simulated descriptors: real glibc streams with our I/O below them */
#include "core.h"
#include <fcntl.h>
#include <unistd.h>
#include <stdio_ext.h>
#include <wchar.h>

FILE *sim_stderr, *sim_stdout, *sim_stdin;
#define MAXS 256
static struct { FILE *f; int fd; int owner, count; char *buf; int std; } ST[MAXS];
static int nst;
const char *node_text(const char *path, size_t *n); void node_reset(const char *path);

static int slot(FILE *f) { for (int i = 0; i < nst; i++) if (ST[i].f == f) return i; return -1; }
static int nosched;
static ssize_t ck_write(void *c, const char *b, size_t n) {
    int i = (int)(long)c; size_t left = n; int a = sim_active;
    sim_active = 0; nosched++;
    while (left) { ssize_t w = os_write(ST[i].fd, b, left); if (w < 0) break; left -= (size_t)w; b += w; }
    nosched--; sim_active = a;
    return (ssize_t)(n - left);
}
static ssize_t ck_read(void *c, char *b, size_t n) { int a = sim_active; sim_active = 0; ssize_t r = os_read(ST[(long)c].fd, b, n); sim_active = a; return r; }
static int ck_seek(void *c, off64_t *o, int wh) { long r = os_lseek(ST[(long)c].fd, (long)*o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int a = sim_active; sim_active = 0; int r = os_close(ST[(long)c].fd); sim_active = a; return r; }

static FILE *mk(int fd, const char *mode, int std, int buffering) {
    if (nst >= MAXS) sim_error("too many streams");
    int i = nst++;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie((void *)(long)i, mode, io);
    if (!f) sim_error("fopencookie failed");
    ST[i].f = f; ST[i].fd = fd; ST[i].std = std; ST[i].owner = -1;
    ST[i].buf = malloc(4096);
    if (buffering == _IONBF) setvbuf(f, NULL, _IONBF, 0); else setvbuf(f, ST[i].buf, buffering, 4096);
    return f;
}
void stdio_init(void) {
    sim_stdin = mk(0, "r", 1, _IOFBF); sim_stdout = mk(1, "w", 1, _IOFBF); sim_stderr = mk(2, "w", 1, _IONBF);
}
int streams_open(void) { int n = 0; for (int i = 0; i < nst; i++) n += ST[i].f && !ST[i].std; return n; }
void stdio_exit_flush(void) { for (int i = 0; i < nst; i++) if (ST[i].f) fflush(ST[i].f); }
const char *stderr_text(size_t *n) { return node_text("/dev/stderr", n); }
void stderr_reset(void) { node_reset("/dev/stderr"); }
const char *stdout_text(size_t *n) { if (sim_stdout) fflush(sim_stdout); return node_text("/dev/stdout", n); }

/* stream locking: a stream call is one atomic step w.r.t. others on that stream, like glibc's */
static int lock(FILE *f, const char *what) {
    sched_point(); cancel_point();
    int i = slot(f);
    if (i < 0) sim_fail("bad-stream", "%s on a stream that is not open", what);
    int me = fiber_self();
    while (ST[i].count && ST[i].owner != me) { block_on(W_FLOCK, &ST[i], UINT64_MAX, 0, 0); if (slot(f) != i) sim_fail("bad-stream", "%s on a stream closed meanwhile", what); }
    ST[i].owner = me; ST[i].count++;
    return i;
}
static void unlock(int i) { if (--ST[i].count == 0) { ST[i].owner = -1; wake_all(W_FLOCK, &ST[i]); } sched_point(); }
void sim_flockfile(FILE *f) { lock(f, "flockfile"); }
int sim_ftrylockfile(FILE *f) { sched_point(); int i = slot(f); if (i < 0) sim_fail("bad-stream", "ftrylockfile"); if (ST[i].count && ST[i].owner != fiber_self()) return -1; ST[i].owner = fiber_self(); ST[i].count++; return 0; }
void sim_funlockfile(FILE *f) { int i = slot(f); if (i < 0 || ST[i].owner != fiber_self()) sim_fail("bad-stream", "funlockfile without the lock"); unlock(i); }
#define OP(f, T, expr) do { int i_ = lock(f, __func__ + 4); int a_ = sim_active; sim_active = 0; T r_ = (expr); sim_active = a_; int e_ = errno; unlock(i_); errno = e_; return r_; } while (0)

FILE *sim_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    if (fault(F_ALLOC)) { errno = ENOMEM; return NULL; }
    int fd = os_open(path, fl, 0666, 1);
    if (fd < 0) return NULL;
    return mk(fd, mode[0] == 'r' ? (strchr(mode, '+') ? "r+" : "r") : mode[0] == 'a' ? (strchr(mode, '+') ? "a+" : "a") : (strchr(mode, '+') ? "w+" : "w"), 0, _IOFBF);
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) { if (!fd_is_open(fd)) { errno = EBADF; return NULL; } if (fault(F_ALLOC)) { errno = ENOMEM; return NULL; } char m[3] = { mode[0], strchr(mode, '+') ? '+' : 0, 0 }; return mk(fd, m, 0, _IOFBF); }
int sim_fclose(FILE *f); int sim_dup2(int fd, int to);
FILE *sim_freopen(const char *p, const char *m, FILE *f) {
    int i = lock(f, "freopen"), a = sim_active; sim_active = 0; fflush(f); clearerr(f); sim_active = a;
    if (!p) { errno = ENOSYS; unlock(i); return NULL; }
    int old = ST[i].fd, fl = m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND); if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    sim_active = 0; os_close(old); int fd = os_open(p, fl, 0666, 1); sim_active = a;
    if (fd < 0) { int e = errno; unlock(i); sim_fclose(f); errno = e; return NULL; }
    if (fd != old && sim_dup2(fd, old) == old) { sim_active = 0; os_close(fd); sim_active = a; fd = old; }
    ST[i].fd = fd; unlock(i); return f;
}
/* a stream into memory the caller frees */
static struct { char **pp; size_t *np; char *b; size_t n, cap; int closed; } MS[MAXS];
static ssize_t ms_write(void *c, const char *b, size_t n) {
    int i = (int)(long)c, a = sim_active; 
    if (MS[i].n + n + 1 > MS[i].cap) { size_t k = (MS[i].n + n + 1) * 2; sim_active = 1; char *q = sim_realloc(MS[i].b, k); sim_active = a; if (!q) { errno = ENOMEM; return 0; } MS[i].b = q; MS[i].cap = k; }
    memcpy(MS[i].b + MS[i].n, b, n); MS[i].n += n; MS[i].b[MS[i].n] = 0; *MS[i].pp = MS[i].b; *MS[i].np = MS[i].n; return (ssize_t)n;
}
static int ms_close(void *c) { int i = (int)(long)c; *MS[i].pp = MS[i].b; *MS[i].np = MS[i].n; MS[i].closed = 1; return 0; }
FILE *sim_open_memstream(char **pp, size_t *np) {
    char *b = sim_malloc(64); if (!b) { errno = ENOMEM; return NULL; }
    int i = 0; while (i < nst && (ST[i].f || !MS[i].closed)) i++;
    if (i == nst && nst++ >= MAXS) sim_error("too many streams");
    cookie_io_functions_t io = { NULL, ms_write, NULL, ms_close }; int a = sim_active; sim_active = 0; FILE *f = fopencookie((void *)(long)i, "w", io); sim_active = a; if (!f) sim_error("fopencookie failed");
    ST[i].f = f; ST[i].fd = -1; ST[i].owner = -1; MS[i].pp = pp; MS[i].np = np; MS[i].b = b; MS[i].n = 0; MS[i].cap = 64; MS[i].closed = 0; *b = 0; *pp = b; *np = 0;
    return f;
}
int sim_vfscanf(FILE *f, const char *fmt, va_list ap) { int i = lock(f, "fscanf"), a = sim_active; sim_active = 0; int r = vfscanf(f, fmt, ap); sim_active = a; int e = errno; unlock(i); errno = e; return r; }
int sim_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfscanf(f, fmt, ap); va_end(ap); return r; }
int sim___isoc23_vfscanf(FILE *f, const char *fmt, va_list ap) { return sim_vfscanf(f, fmt, ap); }
int sim___isoc23_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfscanf(f, fmt, ap); va_end(ap); return r; }
int sim_fclose(FILE *f) { int i = lock(f, "fclose"); int a = sim_active; sim_active = 0; ST[i].f = NULL; int r = fclose(f); sim_active = a; ST[i].count = 0; wake_all(W_FLOCK, &ST[i]); int e = errno; sched_point(); errno = e; return r; }
int sim_fflush(FILE *f) { if (!f) { sched_point(); stdio_exit_flush(); return 0; } OP(f, int, fflush(f)); }
int sim_fileno(FILE *f) { int i = slot(f); if (i < 0) { errno = EBADF; return -1; } return ST[i].fd; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { OP(f, int, setvbuf(f, b, m, n)); }
void sim_setlinebuf(FILE *f) { sim_setvbuf(f, NULL, _IOLBF, 0); }
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
static void chk_s(const char *s) { if (in_arena(s)) for (;; s++) { heap_acc(s, 1, 0, "stream output"); if (!*s) break; } }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { int e0 = errno; chk_s(fmt); int i = lock(f, "vfprintf"); int a = sim_active; sim_active = 0; errno = e0; int r = vfprintf(f, fmt, ap); sim_active = a; int e = errno; unlock(i); errno = e; return r; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_dprintf(int fd, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return (int)os_write(fd, b, n > 8191 ? 8191 : (size_t)n); }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); return (int)os_write(fd, b, n > 8191 ? 8191 : (size_t)n); }
int sim_fputs(const char *s, FILE *f) { chk_s(s); OP(f, int, fputs(s, f)); }
int sim_fputc(int c, FILE *f) { OP(f, int, fputc(c, f)); }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_puts(const char *s) { chk_s(s); int i = lock(sim_stdout, "puts"); int a = sim_active; sim_active = 0; int r = fputs(s, sim_stdout); fputc('\n', sim_stdout); sim_active = a; unlock(i); return r; }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) { heap_acc(p, s * n, 0, "fwrite"); OP(f, size_t, fwrite(p, s, n, f)); }
size_t sim_fread(void *p, size_t s, size_t n, FILE *f) { heap_acc(p, s * n, 1, "fread"); OP(f, size_t, fread(p, s, n, f)); }
int sim_fgetc(FILE *f) { OP(f, int, fgetc(f)); }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_ungetc(int c, FILE *f) { OP(f, int, ungetc(c, f)); }
char *sim_fgets(char *b, int n, FILE *f) { if (n > 0) heap_acc(b, (size_t)n, 1, "fgets"); OP(f, char *, fgets(b, n, f)); }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
    int i = lock(f, "getline"); size_t o = 0; int c = EOF;
    for (;;) {
        if (o + 2 > *n || !*l) { size_t k = *n ? *n * 2 : 120; char *q = sim_realloc(*l, k); if (!q) { unlock(i); return -1; } *l = q; *n = k; }
        int a = sim_active; sim_active = 0; c = fgetc(f); sim_active = a;
        if (c == EOF) break;
        (*l)[o++] = (char)c; if (c == d) break;
    }
    unlock(i);
    if (!o && c == EOF) return -1;
    (*l)[o] = 0; return (ssize_t)o;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
ssize_t sim___getdelim(char **l, size_t *n, int d, FILE *f) { return sim_getdelim(l, n, d, f); }
int sim_feof(FILE *f) { OP(f, int, feof(f)); }
int sim_ferror(FILE *f) { OP(f, int, ferror(f)); }
void sim_clearerr(FILE *f) { int i = lock(f, "clearerr"); clearerr(f); unlock(i); }
int sim_fseek(FILE *f, long o, int w) { OP(f, int, fseek(f, o, w)); }
int sim_fseeko(FILE *f, off_t o, int w) { OP(f, int, fseeko(f, o, w)); }
long sim_ftell(FILE *f) { OP(f, long, ftell(f)); }
off_t sim_ftello(FILE *f) { OP(f, off_t, ftello(f)); }
void sim_rewind(FILE *f) { int i = lock(f, "rewind"); rewind(f); unlock(i); }
void sim_perror(const char *s) { int e = errno; if (s && *s) sim_fprintf(sim_stderr, "%s: %s\n", s, sim_strerror(e)); else sim_fprintf(sim_stderr, "%s\n", sim_strerror(e)); }
int sim_fputs_unlocked(const char *s, FILE *f) { return sim_fputs(s, f); }
int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_fgetc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_getc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
size_t sim_fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return sim_fwrite(p, s, n, f); }

/* localtime()/gmtime() fill one static object without holding a lock while the caller reads it */
#include <time.h>
static struct tm the_tm;
static struct tm *fill_tm(const time_t *t, int gmt) {
    struct tm x; if (gmt) gmtime_r(t, &x); else localtime_r(t, &x);
    sched_point();
    the_tm.tm_sec = x.tm_sec; the_tm.tm_min = x.tm_min; 
    sched_point();
    int s = the_tm.tm_sec, m = the_tm.tm_min; the_tm = x; the_tm.tm_sec = s; the_tm.tm_min = m;
    sched_point();
    return &the_tm;
}
struct tm *sim_localtime(const time_t *t) { return fill_tm(t, 0); }
struct tm *sim_gmtime(const time_t *t) { return fill_tm(t, 1); }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { heap_acc(o, sizeof *o, 1, "localtime_r"); return localtime_r(t, o); }
struct tm *sim_gmtime_r(const time_t *t, struct tm *o) { heap_acc(o, sizeof *o, 1, "gmtime_r"); return gmtime_r(t, o); }
char *sim_ctime(const time_t *t) { return asctime(fill_tm(t, 0)); }
