/* simulated operating system: file system, descriptors, pipes, processes, syslog */
#include "core.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <limits.h>
#include <syslog.h>
#include <dirent.h>

#define MAXN 2048
#define MAXFD 4096
#define MAXOF 512
typedef struct { int used, type, parent; char name[256]; char *data; size_t len, cap; mode_t mode; int deny; int nlink; uint32_t ino; } node;
static node N[MAXN]; static int topN = 1;
enum { OF_NONE, OF_NODE, OF_PR, OF_PW };
typedef struct { int kind, ref, node, pipe, flags; long off; int by_stdio; char path[256]; } ofile;
static ofile OF[MAXOF];
static struct { int of; int guard; int cloexec; int harness; } FD[MAXFD];
typedef struct { char *buf; int len, cap, rd, wr; } pipe_t_;
static pipe_t_ P[64];
static int np, pipe_cap = 65536;
static int cwd; static long disk_left = -1;
static uint64_t ncalls; static int foreign;
static uint64_t fd_limit = 1024;
sim_proc proc;
char sim_hostname[256]; int sim_hostname_fail;
void (*sim_exit_cb)(int); void (*sim_abort_cb)(void); void (*sim_fork_cb)(int);
int fs_race_enabled; void (*fs_race_cb)(const char *, const char *);
static uint32_t inos = 2;

uint64_t os_calls(void) { return ncalls; }
static int sc(void) { sched_point(); cancel_point(); ncalls++; return 0; }
#define FAIL(e) do { errno = (e); return -1; } while (0)

/* ---------------- nodes ---------------- */
static int new_node(int parent, const char *name, int type, mode_t mode) {
    for (int i = 1; i < MAXN; i++) if (!N[i].used) {
        memset(&N[i], 0, sizeof N[i]);
        if (i >= topN) topN = i + 1;
        N[i].used = 1; N[i].type = type; N[i].parent = parent; N[i].mode = mode; N[i].nlink = 1; N[i].ino = inos++;
        snprintf(N[i].name, sizeof N[i].name, "%s", name);
        return i;
    }
    sim_error("simulated file system full of nodes");
}
static int lookup(int dir, const char *name, size_t n) {
    for (int i = 1; i < topN; i++) if (N[i].used && N[i].nlink && i != dir && N[i].parent == dir && strlen(N[i].name) == n && !memcmp(N[i].name, name, n)) return i;
    return 0;
}
/* resolve; on success *dir = parent node, last = final component, returns node or 0 when the final one is missing; <0 errno */
static int resolve(const char *path, int *dir, char *last) {
    const char *p = path; int d, cur;
    size_t L = strlen(path);
    if (last) last[0] = 0;
    if (dir) *dir = 0;
    if (L == 0) return -ENOENT;
    if (L >= PATH_MAX) return -ENAMETOOLONG;
    d = *p == '/' ? 1 : cwd; cur = d;
    if (dir) *dir = N[cur].parent;
    while (1) {
        while (*p == '/') p++;
        if (!*p) break;
        size_t n = strcspn(p, "/");
        if (n > 255) return -ENAMETOOLONG;
        if (N[cur].type != N_DIR) return -ENOTDIR;
        const char *rest = p + n; while (*rest == '/') rest++;
        int next;
        if (n == 1 && p[0] == '.') next = cur;
        else if (n == 2 && p[0] == '.' && p[1] == '.') next = N[cur].parent;
        else next = lookup(cur, p, n);
        if (!next) {
            if (*rest) return -ENOENT;
            if (dir) *dir = cur;
            if (last) { memcpy(last, p, n); last[n] = 0; }
            return 0;
        }
        if (dir) *dir = cur;
        if (last) { memcpy(last, p, n); last[n] = 0; }
        cur = next; p += n;
    }
    if (path[L - 1] == '/' && N[cur].type != N_DIR) return -ENOTDIR;
    return cur;
}
static int trailing(const char *p) { size_t n = strlen(p); return n && p[n - 1] == '/'; }
static int resolve_deny(const char *path) { /* EACCES-like injected denial on any directory along the path's parent */
    int dir; char last[300]; int r = resolve(path, &dir, last);
    if (r < 0) return 0;
    if (dir > 0 && N[dir].deny) return N[dir].deny;
    return 0;
}
int fs_mkdirp(const char *path) {
    char b[PATH_MAX]; snprintf(b, sizeof b, "%s", path);
    for (char *p = b + 1;; p++) if (*p == '/' || !*p) {
        char c = *p; *p = 0; int dir; char last[300]; int r = resolve(b, &dir, last);
        if (r == 0) r = new_node(dir, last, N_DIR, 0755);
        if (r < 0) return -1;
        *p = c; if (!c) return r;
    }
}
int fs_put(const char *path, const void *data, size_t n) {
    int dir; char last[300]; int r = resolve(path, &dir, last);
    if (r < 0) return -1;
    if (!r) r = new_node(dir, last, N_FILE, 0644);
    free(N[r].data); N[r].data = malloc(n + 1); memcpy(N[r].data, data, n); N[r].len = N[r].cap = n;
    return 0;
}
int fs_type(const char *path) { int r = resolve(path, NULL, NULL); return r <= 0 ? N_NONE : N[r].type; }
ssize_t fs_get(const char *path, void *buf, size_t cap) {
    int r = resolve(path, NULL, NULL); if (r <= 0 || N[r].type != N_FILE) return -1;
    size_t n = N[r].len < cap ? N[r].len : cap; memcpy(buf, N[r].data, n); return (ssize_t)N[r].len;
}
int fs_rm(const char *path) { int r = resolve(path, NULL, NULL); if (r <= 1) return -1; N[r].nlink = 0; return 0; }
void fs_set_readonly(const char *path, int e) { int r = resolve(path, NULL, NULL); if (r > 0) N[r].deny = e; }
void fs_set_cap(long b) { disk_left = b; }
int fs_count(void) { int n = 0; for (int i = 1; i < topN; i++) n += N[i].used && N[i].nlink; return n; }
static void full_path(int n, char *b, size_t cap) {
    char t[PATH_MAX + 300]; b[0] = 0;
    if (n == 1) { snprintf(b, cap, "/"); return; }
    while (n != 1) { snprintf(t, sizeof t, "/%s%s", N[n].name, b); snprintf(b, cap, "%s", t); n = N[n].parent; }
}
void fs_list(void (*cb)(const char *, int, mode_t, void *), void *arg) {
    char b[PATH_MAX]; for (int i = 1; i < topN; i++) if (N[i].used && N[i].nlink) { full_path(i, b, sizeof b); cb(b, N[i].type, N[i].mode, arg); }
}
mode_t fs_mode(const char *path) { int r = resolve(path, NULL, NULL); return r > 0 ? N[r].mode : 0; }
char *fs_cwd(char *b, size_t n) { full_path(cwd, b, n); return b; }
int fs_chdir(const char *p) { int r = resolve(p, NULL, NULL); if (r <= 0) return -1; cwd = r; return 0; }

static void race(const char *call, const char *path) { if (fs_race_enabled && fs_race_cb) fs_race_cb(call, path); }

/* ---------------- descriptors ---------------- */
static int new_of(int kind) { for (int i = 1; i < MAXOF; i++) if (!OF[i].ref) { memset(&OF[i], 0, sizeof OF[i]); OF[i].kind = kind; OF[i].ref = 1; return i; } sim_error("too many open files"); }
static int low_fd(int from) { for (uint64_t i = (uint64_t)from; i < fd_limit && i < MAXFD; i++) if (!FD[i].of) return (int)i; return -1; }
static void drop_of(int o) {
    if (--OF[o].ref) return;
    if (OF[o].kind == OF_PR) P[OF[o].pipe].rd--;
    if (OF[o].kind == OF_PW) P[OF[o].pipe].wr--;
    if (OF[o].kind == OF_PR || OF[o].kind == OF_PW) wake_all(W_IO, &P[OF[o].pipe]);
}
int fd_open_count(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += FD[i].of != 0; return n; }
int fd_is_open(int fd) { return fd >= 0 && fd < MAXFD && FD[fd].of; }
int fd_foreign_closed(void) { return foreign; }
void fd_guard(int fd) { FD[fd].guard = 1; }
void fd_set_limit(uint64_t n) { fd_limit = n; }
int fd_flags(int fd) { return fd_is_open(fd) ? OF[FD[fd].of].flags : -1; }
int fd_kind(int fd, char *path, size_t n) { if (!fd_is_open(fd)) return N_NONE; ofile *o = &OF[FD[fd].of]; if (path) snprintf(path, n, "%s", o->kind == OF_NODE ? o->path : "(pipe)"); return o->kind == OF_NODE ? N[o->node].type : 99; }
int fd_install(int fd, const char *path) {
    int r = resolve(path, NULL, NULL); if (r <= 0) { if (fs_put(path, "", 0)) return -1; r = resolve(path, NULL, NULL); }
    int o = new_of(OF_NODE); OF[o].node = r; OF[o].flags = O_RDWR; snprintf(OF[o].path, sizeof OF[o].path, "%s", path);
    FD[fd].of = o; FD[fd].harness = 1; return fd;
}
int fd_free_slots(void) { int n = 0; for (uint64_t i = 0; i < fd_limit && i < MAXFD; i++) n += !FD[i].of; return n; }
void pipe_set_cap(int n) { pipe_cap = n; }
long fd_pipe_avail(int fd) { return fd_is_open(fd) && OF[FD[fd].of].kind == OF_PR ? P[OF[FD[fd].of].pipe].len : -1; }
long fd_pipe_read(int fd, void *buf, size_t n) {
    if (!fd_is_open(fd) || OF[FD[fd].of].kind != OF_PR) return -1;
    pipe_t_ *p = &P[OF[FD[fd].of].pipe]; if (n > (size_t)p->len) n = (size_t)p->len;
    if (buf) memcpy(buf, p->buf, n);
    memmove(p->buf, p->buf + n, (size_t)p->len - n); p->len -= (int)n;
    if (n) wake_all(W_IO, p);
    return (long)n;
}

int os_open(const char *path, int flags, mode_t mode, int from_stdio) {
    sc(); race("open", path);
    if (fault(F_OPEN_EINTR)) FAIL(EINTR);
    if (fault(F_OPEN)) { static const int e[] = { EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EIO, ENOMEM }; FAIL(e[ch("open-errno", 7)]); }
    int dir; char last[300]; int r = resolve(path, &dir, last);
    if (r < 0) FAIL(-r);
    if (r == 0) {
        if (!(flags & O_CREAT)) FAIL(ENOENT);
        if (trailing(path)) FAIL(EISDIR);
        int dn = resolve_deny(path); if (dn) FAIL(dn);
        int fd0 = low_fd(0); if (fd0 < 0) FAIL(EMFILE);
        r = new_node(dir, last, N_FILE, mode & ~proc.umask_ & 07777);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) FAIL(EEXIST);
        if (N[r].type == N_DIR && (flags & O_ACCMODE) != O_RDONLY) FAIL(EISDIR);
        if (N[r].type == N_DIR && (flags & O_CREAT)) FAIL(EISDIR);
        if (N[r].type != N_DIR && (flags & O_DIRECTORY)) FAIL(ENOTDIR);
        if (N[r].deny && N[r].type == N_FILE) FAIL(N[r].deny);
    }
    int fd = low_fd(0); if (fd < 0) FAIL(EMFILE);
    if ((flags & O_TRUNC) && N[r].type == N_FILE) N[r].len = 0;
    int o = new_of(OF_NODE); OF[o].node = r; OF[o].flags = flags; OF[o].by_stdio = from_stdio; snprintf(OF[o].path, sizeof OF[o].path, "%s", path);
    FD[fd].of = o; FD[fd].guard = 0; FD[fd].harness = 0; FD[fd].cloexec = !!(flags & O_CLOEXEC);
    evs("open %s -> %ld", path, fd);
    return fd;
}
int sim_open(const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return os_open(path, flags, m, 0); }
int sim_open64(const char *path, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return os_open(path, flags, m, 0); }
int sim___open_2(const char *path, int flags) { return os_open(path, flags, 0, 0); }
int sim_openat(int dfd, const char *path, int flags, ...) { mode_t m = 0; (void)dfd; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return os_open(path, flags, m, 0); }
int sim_creat(const char *path, mode_t m) { return os_open(path, O_CREAT | O_WRONLY | O_TRUNC, m, 0); }

int os_close(int fd) {
    sc();
    if (!fd_is_open(fd)) FAIL(EBADF);
    if (FD[fd].guard) { foreign++; FD[fd].guard = 0; ev("library closes foreign descriptor %ld", fd, 0, 0); }
    int o = FD[fd].of; FD[fd].of = 0; FD[fd].harness = 0;
    drop_of(o);
    ev("close %ld", fd, 0, 0);
    if (fault(F_CLOSE_EINTR)) FAIL(EINTR);       /* as on Linux: the descriptor is gone all the same */
    if (fault(F_CLOSE_EIO)) FAIL(EIO);
    return 0;
}
int sim_close(int fd) { return os_close(fd); }
int sim_close_range(unsigned a, unsigned b, int fl) { (void)fl; sc(); for (unsigned i = a; i <= b && i < MAXFD; i++) if (FD[i].of) { int o = FD[i].of; FD[i].of = 0; drop_of(o); } return 0; }
void sim_closefrom(int a) { sim_close_range((unsigned)a, ~0u, 0); }

static ssize_t wr(int fd, const void *buf, size_t n, long at) {   /* at: the place, or -1 for the descriptor's own */
    sc();
    if (!fd_is_open(fd)) FAIL(EBADF);
    ofile *o = &OF[FD[fd].of];
    if (o->kind == OF_PR) FAIL(EBADF);
    if (at >= 0 && o->kind != OF_NODE) FAIL(ESPIPE);
    heap_acc(buf, n, 0, "write()");
    if (fault(F_WRITE_EINTR)) FAIL(EINTR);
    if (fault(F_WRITE_EIO)) FAIL(o->kind == OF_PW ? (ch("pipe-errno", 2) ? EAGAIN : EPIPE) : EIO);
    if (o->kind == OF_PW) {
        pipe_t_ *p = &P[o->pipe];
        for (;;) {
            if (!p->rd) FAIL(EPIPE);
            if (p->len < p->cap) break;
            if (o->flags & O_NONBLOCK) FAIL(EAGAIN);
            block_on(W_IO, p, UINT64_MAX, 0, 0); cancel_point();
        }
        if (n > (size_t)(p->cap - p->len)) n = (size_t)(p->cap - p->len);
        memcpy(p->buf + p->len, buf, n); p->len += (int)n; wake_all(W_IO, p);
        return (ssize_t)n;
    }
    if ((o->flags & O_ACCMODE) == O_RDONLY) FAIL(EBADF);
    node *x = &N[o->node];
    if (x->type == N_NULL) return (ssize_t)n;
    if (fault(F_WRITE_ENOSPC)) FAIL(ENOSPC);
    if (n > 1 && fault(F_WRITE_SHORT)) n = 1 + ch("short-write", (uint32_t)(n - 1 > 4096 ? 4096 : n - 1));
    if (disk_left >= 0) { if (disk_left == 0 && n) { fault_count(F_WRITE_ENOSPC); FAIL(ENOSPC); } if ((long)n > disk_left) n = (size_t)disk_left; disk_left -= (long)n; }
    long off = o->flags & O_APPEND ? (long)x->len : at >= 0 ? at : o->off;
    if ((size_t)off + n > x->cap) { x->cap = ((size_t)off + n) * 2 + 64; x->data = realloc(x->data, x->cap + 1); }
    if ((size_t)off > x->len) memset(x->data + x->len, 0, (size_t)off - x->len);
    memcpy(x->data + off, buf, n); off += (long)n; if ((size_t)off > x->len) x->len = (size_t)off;
    if (at < 0) o->off = off;
    ev("write fd %ld: %ld bytes", fd, (long)n, 0);
    return (ssize_t)n;
}
ssize_t os_write(int fd, const void *buf, size_t n) { return wr(fd, buf, n, -1); }
ssize_t sim_write(int fd, const void *b, size_t n) { return wr(fd, b, n, -1); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t at) { if (at < 0) FAIL(EINVAL); return wr(fd, b, n, (long)at); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t at) { return sim_pwrite(fd, b, n, at); }
struct iovec_ { void *b; size_t n; };
ssize_t sim_writev(int fd, const void *v, int c) {   /* one write of all pieces */
    const struct iovec_ *iv = v; size_t t = 0; if (c < 0 || c > 1024) FAIL(EINVAL);
    for (int i = 0; i < c; i++) { if (iv[i].n) heap_acc(iv[i].b, iv[i].n, 0, "writev()"); t += iv[i].n; }
    char *b = malloc(t + 1); size_t k = 0; for (int i = 0; i < c; i++) if (iv[i].n) { memcpy(b + k, iv[i].b, iv[i].n); k += iv[i].n; }
    ssize_t w = wr(fd, b, t, -1); int e = errno; free(b); errno = e; return w;
}
static ssize_t rd(int fd, void *buf, size_t n, long at) {
    sc();
    if (!fd_is_open(fd)) FAIL(EBADF);
    ofile *o = &OF[FD[fd].of];
    heap_acc(buf, n, 1, "read()");
    if (fault(F_READ_EINTR)) FAIL(EINTR);
    if (fault(F_READ_EIO)) FAIL(EIO);
    if (o->kind == OF_PW) FAIL(EBADF);
    if (at >= 0 && o->kind != OF_NODE) FAIL(ESPIPE);
    if (o->kind == OF_PR) {
        pipe_t_ *p = &P[o->pipe];
        while (!p->len) { if (!p->wr) return 0; if (o->flags & O_NONBLOCK) FAIL(EAGAIN); block_on(W_IO, p, UINT64_MAX, 0, 0); cancel_point(); }
        if (n > (size_t)p->len) n = (size_t)p->len;
        memcpy(buf, p->buf, n); memmove(p->buf, p->buf + n, (size_t)p->len - n); p->len -= (int)n; wake_all(W_IO, p);
        return (ssize_t)n;
    }
    if ((o->flags & O_ACCMODE) == O_WRONLY) FAIL(EBADF);
    node *x = &N[o->node];
    if (x->type == N_DIR) FAIL(EISDIR);
    long off = at >= 0 ? at : o->off;
    if (x->type == N_NULL || (size_t)off >= x->len) return 0;
    if (n > x->len - (size_t)off) n = x->len - (size_t)off;
    if (n > 1 && fault(F_READ_SHORT)) n = 1 + ch("short-read", (uint32_t)(n - 1 > 4096 ? 4096 : n - 1));
    memcpy(buf, x->data + off, n); if (at < 0) o->off = off + (long)n;
    return (ssize_t)n;
}
ssize_t os_read(int fd, void *buf, size_t n) { return rd(fd, buf, n, -1); }
ssize_t sim_read(int fd, void *b, size_t n) { return rd(fd, b, n, -1); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t at) { if (at < 0) FAIL(EINVAL); return rd(fd, b, n, (long)at); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t at) { return sim_pread(fd, b, n, at); }
ssize_t sim_readv(int fd, const void *v, int c) {
    const struct iovec_ *iv = v; size_t t = 0; if (c < 0 || c > 1024) FAIL(EINVAL);
    for (int i = 0; i < c; i++) { if (iv[i].n) heap_acc(iv[i].b, iv[i].n, 1, "readv()"); t += iv[i].n; }
    char *b = malloc(t + 1); ssize_t r = rd(fd, b, t, -1); int e = errno; size_t k = 0; for (int i = 0; i < c && (ssize_t)k < r; i++) { size_t m = iv[i].n < (size_t)r - k ? iv[i].n : (size_t)r - k; memcpy(iv[i].b, b + k, m); k += m; }
    free(b); errno = e; return r;
}
long os_lseek(int fd, long off, int wh) {
    if (!fd_is_open(fd)) FAIL(EBADF);
    ofile *o = &OF[FD[fd].of]; if (o->kind != OF_NODE) FAIL(ESPIPE);
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : (long)N[o->node].len;
    if (b + off < 0) FAIL(EINVAL);
    return o->off = b + off;
}
off_t sim_lseek(int fd, off_t off, int wh) { sc(); return os_lseek(fd, off, wh); }
int sim_fsync(int fd) { sc(); if (!fd_is_open(fd)) FAIL(EBADF); return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
int sim_ftruncate(int fd, off_t l) { sc(); if (!fd_is_open(fd)) FAIL(EBADF); node *x = &N[OF[FD[fd].of].node]; if (l < 0) FAIL(EINVAL); if ((size_t)l > x->cap) { x->cap = (size_t)l + 64; x->data = realloc(x->data, x->cap + 1); } if ((size_t)l > x->len) memset(x->data + x->len, 0, (size_t)l - x->len); x->len = (size_t)l; return 0; }
int sim_ftruncate64(int fd, off_t l) { return sim_ftruncate(fd, l); }
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_truncate(const char *p, off_t l) { sc(); int r = resolve(p, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); if ((size_t)l < N[r].len) N[r].len = (size_t)l; return 0; }
static int dup_to(int fd, int to) { FD[to].of = FD[fd].of; FD[to].guard = 0; FD[to].harness = 0; OF[FD[fd].of].ref++; ev("dup %ld -> %ld", fd, to, 0); return to; }
int sim_dup(int fd) { sc(); if (!fd_is_open(fd)) FAIL(EBADF); if (fault(F_DUP)) FAIL(EMFILE); int t = low_fd(0); if (t < 0) FAIL(EMFILE); return dup_to(fd, t); }
int sim_dup2(int fd, int to) { sc(); if (!fd_is_open(fd) || to < 0 || to >= MAXFD) FAIL(EBADF); if (fault(F_DUP)) FAIL(EINTR); if (fd == to) return to; if (FD[to].of) { int o = FD[to].of; FD[to].of = 0; drop_of(o); } return dup_to(fd, to); }
int sim_dup3(int fd, int to, int fl) { (void)fl; if (fd == to) FAIL(EINVAL); return sim_dup2(fd, to); }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); sc();
    if (!fd_is_open(fd)) FAIL(EBADF);
    switch (cmd) {
    case F_GETFD: return FD[fd].cloexec;
    case F_SETFD: FD[fd].cloexec = (int)a; return 0;
    case F_GETFL: return OF[FD[fd].of].flags;
    case F_SETFL: OF[FD[fd].of].flags = (OF[FD[fd].of].flags & O_ACCMODE) | ((int)a & ~O_ACCMODE); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int t = low_fd((int)a); if (t < 0) FAIL(EMFILE); return dup_to(fd, t); }
    default: return 0;
    }
}
int sim_fcntl64(int fd, int cmd, long a) { return sim_fcntl(fd, cmd, a); }
int sim_pipe2(int p[2], int fl) {
    sc(); heap_acc(p, 8, 1, "pipe");
    if (fault(F_PIPE)) FAIL(ch("pipe-errno", 2) ? ENFILE : EMFILE);
    int a = low_fd(0); if (a < 0) FAIL(EMFILE);
    int b = low_fd(a + 1); if (b < 0) FAIL(EMFILE);
    if (np >= 64) sim_error("too many pipes");
    P[np] = (pipe_t_){ malloc((size_t)pipe_cap + 1), 0, pipe_cap, 1, 1 };
    int o = new_of(OF_PR); OF[o].pipe = np; OF[o].flags = O_RDONLY | fl; FD[a].of = o; FD[a].guard = 0; FD[a].harness = 0;
    o = new_of(OF_PW); OF[o].pipe = np; OF[o].flags = O_WRONLY | fl; FD[b].of = o; FD[b].guard = 0; FD[b].harness = 0;
    np++; p[0] = a; p[1] = b; ev("pipe -> %ld,%ld", a, b, 0);
    return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }

/* ---------------- path calls ---------------- */
int sim_mkdir(const char *path, mode_t mode) {
    sc(); race("mkdir", path);
    if (in_arena(path)) { for (const char *q = path; heap_acc(q, 1, 0, "mkdir"), *q; q++) ; }
    evs("mkdir(%s) #%ld", path, (long)ncalls);
    if (fault(F_MKDIR)) { static const int e[] = { EACCES, ENOSPC, EROFS, EIO, EDQUOT, EMLINK, ENOMEM, EPERM }; FAIL(e[ch("mkdir-errno", 8)]); }
    int dir; char last[300]; int r = resolve(path, &dir, last);
    if (r > 0) FAIL(EEXIST);
    if (r == -ENOTDIR && trailing(path)) { char t[PATH_MAX]; snprintf(t, sizeof t, "%s", path); size_t n = strlen(t); while (n > 1 && t[n - 1] == '/') t[--n] = 0; int q = resolve(t, NULL, NULL); if (q > 0) FAIL(EEXIST); }
    if (r < 0) FAIL(-r);
    int dn = resolve_deny(path); if (dn) FAIL(dn);
    new_node(dir, last, N_DIR, mode & ~proc.umask_ & 01777);
    return 0;
}
int sim_mkdirat(int d, const char *path, mode_t mode) { (void)d; return sim_mkdir(path, mode); }
static void fill_stat(int r, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_ino = N[r].ino; st->st_dev = 1; st->st_nlink = 1; st->st_size = (off_t)N[r].len; st->st_blksize = 4096; st->st_uid = 0;
    st->st_mode = N[r].mode | (N[r].type == N_DIR ? S_IFDIR : N[r].type == N_FILE ? S_IFREG : S_IFCHR);
}
int sim_stat(const char *path, struct stat *st) {
    sc(); race("stat", path);
    if (fault(F_STAT)) { static const int e[] = { EACCES, EIO, ENOMEM, EOVERFLOW }; FAIL(e[ch("stat-errno", 4)]); }
    int r = resolve(path, NULL, NULL);
    if (r < 0) FAIL(-r);
    if (!r) FAIL(ENOENT);
    heap_acc(st, sizeof *st, 1, "stat");
    fill_stat(r, st); return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_stat64(const char *p, void *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, void *st) { return sim_stat(p, st); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { (void)d; (void)fl; return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) { sc(); if (!fd_is_open(fd)) FAIL(EBADF); ofile *o = &OF[FD[fd].of]; if (o->kind == OF_NODE) fill_stat(o->node, st); else { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; } return 0; }
int sim_access(const char *path, int m) { (void)m; sc(); race("access", path); if (fault(F_STAT)) FAIL(EACCES); int r = resolve(path, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); return 0; }
int sim_faccessat(int d, const char *p, int m, int f) { (void)d; (void)f; return sim_access(p, m); }
int sim_unlink(const char *path) { sc(); race("unlink", path); int r = resolve(path, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); if (N[r].type == N_DIR) FAIL(EISDIR); N[r].nlink = 0; evs("unlink %s", path, 0); return 0; }
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_rmdir(const char *path) { sc(); int r = resolve(path, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); if (N[r].type != N_DIR) FAIL(ENOTDIR); for (int i = 2; i < topN; i++) if (N[i].used && N[i].nlink && N[i].parent == r) FAIL(ENOTEMPTY); N[r].nlink = 0; return 0; }
int sim_rename(const char *a, const char *b) {
    sc(); race("rename", a);
    int r = resolve(a, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT);
    int dir; char last[300]; int q = resolve(b, &dir, last); if (q < 0) FAIL(-q);
    if (q > 0) { if (N[q].type == N_DIR) FAIL(EISDIR); N[q].nlink = 0; }
    N[r].parent = dir; snprintf(N[r].name, sizeof N[r].name, "%s", last);
    return 0;
}
int sim_link(const char *a, const char *b) { (void)a; (void)b; FAIL(EPERM); }
int sim_symlink(const char *a, const char *b) { (void)a; (void)b; FAIL(EPERM); }
int sim_chmod(const char *p, mode_t m) { sc(); int r = resolve(p, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); N[r].mode = m; return 0; }
int sim_fchmod(int fd, mode_t m) { sc(); if (!fd_is_open(fd)) FAIL(EBADF); if (OF[FD[fd].of].kind == OF_NODE) N[OF[FD[fd].of].node].mode = m; return 0; }
static char exe_path[PATH_MAX] = "/usr/bin/simprog"; void os_exe_path(const char *p) { snprintf(exe_path, sizeof exe_path, "%s", p); }
ssize_t sim_readlink(const char *p, char *b, size_t n) { sc(); char own[40]; snprintf(own, sizeof own, "/proc/%d/exe", proc.pid); if (!strcmp(p, own) || !strcmp(p, "/proc/self/exe")) { if (fault(F_STAT)) FAIL(EACCES); size_t l = strlen(exe_path); if (l > n) l = n; memcpy(b, exe_path, l); return (ssize_t)l; } FAIL(EINVAL); }
char *sim_realpath(const char *p, char *o) { (void)p; (void)o; errno = ENOENT; return NULL; }
mode_t sim_umask(mode_t m) { sc(); mode_t o = proc.umask_; proc.umask_ = m & 0777; return o; }
int sim_chdir(const char *p) { sc(); if (fault(F_CHDIR)) FAIL(EACCES); int r = resolve(p, NULL, NULL); if (r < 0) FAIL(-r); if (!r) FAIL(ENOENT); if (N[r].type != N_DIR) FAIL(ENOTDIR); cwd = r; evs("chdir %s", p, 0); return 0; }
char *sim_getcwd(char *b, size_t n) {
    sc(); if (fault(F_CHDIR)) { errno = ch("getcwd-errno", 2) ? ENOENT : EACCES; return NULL; }
    char t[PATH_MAX + 300]; full_path(cwd, t, sizeof t);
    if (strlen(t) + 1 > n && b) { errno = ERANGE; return NULL; }
    if (!b) { b = sim_malloc(n ? n : strlen(t) + 1); if (!b) return NULL; }
    heap_acc(b, strlen(t) + 1, 1, "getcwd"); strcpy(b, t); return b;
}
char *sim_getwd(char *b) { return sim_getcwd(b, PATH_MAX); }

/* ---------------- process ---------------- */
int sim_fork(void) {
    sc();
    if (fault(F_FORK)) FAIL(EAGAIN);
    int child = 5000 + ++proc.forks; proc.first_child = child;
    int follow = (int)ch("follow-child", 2);
    ev("fork -> pid %ld, following the %ld (0 parent, 1 child)", child, follow, 0);
    if (sim_fork_cb) sim_fork_cb(follow);
    if (!follow) { proc.wait_calls = 0; proc.depth |= 0x100 << 0; return child; }
    proc.ppid = proc.pid; proc.pid = child; proc.depth++;
    return 0;
}
int sim_vfork(void) { return sim_fork(); }
int sim_setsid(void) { sc(); if (fault(F_SETSID)) FAIL(EPERM); if (proc.pgid == proc.pid) FAIL(EPERM); proc.sid = proc.pgid = proc.pid; ev("setsid", 0, 0, 0); return proc.sid; }
int sim_setpgid(int a, int b) { (void)a; (void)b; proc.pgid = proc.pid; return 0; }
int sim_setpgrp(void) { proc.pgid = proc.pid; return 0; }
int sim_getpid(void) { step(); return proc.pid; }
int sim_getppid(void) { step(); return proc.ppid; }
int sim_getpgrp(void) { return proc.pgid; }
int sim_getsid(int p) { (void)p; return proc.sid; }
int sim_getuid(void) { return 1000; } int sim_geteuid(void) { return 1000; } int sim_getgid(void) { return 1000; } int sim_getegid(void) { return 1000; }
static int do_wait(int *st, int who) {
    sc(); proc.wait_calls++;
    if (fault(F_WAIT_EINTR)) FAIL(EINTR);
    if (st) heap_acc(st, 4, 1, "wait");
    if (proc.zombies && (who <= 0 || who == 3999)) { proc.zombies--; if (st) *st = 0; ev("wait: another child (3999)", 0, 0, 0); return 3999; }
    if (proc.waited || (who > 0 && who != proc.first_child)) FAIL(ECHILD);
    proc.waited++; if (st) *st = (int)ch("child-status", 2) << 8;
    ev("wait: child %ld", proc.first_child, 0, 0); return proc.first_child;
}
int sim_wait(int *st) { return do_wait(st, -1); }
int sim_waitpid(int p, int *st, int o) { (void)o; return do_wait(st, p); }
int sim_kill(int p, int s) { (void)p; (void)s; proc.killed_children++; return 0; }
int sim_raise(int s) { (void)s; sim_abort_now("raise"); }
static uint64_t rlim_cur = 1024, rlim_max = 4096;
void fd_set_rlimit(uint64_t c, uint64_t m) { rlim_cur = c; rlim_max = m; }
int sim_getrlimit(int w, struct rlimit *r) { (void)w; sc(); if (fault(F_RLIMIT)) FAIL(EINVAL); heap_acc(r, sizeof *r, 1, "getrlimit"); r->rlim_cur = rlim_cur; r->rlim_max = rlim_max; return 0; }
int sim_getrlimit64(int w, void *r) { return sim_getrlimit(w, r); }
int sim_setrlimit(int w, const struct rlimit *r) { (void)w; (void)r; sc(); return 0; }
int sim_getdtablesize(void) { return rlim_cur > 1000000 ? 1000000 : (int)rlim_cur; }
long sim_sysconf(int n) { step(); switch (n) { case _SC_PAGESIZE: return 4096; case _SC_OPEN_MAX: return rlim_cur > 1000000000ULL ? -1 : (long)rlim_cur; case _SC_NPROCESSORS_ONLN: return 4; case _SC_HOST_NAME_MAX: return 64; default: return -1; } }
int sim_getpagesize(void) { return 4096; }
int sim_gethostname(char *b, size_t n) {
    sc(); if (fault(F_HOSTNAME)) FAIL(EPERM);
    size_t l = strlen(sim_hostname); heap_acc(b, l + 1 < n ? l + 1 : n, 1, "gethostname");
    memcpy(b, sim_hostname, l + 1 < n ? l + 1 : n);
    if (l + 1 > n) FAIL(ENAMETOOLONG);
    return 0;
}
/* error texts of a locale in which they contain format directives, for numbers the C locale has no text for */
const char *sim_strerror(int e) { static char b[4][80]; static int k; if (e > 9000 && e < 9004) { static const char *const t[] = { "100% of %s", "%n%n%d", "un%" }; return t[e - 9001]; } char *p = b[k++ & 3]; return strerror_r(e, p, 80); }
char *sim_strerror_r(int e, char *b, size_t n) { const char *t = sim_strerror(e); size_t l = strlen(t); if (!n) return b; if (l >= n) l = n - 1; heap_acc(b, l + 1, 1, "strerror_r"); memcpy(b, t, l); b[l] = 0; return b; }
int sim___xpg_strerror_r(int e, char *b, size_t n) { if (strlen(sim_strerror(e)) >= n) return 34; sim_strerror_r(e, b, n); return 0; }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); snprintf(u->nodename, sizeof u->nodename, "%s", sim_hostname); return 0; }
void *sim_signal(int s, void *h) { (void)s; (void)h; return NULL; }
int sim_sigaction(int s, const void *a, void *o) { (void)s; (void)a; (void)o; return 0; }
int sim_sigprocmask(int s, const void *a, void *o) { (void)s; (void)a; (void)o; return 0; }
unsigned sim_alarm(unsigned s) { (void)s; return 0; }
int sim_system(const char *c) { (void)c; return -1; }
static struct { const char *name; const char *value; } ENV[8];
void env_set(const char *name, const char *value) { for (int i = 0; i < 8; i++) if (!ENV[i].name || !strcmp(ENV[i].name, name)) { ENV[i].name = name; ENV[i].value = value; return; } sim_error("too many environment variables"); }
char *sim_getenv(const char *n) { step(); for (int i = 0; i < 8 && ENV[i].name; i++) if (!strcmp(ENV[i].name, n)) return (char *)ENV[i].value; return NULL; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
ssize_t sim_getrandom(void *b, size_t n, unsigned fl) { (void)fl; sc(); for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)ch("random-byte", 256); return (ssize_t)n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }

/* exit */
static struct { int kind; void *fn; void *arg; } ax[1024]; static int nax, exiting;
int sim_atexit_count(void) { return nax; }
int sim_atexit(void (*f)(void)) { step(); if (fault(F_ALLOC)) return -1; if (nax >= 1024) return -1; ax[nax].kind = 0; ax[nax].fn = (void *)f; nax++; return 0; }
int sim_on_exit(void (*f)(int, void *), void *a) { if (nax >= 1024) return -1; ax[nax].kind = 1; ax[nax].fn = (void *)f; ax[nax].arg = a; nax++; return 0; }
int sim___cxa_atexit(void (*f)(void *), void *a, void *d) { (void)d; ax[nax].kind = 2; ax[nax].fn = (void *)f; ax[nax].arg = a; nax++; return 0; }
void sim__exit(int code) { ev("process ends with _exit(%ld)", code, 0, 0); proc.exited = 1; proc.exit_code = code; if (sim_exit_cb) sim_exit_cb(code); sim_finish(); }
void sim__Exit(int c) { sim__exit(c); }
void sim_quick_exit(int c) { sim__exit(c); }
void sim_exit(int code) {
    sched_point();
    if (exiting && proc.exited) sim_fail("exit-misuse", "exit called again while exiting");
    exiting = 1;
    ev("exit(%ld)", code, 0, 0);
    while (nax) {
        int i = --nax;
        if (ax[i].kind == 0) ((void (*)(void))ax[i].fn)();
        else if (ax[i].kind == 1) ((void (*)(int, void *))ax[i].fn)(code, ax[i].arg);
        else ((void (*)(void *))ax[i].fn)(ax[i].arg);
    }
    stdio_exit_flush();
    proc.exited = 1; proc.exit_code = code & 0xff;
    if (sim_exit_cb) sim_exit_cb(code);
    sim_finish();
}
void sim_abort_now(const char *why) {
    ev("abort", 0, 0, 0);
    if (sim_abort_cb) { sim_abort_cb(); sim_finish(); }
    sim_fail("abort", "the library aborted the process (%s)", why);
}
void sim_abort(void) { sim_abort_now("abort"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; sim_abort_now(e); }

/* ---------------- syslog ---------------- */
#define SLMAX 2048
static syslog_rec SL[SLMAX]; static int nsl, sl_open, sl_closes, sl_opt, sl_fac; static char sl_ident[256];
int syslog_count(void) { return nsl; } const syslog_rec *syslog_get(int i) { return &SL[i]; } int syslog_is_open(void) { return sl_open; } int syslog_closes(void) { return sl_closes; }
void sim_openlog(const char *id, int o, int f) { sched_point(); sl_open = 1; sl_opt = o; sl_fac = f; snprintf(sl_ident, sizeof sl_ident, "%s", id ? id : ""); }
void sim_closelog(void) { sched_point(); sl_open = 0; sl_closes++; sl_ident[0] = 0; sl_opt = sl_fac = 0; }
void sim_vsyslog(int p, const char *f, va_list ap) {
    int e = errno;
    sched_point();
    syslog_rec *r = &SL[nsl < SLMAX ? nsl++ : SLMAX - 1]; if (nsl == SLMAX) sim_error("too many syslog records"); r->prio = p; r->opt = sl_opt; r->fac = sl_fac; snprintf(r->ident, sizeof r->ident, "%s", sl_ident); r->by = fiber_self(); errno = e; vsnprintf(r->text, sizeof r->text, f, ap);
    evs("syslog: %s", r->text, p);
    sched_point();
}
void sim_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(p, f, ap); va_end(ap); }
int sim_setlogmask(int m) { (void)m; return 0xff; }

void os_init(void) {
    N[1].used = 1; N[1].type = N_DIR; N[1].parent = 1; N[1].mode = 0755; N[1].nlink = 1; N[1].ino = 1;
    cwd = 1;
    proc.pid = 4242; proc.ppid = 4000; proc.sid = 4000; proc.pgid = 4000; proc.umask_ = 022;
    fs_mkdirp("/dev"); fs_mkdirp("/tmp"); fs_mkdirp("/var/run"); fs_mkdirp("/home/user");
    int d = resolve("/dev", NULL, NULL); new_node(d, "null", N_NULL, 0666);
    fd_install(0, "/dev/stdin"); fd_install(1, "/dev/stdout"); fd_install(2, "/dev/stderr");
    cwd = resolve("/home/user", NULL, NULL);
    snprintf(sim_hostname, sizeof sim_hostname, "simhost");
}
const char *node_text(const char *path, size_t *n) {
    int r = resolve(path, NULL, NULL); if (r <= 0) { if (n) *n = 0; return ""; }
    if (n) *n = N[r].len;
    if (!N[r].data) return "";
    N[r].data[N[r].len] = 0; return N[r].data;
}
void node_reset(const char *path) { int r = resolve(path, NULL, NULL); if (r > 0) N[r].len = 0; for (int i = 0; i < MAXFD; i++) if (FD[i].of && OF[FD[i].of].kind == OF_NODE && OF[FD[i].of].node == r) OF[FD[i].of].off = 0; }
