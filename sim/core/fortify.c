/* The library is compiled with _FORTIFY_SOURCE: where the compiler knows the size of the object a libc call writes to
   (arrays on the stack and static ones; heap blocks are checked by the heap itself), the call arrives here with that size.
   Only what would really be written outside the object is reported: a size argument that is merely too large is not. */
#include "core.h"
#include <setjmp.h>
#include <wchar.h>
#include <syslog.h>
static void room(size_t dl, size_t n, const char *op) { if (dl != (size_t)-1 && n > dl) sim_fail("out-of-bounds", "%s writes %zu bytes to an object of %zu", op, n, dl); }
void *sim_memcpy(void *, const void *, size_t); void *sim_memmove(void *, const void *, size_t); void *sim_mempcpy(void *, const void *, size_t); void *sim_memset(void *, int, size_t);
char *sim_strcpy(char *, const char *); char *sim_stpcpy(char *, const char *); char *sim_strncpy(char *, const char *, size_t); char *sim_strcat(char *, const char *); char *sim_strncat(char *, const char *, size_t);
int sim_vsnprintf(char *, size_t, const char *, va_list); int sim_vsprintf(char *, const char *, va_list); int sim_vasprintf(char **, const char *, va_list); int sim_vfprintf(FILE *, const char *, va_list); int sim_vprintf(const char *, va_list);
void sim_vsyslog(int, const char *, va_list);
char *sim_fgets(char *, int, FILE *); size_t sim_fread(void *, size_t, size_t, FILE *); ssize_t sim_read(int, void *, size_t); ssize_t sim_readlink(const char *, char *, size_t); int sim_gethostname(char *, size_t); char *sim_getcwd(char *, size_t); char *sim_realpath(const char *, char *);
void *sim___memcpy_chk(void *d, const void *s, size_t n, size_t dl) { room(dl, n, "memcpy"); return sim_memcpy(d, s, n); }
void *sim___memmove_chk(void *d, const void *s, size_t n, size_t dl) { room(dl, n, "memmove"); return sim_memmove(d, s, n); }
void *sim___mempcpy_chk(void *d, const void *s, size_t n, size_t dl) { room(dl, n, "mempcpy"); return sim_mempcpy(d, s, n); }
void *sim___memset_chk(void *d, int c, size_t n, size_t dl) { room(dl, n, "memset"); return sim_memset(d, c, n); }
char *sim___strcpy_chk(char *d, const char *s, size_t dl) { room(dl, strlen(s) + 1, "strcpy"); return sim_strcpy(d, s); }
char *sim___stpcpy_chk(char *d, const char *s, size_t dl) { room(dl, strlen(s) + 1, "stpcpy"); return sim_stpcpy(d, s); }
char *sim___strncpy_chk(char *d, const char *s, size_t n, size_t dl) { room(dl, n, "strncpy"); return sim_strncpy(d, s, n); }
char *sim___strcat_chk(char *d, const char *s, size_t dl) { room(dl, strlen(d) + strlen(s) + 1, "strcat"); return sim_strcat(d, s); }
char *sim___strncat_chk(char *d, const char *s, size_t n, size_t dl) { room(dl, strlen(d) + strnlen(s, n) + 1, "strncat"); return sim_strncat(d, s, n); }
int sim___vsnprintf_chk(char *d, size_t n, int fl, size_t dl, const char *f, va_list ap) {
    (void)fl; va_list c; va_copy(c, ap); int w = vsnprintf(NULL, 0, f, c); va_end(c);
    if (w >= 0) room(dl, (size_t)w + 1 < n ? (size_t)w + 1 : n, "snprintf");
    return sim_vsnprintf(d, n, f, ap);
}
int sim___snprintf_chk(char *d, size_t n, int fl, size_t dl, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim___vsnprintf_chk(d, n, fl, dl, f, ap); va_end(ap); return r; }
int sim___vsprintf_chk(char *d, int fl, size_t dl, const char *f, va_list ap) {
    (void)fl; va_list c; va_copy(c, ap); int w = vsnprintf(NULL, 0, f, c); va_end(c);
    if (w >= 0) room(dl, (size_t)w + 1, "sprintf");
    return sim_vsprintf(d, f, ap);
}
int sim___sprintf_chk(char *d, int fl, size_t dl, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim___vsprintf_chk(d, fl, dl, f, ap); va_end(ap); return r; }
int sim___vasprintf_chk(char **o, int fl, const char *f, va_list ap) { (void)fl; return sim_vasprintf(o, f, ap); }
int sim___asprintf_chk(char **o, int fl, const char *f, ...) { (void)fl; va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim___vfprintf_chk(FILE *f, int fl, const char *fmt, va_list ap) { (void)fl; return sim_vfprintf(f, fmt, ap); }
int sim___fprintf_chk(FILE *f, int fl, const char *fmt, ...) { (void)fl; va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim___vprintf_chk(int fl, const char *fmt, va_list ap) { (void)fl; return sim_vprintf(fmt, ap); }
int sim___printf_chk(int fl, const char *fmt, ...) { (void)fl; va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
void sim___vsyslog_chk(int p, int fl, const char *f, va_list ap) { (void)fl; sim_vsyslog(p, f, ap); }
void sim___syslog_chk(int p, int fl, const char *f, ...) { (void)fl; va_list ap; va_start(ap, f); sim_vsyslog(p, f, ap); va_end(ap); }
char *sim___fgets_chk(char *b, size_t dl, int n, FILE *f) { room(dl, n > 0 ? (size_t)n : 0, "fgets"); return sim_fgets(b, n, f); }
size_t sim___fread_chk(void *p, size_t dl, size_t s, size_t n, FILE *f) { room(dl, s * n, "fread"); return sim_fread(p, s, n, f); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t dl) { room(dl, n, "read"); return sim_read(fd, b, n); }
ssize_t sim___readlink_chk(const char *p, char *b, size_t n, size_t dl) { room(dl, n, "readlink"); return sim_readlink(p, b, n); }
int sim___gethostname_chk(char *b, size_t n, size_t dl) { room(dl, n, "gethostname"); return sim_gethostname(b, n); }
char *sim___getcwd_chk(char *b, size_t n, size_t dl) { room(dl, n, "getcwd"); return sim_getcwd(b, n); }
char *sim___realpath_chk(const char *p, char *o, size_t dl) { (void)dl; return sim_realpath(p, o); }
__attribute__((noreturn)) void sim___longjmp_chk(jmp_buf e, int v) { _longjmp(e, v); }
