/* simulated heap: bump allocation, red zones, no reuse, full accounting */
#include "core.h"
#include <sys/mman.h>
#include <strings.h>
#include <stdint.h>
#include <inttypes.h>

#define RZ 32
#define MAXBLK (1 << 19)
typedef struct { uint32_t off, size; uint32_t live : 1, ignored : 1, nf : 1; } blk;
unsigned char *heap_shadow;             /* per byte: 0 unknown, 1 live, 2 freed, 3 red zone */
static blk *B; static uint32_t nb; static uint64_t bump;
static size_t live, live_bytes;

void heap_init(void) {
    void *a = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    heap_shadow = mmap((void *)(ARENA + (1ULL << 36)), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    B = mmap((void *)(ARENA + (1ULL << 37)), sizeof(blk) * MAXBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a == MAP_FAILED || heap_shadow == MAP_FAILED || (void *)B == MAP_FAILED) sim_error("heap: %s", strerror(errno));
    bump = 64; nb = 1;
}
static void *alloc_al(size_t n, size_t al) {
    uint64_t o = (bump + RZ + al - 1) / al * al;
    if (nb >= MAXBLK || n > ARENA_SZ || o + n + RZ > ARENA_SZ) return NULL;
    memset(heap_shadow + bump, 3, o - bump);
    memset(heap_shadow + o, 1, n);
    memset(heap_shadow + o + n, 3, RZ);
    *(uint32_t *)(ARENA + o - 8) = nb; *(uint32_t *)(ARENA + o - 4) = 0xb10cb10c;
    memset((void *)(ARENA + o), 0xA5, n);
    B[nb] = (blk){ (uint32_t)o, (uint32_t)n, 1, 0, 0 };
    nb++; live++; live_bytes += n;
    bump = (o + n + 15) / 16 * 16;
    return (void *)(ARENA + o);
}
static blk *find_any(const void *p) { /* block containing p (any state) */
    uint64_t o = (uint64_t)(uintptr_t)p - ARENA; uint32_t lo = 1, hi = nb;
    while (lo < hi) { uint32_t m = (lo + hi) / 2; if (B[m].off <= o) lo = m + 1; else hi = m; }
    return lo > 1 ? &B[lo - 1] : NULL;
}
void heap_fault(const void *p, size_t n, int write, const char *what) {
    uint64_t o = (uint64_t)(uintptr_t)p - ARENA;
    size_t i = 0; while (i < n && heap_shadow[o + i] == 1) i++;
    int st = i < n ? heap_shadow[o + i] : 0;
    blk *b = find_any((const char *)p + i);
    const char *k = st == 2 ? "use-after-free" : "out-of-bounds";
    sim_fail(k, "%s of %zu bytes (%s) %ld bytes into block #%ld of size %u%s", write ? "write" : "read", n, what,
             b ? (long)(o - b->off) : -1L, b ? (long)(b - B) : -1L, b ? b->size : 0, st == 2 ? " already freed" : "");
}
static blk *blk_of(const void *p, const char *op) {
    if (!in_arena(p)) sim_fail("bad-free", "%s of a pointer that was not allocated (%s)", op, p ? "outside the heap" : "null");
    uint64_t o = (uint64_t)(uintptr_t)p - ARENA;
    uint32_t id = *(uint32_t *)((uintptr_t)p - 8);
    if (o < 64 || *(uint32_t *)((uintptr_t)p - 4) != 0xb10cb10c || id >= nb || B[id].off != o) {
        sim_fail("bad-free", "%s of a pointer that is not the start of a block", op);
    }
    if (!B[id].live) sim_fail("double-free", "%s of block #%u (size %u) a second time", op, id, B[id].size);
    return &B[id];
}
static int oom(size_t n) {
    if (n > (32u << 20)) { errno = ENOMEM; return 1; }
    if (fault(F_ALLOC)) { errno = ENOMEM; return 1; }
    return 0;
}
static void *must(void *p) { if (!p) sim_fail("runaway-memory", "the run asked for more than %llu MB in %u allocations, far beyond what it can need", ARENA_SZ >> 20, (unsigned)nb); return p; }
void *sim_malloc(size_t n) { step(); if (oom(n)) return NULL; return must(alloc_al(n, 16)); }
void *sim_alloc_nf(size_t n) { void *p = must(alloc_al(n, 16)); blk *b = find_any(p); b->nf = 1; b->ignored = 1; live--; live_bytes -= n; return p; }
void *sim_calloc(size_t n, size_t m) {
    step(); size_t t;
    if (__builtin_mul_overflow(n, m, &t) || oom(t)) { errno = ENOMEM; return NULL; }
    void *p = must(alloc_al(t, 16)); memset(p, 0, t); return p;
}
static void kill_blk(blk *b) {
    b->live = 0;
    if (!b->ignored) { live--; live_bytes -= b->size; }
    memset(heap_shadow + b->off, 2, b->size); memset((void *)(ARENA + b->off), 0xDD, b->size);
}
void sim_free(void *p) { step(); if (!p) return; int e = errno; kill_blk(blk_of(p, "free")); errno = e; }
void sim_cfree(void *p) { sim_free(p); }
void *sim_realloc(void *p, size_t n) {
    step();
    if (!p) return sim_malloc(n);
    blk *b = blk_of(p, "realloc");
    if (n == 0) { kill_blk(b); return NULL; }
    if (oom(n)) return NULL;
    uint32_t osz = b->size; uint32_t id = (uint32_t)(b - B);
    void *q = must(alloc_al(n, 16));
    memcpy(q, p, osz < n ? osz : n);
    kill_blk(&B[id]);
    return q;
}
void *sim_reallocarray(void *p, size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; } return sim_realloc(p, t); }
void *sim_memalign(size_t al, size_t n) { step(); if (oom(n)) return NULL; return must(alloc_al(n, al < 16 ? 16 : al)); }
void *sim_aligned_alloc(size_t al, size_t n) { return sim_memalign(al, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = sim_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t sim_malloc_usable_size(void *p) { return p ? blk_of(p, "malloc_usable_size")->size : 0; }

size_t heap_live(void) { return live; }
size_t heap_live_bytes(void) { return live_bytes; }
uint64_t heap_mark(void) { return nb; }
uint64_t heap_used(void) { return bump; }
uint64_t heap_allocs(void) { return nb ? nb - 1 : 0; }
size_t heap_live_since(uint64_t m) { size_t n = 0; for (uint32_t i = (uint32_t)m; i < nb; i++) n += B[i].live && !B[i].ignored; return n; }
void heap_dump_since(uint64_t m) { for (uint32_t i = (uint32_t)m; i < nb; i++) if (B[i].live && !B[i].ignored) sim_note("live block #%u size %u", i, B[i].size); }
int heap_is_live(const void *p, size_t n) { if (!in_arena(p)) return 0; uint64_t o = (uint64_t)(uintptr_t)p - ARENA; for (size_t i = 0; i < n; i++) if (heap_shadow[o + i] != 1) return 0; return 1; }
size_t heap_block_size(const void *p) { blk *b = in_arena(p) ? find_any(p) : NULL; return b && ARENA + b->off == (uintptr_t)p ? b->size : 0; }
const void *heap_block_base(const void *p) { blk *b = in_arena(p) ? find_any(p) : NULL; uintptr_t o = (uintptr_t)p - ARENA; return b && o < (uintptr_t)b->off + b->size ? (const void *)(ARENA + b->off) : NULL; }
void heap_check(const void *p, size_t n, int w, const char *what) { heap_acc(p, n, w, what); }
void heap_ignore(const void *p) { blk *b = in_arena(p) ? find_any(p) : NULL; if (b && b->live && !b->ignored) { b->ignored = 1; live--; live_bytes -= b->size; } }

/* ---------------- memory and string functions, with range checks ---------------- */
static size_t cstr(const char *s, const char *what) { /* checked length */
    size_t n = 0;
    if (!in_arena(s)) return strlen(s);
    for (;; n++) { heap_acc(s + n, 1, 0, what); if (!s[n]) return n; }
}
static size_t cstrn(const char *s, size_t max, const char *what) {
    size_t n = 0;
    if (!in_arena(s)) return strnlen(s, max);
    for (; n < max; n++) { heap_acc(s + n, 1, 0, what); if (!s[n]) return n; }
    return n;
}
#define S1(s) cstr(s, __func__ + 4)
void *sim_memcpy(void *d, const void *s, size_t n) { step(); heap_acc(s, n, 0, "memcpy"); heap_acc(d, n, 1, "memcpy"); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { step(); heap_acc(s, n, 0, "memmove"); heap_acc(d, n, 1, "memmove"); return memmove(d, s, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { sim_memcpy(d, s, n); return (char *)d + n; }
void *sim_memset(void *d, int c, size_t n) { step(); heap_acc(d, n, 1, "memset"); return memset(d, c, n); }
void sim_bzero(void *d, size_t n) { sim_memset(d, 0, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { step(); heap_acc(a, n, 0, "memcmp"); heap_acc(b, n, 0, "memcmp"); return memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { step(); void *r = memchr(a, c, n); heap_acc(a, r ? (size_t)((char *)r - (char *)a) + 1 : n, 0, "memchr"); return r; }
size_t sim_strlen(const char *s) { step(); return S1(s); }
size_t sim_strnlen(const char *s, size_t n) { step(); return cstrn(s, n, "strnlen"); }
char *sim_strcpy(char *d, const char *s) { step(); size_t n = S1(s) + 1; heap_acc(d, n, 1, "strcpy"); return memmove(d, s, n); }
char *sim_stpcpy(char *d, const char *s) { size_t n = S1(s); sim_strcpy(d, s); return d + n; }
char *sim_strncpy(char *d, const char *s, size_t n) { step(); cstrn(s, n, "strncpy"); heap_acc(d, n, 1, "strncpy"); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { step(); size_t l = S1(d), n = S1(s) + 1; heap_acc(d + l, n, 1, "strcat"); memmove(d + l, s, n); return d; }
char *sim_strncat(char *d, const char *s, size_t m) { step(); size_t l = S1(d), n = cstrn(s, m, "strncat"); heap_acc(d + l, n + 1, 1, "strncat"); memmove(d + l, s, n); d[l + n] = 0; return d; }
int sim_strcmp(const char *a, const char *b) { step(); S1(a); S1(b); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { step(); cstrn(a, n, "strncmp"); cstrn(b, n, "strncmp"); return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { step(); S1(a); S1(b); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { step(); cstrn(a, n, "strncasecmp"); cstrn(b, n, "strncasecmp"); return strncasecmp(a, b, n); }
char *sim_strchr(const char *s, int c) { step(); S1(s); return strchr(s, c); }
char *sim_strchrnul(const char *s, int c) { step(); S1(s); return strchrnul(s, c); }
char *sim_strrchr(const char *s, int c) { step(); S1(s); return strrchr(s, c); }
char *sim_index(const char *s, int c) { return sim_strchr(s, c); }
char *sim_rindex(const char *s, int c) { return sim_strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { step(); S1(a); S1(b); return strstr(a, b); }
size_t sim_strspn(const char *a, const char *b) { step(); S1(a); S1(b); return strspn(a, b); }
size_t sim_strcspn(const char *a, const char *b) { step(); S1(a); S1(b); return strcspn(a, b); }
char *sim_strpbrk(const char *a, const char *b) { step(); S1(a); S1(b); return strpbrk(a, b); }
char *sim_strsep(char **s, const char *d) { step(); if (*s) S1(*s); return strsep(s, d); }
char *sim_strtok_r(char *s, const char *d, char **sv) { step(); if (s) S1(s); return strtok_r(s, d, sv); }
char *sim_strtok(char *s, const char *d) { step(); if (s) S1(s); return strtok(s, d); }
char *sim_strdup(const char *s) { step(); size_t n = S1(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { step(); size_t n = cstrn(s, m, "strndup"); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
long sim_strtol(const char *s, char **e, int b) { step(); S1(s); return strtol(s, e, b); }
long sim___isoc23_strtol(const char *s, char **e, int b) { step(); S1(s); return strtol(s, e, b); }
unsigned long sim_strtoul(const char *s, char **e, int b) { step(); S1(s); return strtoul(s, e, b); }
unsigned long sim___isoc23_strtoul(const char *s, char **e, int b) { step(); S1(s); return strtoul(s, e, b); }
long long sim_strtoll(const char *s, char **e, int b) { step(); S1(s); return strtoll(s, e, b); }
long long sim___isoc23_strtoll(const char *s, char **e, int b) { step(); S1(s); return strtoll(s, e, b); }
double sim_strtod(const char *s, char **e) { step(); S1(s); return strtod(s, e); }
int sim_atoi(const char *s) { step(); S1(s); return atoi(s); }
long sim_atol(const char *s) { step(); S1(s); return atol(s); }
double sim_atof(const char *s) { step(); S1(s); return atof(s); }
intmax_t sim___isoc23_strtoimax(const char *s, char **e, int b) { step(); S1(s); return strtoimax(s, e, b); }

/* formatting into memory */
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    step(); S1(f);
    va_list c; va_copy(c, ap); int w = vsnprintf(NULL, 0, f, c); va_end(c);
    if (w < 0) return w;
    size_t k = (size_t)w + 1 < n ? (size_t)w + 1 : n;
    heap_acc(d, k, 1, "snprintf");
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *d, const char *f, va_list ap) {
    step(); S1(f);
    va_list c; va_copy(c, ap); int w = vsnprintf(NULL, 0, f, c); va_end(c);
    if (w >= 0) heap_acc(d, (size_t)w + 1, 1, "sprintf");
    return vsprintf(d, f, ap);
}
int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsprintf(d, f, ap); va_end(ap); return r; }
int sim_vasprintf(char **o, const char *f, va_list ap) {
    step(); S1(f);
    va_list c; va_copy(c, ap); int w = vsnprintf(NULL, 0, f, c); va_end(c);
    if (w < 0) return -1;
    char *p = sim_malloc((size_t)w + 1);
    if (!p) return -1;        /* like glibc: *o keeps its value */
    vsnprintf(p, (size_t)w + 1, f, ap); *o = p; return w;
}
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
