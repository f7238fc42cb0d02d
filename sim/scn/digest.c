/* C40 digests, chained hashes, generators and name-based identifiers: any pieces, any interleaving, continued from copies, against
 * implementations of their own (FIPS 180-4, FNV-1a, Matsumoto/Nishimura's MT19937 written from the papers). */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <sys/mman.h>
#include <stdint.h>
#include <zt.h>
#include <libzt/zt_sha1.h>
#include <libzt/zt_hash.h>
#include <libzt/zt_random.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_log.h>

/* ---- reference implementations ---- */
typedef struct { uint32_t h[5]; uint64_t n; unsigned char tail[64]; } rsha;
static uint32_t lrot(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void rblock(rsha *r, const unsigned char *p) {
    uint32_t w[80], s[5]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)p[4 * t] << 24 | (uint32_t)p[4 * t + 1] << 16 | (uint32_t)p[4 * t + 2] << 8 | p[4 * t + 3]; for (int t = 16; t < 80; t++) w[t] = lrot(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1); memcpy(s, r->h, sizeof s);
    for (int t = 0; t < 80; t++) { uint32_t f, k; if (t < 20) f = (s[1] & s[2]) | (~s[1] & s[3]), k = 0x5a827999; else if (t < 40) f = s[1] ^ s[2] ^ s[3], k = 0x6ed9eba1; else if (t < 60) f = (s[1] & s[2]) | (s[1] & s[3]) | (s[2] & s[3]), k = 0x8f1bbcdc; else f = s[1] ^ s[2] ^ s[3], k = 0xca62c1d6; uint32_t x = lrot(s[0], 5) + f + s[4] + k + w[t]; s[4] = s[3]; s[3] = s[2]; s[2] = lrot(s[1], 30); s[1] = s[0]; s[0] = x; }
    for (int i = 0; i < 5; i++) r->h[i] += s[i];
}
static void rinit(rsha *r) { static const uint32_t H[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 }; memset(r, 0, sizeof *r); memcpy(r->h, H, sizeof H); }
static void radd(rsha *r, const void *v, size_t n) { const unsigned char *p = v; while (n--) { r->tail[r->n++ & 63] = *p++; if (!(r->n & 63)) rblock(r, r->tail); } }
static void rend(const rsha *x, unsigned char d[20]) { rsha r = *x; uint64_t bits = r.n * 8; radd(&r, "\x80", 1); while ((r.n & 63) != 56) radd(&r, "", 1); unsigned char l[8]; for (int i = 0; i < 8; i++) l[i] = (unsigned char)(bits >> (56 - 8 * i)); radd(&r, l, 8); for (int i = 0; i < 20; i++) d[i] = (unsigned char)(r.h[i / 4] >> (24 - 8 * (i % 4))); }
typedef struct { uint32_t x[624]; int at; } rmt;
static void mseed(rmt *m, uint32_t s) { for (uint32_t i = 0; i < 624; i++) { m->x[i] = s; s = 1812433253u * (s ^ s >> 30) + i + 1; } m->at = 0; }
static void marray(rmt *m, const uint32_t *k, size_t n) { mseed(m, 19650218u); uint32_t *x = m->x; size_t i = 1, j = 0; for (size_t q = n > 624 ? n : 624; q--;) { x[i] = (x[i] ^ (x[i - 1] ^ x[i - 1] >> 30) * 1664525u) + k[j] + (uint32_t)j; if (++j == n) j = 0; if (++i == 624) { x[0] = x[623]; i = 1; } } for (int q = 623; q--;) { x[i] = (x[i] ^ (x[i - 1] ^ x[i - 1] >> 30) * 1566083941u) - (uint32_t)i; if (++i == 624) { x[0] = x[623]; i = 1; } } x[0] = 1u << 31; m->at = 0; }
static uint32_t mnext(rmt *m) { uint32_t *x = m->x; int k = m->at, k1 = (k + 1) % 624; uint32_t y = (x[k] & 0x80000000u) | (x[k1] & 0x7fffffffu); x[k] = x[(k + 397) % 624] ^ y >> 1 ^ ((y & 1) ? 0x9908b0dfu : 0); y = x[k]; m->at = k1; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; return y ^ y >> 18; }

/* ---- objects ---- */
enum { SHA, H32, H64, RND };
typedef struct { int kind, fresh; zt_sha1_ctx *s; zt_random_state *r; uint32_t h32, m32; uint64_t h64, m64; rsha ms; rmt mr; } obj;
static int lgo, nshared; static unsigned char *pool_; static size_t pooln;      /* data that several threads feed */
static void hexof(const unsigned char *d, char *t) { for (int i = 0; i < 20; i++) sprintf(t + 2 * i, "%02x", d[i]); }
static unsigned char *piece(size_t *n, int *own) {
    *own = 0; if (nshared && ch("shared", 3) == 1) { size_t at = ch("from", (uint32_t)pooln); *n = ch("piece", (uint32_t)(pooln - at) + 1); return pool_ + at; }
    static const uint32_t B[] = { 0, 1, 8, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 192 }; uint32_t how = ch("size", 4); *n = how == 0 ? B[ch("border", 16)] : how == 1 ? ch("short", 20) : how == 2 ? ch("medium", 200) : ch("long", lgo ? 300000 : 1500);
    unsigned char *p = sim_alloc_nf(*n ? *n : 1); *own = 1; uint32_t f = ch("fill", 5), x = ch("start", 1 << 20); for (size_t i = 0; i < *n; i++) p[i] = f == 0 ? (unsigned char)('a' + i % 26) : f == 1 ? 0 : f == 2 ? 0xff : (unsigned char)((x = x * 1103515245u + 12345u) >> 16); return p;
}
static void digest_is(const unsigned char *got, const unsigned char *want, uint64_t n, const char *what) { if (!memcmp(got, want, 20)) return; char a[41], b[41]; hexof(got, a); hexof(want, b); sim_fail("wrong-digest", "%s of %llu bytes is %s, not %s", what, (unsigned long long)n, a, b); }
static void text(const unsigned char *d) { /* the digest's text and back */
    char want[41], *t = sim_alloc_nf(41); unsigned char *in = sim_alloc_nf(20), *out = sim_alloc_nf(20); memcpy(in, d, 20); hexof(d, want); memset(t, 'x', 41); CHECK(zt_sha1_tostr(in, t) == t && !t[40], "wrong-text", "the text of a digest does not end"); for (int i = 0; i < 40; i++) CHECK(tolower((unsigned char)t[i]) == want[i], "wrong-text", "the text of digest %s is %.40s", want, t); if (ch("case", 2)) for (int i = 0; i < 40; i++) t[i] = (char)toupper((unsigned char)t[i]);
    memset(out, 0x55, 20); CHECK(zt_str_tosha1(t, out) == out && !memcmp(out, d, 20), "wrong-text", "the digest of text %s is another one", want); CHECK(!memcmp(in, d, 20), "input-changed", "writing a digest's text changed it"); sim_free(t); sim_free(in); sim_free(out);
}
static void start(obj *o, int kind, int again);
static void begin(obj *o, int kind) {
    start(o, kind, 0);
}
/* begins an object, or (again) begins one that is in use from the start, where it is */
static void start(obj *o, int kind, int again) {
    struct zt_sha1_ctx *s = o->s; zt_random_state *r = o->r; memset(o, 0, sizeof *o); o->kind = kind; o->fresh = 1; o->s = again ? s : NULL; o->r = again ? r : NULL; if (again) probe("begun-again");
    if (kind == SHA) { if (!again) o->s = sim_alloc_nf(sizeof *o->s), memset(o->s, (int)ch("garbage", 256), sizeof *o->s); zt_sha1_init(o->s); rinit(&o->ms); }
    if (kind == RND) { uint32_t how = ch("seed", again ? 2 : 3); if (!again) o->r = sim_alloc_nf(sizeof *o->r), memset(o->r, how == 2 ? 0 : (int)ch("garbage", 256), sizeof *o->r);
        if (how == 0) { uint32_t s = ch("value", 4) ? ch("seed-value", 1u << 31) * 2 + 1 : ch("small", 4); zt_random_srandom(o->r, s); mseed(&o->mr, s); }
        else if (how == 1) { size_t n = 1 + ch("seeds", ch_p("many-seeds", 1, 4) ? 1400 : 6); if (ch_p("period", 1, 8)) n = 623 + ch("near", 3); uint32_t *k = sim_alloc_nf(4 * n), *c = malloc(4 * n), x = ch("seed-start", 1 << 30); for (size_t i = 0; i < n; i++) k[i] = x = x * 1664525u + 1013904223u; memcpy(c, k, 4 * n); zt_random_initstate(o->r, k, n); CHECK(!memcmp(k, c, 4 * n), "input-changed", "seeding changed the seeds"); marray(&o->mr, k, n); free(c); sim_free(k); probe("seeded-by-array"); } else o->fresh = 2; }
}
static void end(obj *o) { if (o->s) sim_free(o->s); if (o->r) sim_free(o->r); o->s = NULL; o->r = NULL; }
static void copy(obj *a, const obj *b) { end(a); *a = *b; if (b->s) { a->s = sim_alloc_nf(sizeof *a->s); memcpy(a->s, b->s, sizeof *a->s); } if (b->r) { a->r = sim_alloc_nf(sizeof *a->r); memcpy(a->r, b->r, sizeof *a->r); } probe("continued-from-copy"); }
static void done(obj *o) { if (o->kind != SHA) return; unsigned char *d = sim_alloc_nf(20), want[20]; rend(&o->ms, want); zt_sha1_finalize(o->s, d); digest_is(d, want, o->ms.n, "the digest"); if (ch("as-text", 3) == 1) text(d); sim_free(d); sim_sig(o->ms.n); zt_sha1_init(o->s); rinit(&o->ms); }
static void draw(obj *o) {
    uint32_t n = 1 + ch("numbers", ch_p("many-numbers", 1, 3) ? 700 : 5);
    if (o->fresh == 2) { /* a state that was not seeded takes the time, and says so */
        uint32_t t0 = (uint32_t)(sim_wall_ns() / 1000000000), v = zt_random_uint32(o->r), t1 = (uint32_t)(sim_wall_ns() / 1000000000); int ok = 0; for (uint32_t t = t0; !ok; t++) { mseed(&o->mr, t); ok = mnext(&o->mr) == v; if (t == t1) break; } CHECK(ok, "wrong-number", "a generator that was not seeded begins with %u at %u s", v, t0); o->fresh = 0; probe("seeded-by-time"); size_t e; const char *x = stderr_text(&e); CHECK(memmem(x, e, "without initialization", 22), "not-reported", "the use of a generator without a seed is not reported"); n--; }
    o->fresh = 0; if (n > 624) probe("generator-reloaded");
    while (n--) { uint32_t want = mnext(&o->mr); switch (n < 3 ? ch("form", 4) : 0) { case 0: { uint32_t v = zt_random_uint32(o->r); CHECK(v == want, "wrong-number", "the generator yields %u, not %u", v, want); break; }
        case 1: { double v = zt_random_float(o->r); CHECK(v >= 0 && v <= 1 && v == want * (1.0 / 4294967295.0), "wrong-number", "the number in [0,1] for %u is %.12g", want, v); break; } case 2: { double v = zt_random_float00(o->r); CHECK(v > 0 && v < 1, "wrong-number", "the number in (0,1) for %u is %.12g", want, v); break; } default: { double v = zt_random_float10(o->r); CHECK(v >= 0 && v < 1 && v == want * (1.0 / 4294967296.0), "wrong-number", "the number in [0,1) for %u is %.12g", want, v); } } }
}
static void feed(obj *o) {
    size_t n; int own; unsigned char *p = piece(&n, &own), *c = malloc(n + 1); memcpy(c, p, n); c[n] = 0; int str = 0;
    if (o->kind == SHA) { zt_sha1_update(o->s, p, n); radd(&o->ms, c, n); }
    else { if (own && !memchr(c, 0, n) && ch("string", 2)) { sim_free(p); p = sim_alloc_nf(n + 1); memcpy(p, c, n + 1); str = 1; }
        if (o->kind == H32) { o->h32 = str ? zt_hash32_cstr(p, o->h32) : zt_hash32_buff(p, n, o->h32); if (o->fresh) o->m32 = 0x811c9dc5; for (size_t i = 0; i < n; i++) o->m32 = (o->m32 ^ c[i]) * 16777619u; CHECK(o->h32 == o->m32, "wrong-hash", "the 32-bit hash is %08x, not %08x", o->h32, o->m32); }
        else { o->h64 = str ? zt_hash64_cstr(p, o->h64) : zt_hash64_buff(p, n, o->h64); if (o->fresh) o->m64 = 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) o->m64 = (o->m64 ^ c[i]) * 1099511628211ull; CHECK(o->h64 == o->m64, "wrong-hash", "the 64-bit hash is %016llx, not %016llx", (unsigned long long)o->h64, (unsigned long long)o->m64); }
        if (o->kind == H32) { /* folded to fewer bits */ uint32_t h = o->m32, v; v = h; ZT_HASH24_MASK(v); CHECK(v == (h >> 24 ^ (h & 0xffffff)), "wrong-hash", "24 bits of %08x are %x", h, v); v = h; ZT_HASH16_MASK(v); CHECK(v == (h >> 16 ^ (h & 0xffff)), "wrong-hash", "16 bits of %08x are %x", h, v); v = h; ZT_HASH8_MASK(v); CHECK(v == ((h >> 8 ^ h) & 255), "wrong-hash", "8 bits of %08x are %x", h, v); v = h; ZT_HASH4_MASK(v); CHECK(v == ((h >> 4 ^ h) & 15), "wrong-hash", "4 bits of %08x are %x", h, v);
            uint32_t k = 1 + ch("bits", 32); v = h; ZT_HASH_SUB32_MASK(v, k); CHECK(v == (k == 32 ? h : k < 16 ? ((h >> k ^ h) & ((1u << k) - 1)) : (h >> k ^ (h & ((1u << k) - 1)))), "wrong-hash", "%u bits of %08x are %x", k, h, v); } }
    o->fresh = 0; CHECK(!memcmp(p, c, n), "input-changed", "the %zu bytes fed were changed", n); free(c); if (own) sim_free(p);
}
static void whole(void) { size_t n; int own; unsigned char *p = piece(&n, &own), *d = sim_alloc_nf(20), want[20]; rsha r; rinit(&r); radd(&r, p, n); rend(&r, want); zt_sha1_data(p, n, d); digest_is(d, want, n, "the digest in one call"); sim_free(d); if (own) sim_free(p); }
static void name(void) {
    static const unsigned char NS[4][3] = { { 0x10, 0x9d, 0xad }, { 0x11, 0x9d, 0xad }, { 0x12, 0x9d, 0xad }, { 0x14, 0x9d, 0xad } }; static const zt_uuid_ns K[] = { UUID_NS_DNS, UUID_NS_URL, UUID_NS_OID, UUID_NS_X500 }; unsigned char ns[16] = { 0x6b, 0xa7, 0xb8, 0, 0, 0, 0x11, 0xd1, 0x80, 0xb4, 0, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 };
    size_t n; int own, q = (int)ch("namespace", 4); unsigned char *p = piece(&n, &own), want[20]; memcpy(ns + 3, NS[q], 3); rsha r; rinit(&r); radd(&r, ns, 16); radd(&r, p, n); rend(&r, want); want[6] = (want[6] & 15) | 0x50; want[8] = (want[8] & 63) | 0x80;
    zt_uuid_t *u = sim_alloc_nf(sizeof *u); CHECK(zt_uuid5((char *)p, n, K[q], u) == 0, "refused", "a name-based identifier is refused"); CHECK(!memcmp(u->data.bytes, want, 16), "wrong-identifier", "the identifier of a name of %zu bytes in namespace %d begins %02x%02x%02x%02x, not %02x%02x%02x%02x", n, q, u->data.bytes[0], u->data.bytes[1], u->data.bytes[2], u->data.bytes[3], want[0], want[1], want[2], want[3]); sim_free(u); if (own) sim_free(p); probe("identifier-of-name");
}
static void *user(void *v) {
    (void)v; int no = 1 + (int)ch("objects", 5), n = 1 + (int)ch("operations", lgo ? 120 : 24); obj *O = calloc(5, sizeof *O); for (int i = 0; i < no; i++) begin(&O[i], (int)ch("kind", 4));
    while (n--) { obj *o = &O[ch("object", (uint32_t)no)]; switch (ch("operation", 9)) { default: if (o->kind == RND) draw(o); else feed(o); break; case 5: done(o); break; case 6: { obj *b = &O[ch("source", (uint32_t)no)]; if (b != o) copy(o, b); break; } case 7: if (ch("in-place", 2)) { start(o, o->kind, 1); break; } end(o); begin(o, (int)ch("kind", 4)); break; case 8: if (ch("which", 2)) whole(); else name(); break; } }
    for (int i = 0; i < no; i++) { done(&O[i]); end(&O[i]); } free(O); return NULL;
}
/* more than 2^32 bits: the zeros are not in memory and the reference goes on from the state after them */
static unsigned char *zeros(size_t n) { unsigned char *z = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) sim_error("no %zu bytes of zeros", n); return z; }
static void huge(void), megabytes(void);
static void c40(void) {
    sim_step_limit(100000000, "hang"); zt_log_set_debug_info(NULL, 0, NULL); zt_log_printf(zt_log_err, "start\n"); lgo = sim_large(); int nt = 1 + (int)ch("threads", 4), id[4]; nshared = nt > 1 || ch("pool", 2); size_t live = heap_live();
    pooln = 1 + ch("pool-size", lgo ? 5000 : 400); pool_ = sim_alloc_nf(pooln); for (size_t i = 0; i < pooln; i++) pool_[i] = (unsigned char)(i * 167 + (i >> 8)); sim_desc("threads=%d%s ", nt, lgo ? " large" : ""); sim_nontrivial();
    if (lgo && ch_p("huge", 1, 200)) huge(); else if (lgo && ch_p("megabytes", 1, 12)) megabytes(); else if (nt == 1) user(NULL); else { for (int w = 0; w < nt; w++) id[w] = fiber_spawn(user, NULL, "user"); for (int w = 0; w < nt; w++) fiber_join(id[w]); probe("several-threads"); }
    for (size_t i = 0; i < pooln; i++) CHECK(pool_[i] == (unsigned char)(i * 167 + (i >> 8)), "input-changed", "shared data was changed"); sim_free(pool_); CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
}
static void huge(void) {
    sim_step_limit(1000000000000, "hang");
    uint32_t M = 512u + ch("more", 2); int one = (int)ch("one-piece", 2); size_t len = (size_t)M << 20, rest = 0; if (one && ch_p("four-gigabytes", 1, 2)) { len = ((size_t)1 << 32) + ch("about", 140) - 70; probe("four-gigabytes"); } unsigned char *z, *d = sim_alloc_nf(20), want[20]; zt_sha1_ctx *s = sim_alloc_nf(sizeof *s); zt_sha1_init(s); rsha r; rinit(&r); uint32_t before = ch("before", 70); unsigned char pre[70] = { 0 };
    zt_sha1_update(s, pre, before); radd(&r, pre, before);
    if (one) { z = zeros(len); zt_sha1_update(s, z, len); munmap(z, len); probe("half-gigabyte-at-once"); } else { z = sim_alloc_nf(1 << 20); memset(z, 0, 1 << 20); for (uint32_t i = 0; i < M; i++) zt_sha1_update(s, z, 1 << 20); sim_free(z); }
    static unsigned char mb[1 << 20]; for (rest = one ? len : (size_t)M << 20; rest; ) { size_t n = rest < sizeof mb ? rest : sizeof mb; radd(&r, mb, n); rest -= n; }
    zt_sha1_update(s, (uint8_t *)"end", 3); radd(&r, "end", 3); rend(&r, want); zt_sha1_finalize(s, d); digest_is(d, want, r.n, "the digest"); sim_free(d); sim_free(s); probe("half-gigabyte");
}
static void megabytes(void) { /* the length in bits needs a fourth byte from two megabytes on */
    size_t len = ((size_t)1 << 21) + ch("more", 3000000) - 1000; unsigned char *z = zeros(len), *d = sim_alloc_nf(20), want[20]; rsha r; rinit(&r); radd(&r, z, len); rend(&r, want); zt_sha1_data(z, len, d); digest_is(d, want, len, "the digest in one call"); munmap(z, len); sim_free(d); probe("megabytes");
}
SCN(C40, c40, "a digest, hash, generator or identifier was compared", "zt_sha1.c, zt_hash.c, zt_random.c, zt_uuid.c (zt_uuid5), zt_cstr.c, zt_log.c", "clock, threads, heap, standard error on a simulated file")
