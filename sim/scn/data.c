/* C22 byte buffers, C23 hash tables and sets: seeded histories against small models, with
 * allocation failures at any point. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <ctype.h>
#include <zt.h>
#include <libzt/zt_buf.h>
#include <libzt/zt_table.h>
#include <libzt/zt_set.h>
#include <libzt/zt_log.h>

static void data_abort(void) {
    CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory");
}
/* ============================ C22 =================================== */
#define BUFS 3
#define BCAP 600000
static int big;
static struct { zt_buf_t *b; unsigned char m[BCAP]; size_t n; } X[BUFS];
static uint32_t feed;
static unsigned char src[BCAP];
static size_t fresh(size_t n) { for (size_t i = 0; i < n; i++) src[i] = (unsigned char)((feed += 2654435761u) >> 21); return n; }
static size_t bsize(void) {
    if (big && ch("size-class", 3) == 0) return ch("size", 70000);
    switch (ch("size-class", 5)) { case 0: return ch("size", 40); case 1: return ch("size", 400); case 2: return 1000 + ch("size", 50); case 3: return 1024 + ch("size", 3000); default: return ch("size", 9000); }
}
static void buf_check(int i, const char *after) {
    CHECK(zt_buf_length(X[i].b) == X[i].n, "wrong-length", "buffer %d reports %zu bytes after %s, %zu were added and not removed", i, zt_buf_length(X[i].b), after, X[i].n);
    unsigned char *p = zt_buf_get(X[i].b);
    if (!X[i].n) { CHECK(p == NULL, "wrong-data", "an empty buffer yields a pointer"); return; }
    CHECK(p && heap_is_live(p, X[i].n), "outside", "the bytes of buffer %d lie outside its memory after %s", i, after);
    for (size_t k = 0; k < X[i].n; k++) CHECK(p[k] == X[i].m[k], "wrong-data", "byte %zu of %zu of buffer %d is wrong after %s", k, X[i].n, i, after);
    size_t u = zt_buf_unused_sz(X[i].b);
    CHECK(u < 1u << 30 && heap_is_live(p + X[i].n, u), "unused-space", "buffer %d reports %zu unused bytes after %s, which reach past its memory", i, u, after);
}
static void model_add(int i, const unsigned char *d, size_t n) { memcpy(X[i].m + X[i].n, d, n); X[i].n += n; }
static void model_drop(int i, size_t n) { if (n > X[i].n) n = X[i].n; memmove(X[i].m, X[i].m + n, X[i].n - n); X[i].n -= n; }
static void c22(void) {
    sim_step_limit(30000000, "hang"); sim_abort_cb = data_abort; zt_log_set_debug_info(NULL, 0, NULL);
    size_t h0 = heap_live(); int nb = 1 + (int)ch("buffers", BUFS), steps = (big = sim_large(), 5 + (int)ch("steps", big ? 200 : 60)), oom = ch_p("oom", 1, 3), drains = 0, grown = 0;
    sim_desc("buffers=%d steps=%d out-of-memory=%d ", nb, steps, oom); feed = ch("feed", 1000);
    for (int i = 0; i < nb; i++) { X[i].b = zt_buf_new(); CHECK(X[i].b, "refused", "a buffer could not be created"); X[i].n = 0; }
    if (oom) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 12), -1);
    for (int s = 0; s < steps; s++) {
        int i = (int)ch("buffer", (uint32_t)nb), j, r, f0 = fault_fired(F_ALLOC); size_t n = bsize(), k, u = zt_buf_unused_sz(X[i].b), l0 = X[i].n;
        static const uint32_t w[9] = { 8, 3, 3, 2, 2, 5, 4, 1, 2 };
        switch (ch_w("op", 9, w)) {
        case 0: if (ch_p("exactly-fits", 1, 5)) n = u; if (X[i].n + n > BCAP) break;
            if (n) fresh(n);
            r = zt_buf_add(X[i].b, src, n); ev("add %ld to %ld: %ld", (long)n, i, r);
            CHECK(r == 0 || fault_fired(F_ALLOC) > f0, "refused", "adding %zu bytes was refused although memory was available", n);
            CHECK(r == 0 || n > u, "refused", "adding %zu bytes was refused although %zu were reported unused", n, u);
            if (r == 0) { model_add(i, src, n); if (n > u) { if (drains) { probe("grown-after-drain"); sim_nontrivial(); } grown++; } } else probe("add-out-of-memory");
            buf_check(i, "an addition"); break;
        case 1: { zt_iov_t v[5]; int nv = (int)ch("vectors", 5); size_t t = 0; unsigned char *q = src;
            for (k = 0; k < (size_t)nv; k++) { v[k].iov_len = ch_p("empty-vector", 1, 6) ? 0 : bsize() / 3; if (X[i].n + t + v[k].iov_len > BCAP) v[k].iov_len = 0; t += v[k].iov_len; }
            fresh(t); for (k = 0; k < (size_t)nv; k++) { v[k].iov_data = v[k].iov_len ? q : NULL; q += v[k].iov_len; }
            r = zt_buf_iov_add(X[i].b, v, nv); ev("add vector %ld to %ld: %ld", (long)t, i, r);
            CHECK(r == 0 || (fault_fired(F_ALLOC) > f0 && t > u), "refused", "adding a vector of %zu bytes was refused although memory was available", t);
            if (r == 0) { model_add(i, src, t); if (t > u && drains) probe("grown-after-drain"); } else probe("vector-out-of-memory");
            buf_check(i, "adding a vector"); break; }
        case 2: if (nb < 2) break; j = (i + 1 + (int)ch("other", (uint32_t)nb - 1)) % nb; if (X[i].n + X[j].n > BCAP) break; n = X[j].n;
            r = zt_buf_add_buf(X[i].b, X[j].b); ev("add buffer %ld to %ld: %ld", j, i, r);
            CHECK(r == 0 || (fault_fired(F_ALLOC) > f0 && n > u), "refused", "adding a buffer of %zu bytes was refused although memory was available", n);
            if (r == 0) { model_add(i, X[j].m, n); X[j].n = 0; probe("buffer-moved"); } else probe("move-out-of-memory");
            buf_check(i, "adding a buffer"); buf_check(j, "being added to another"); break;
        case 3: r = zt_buf_reserve(X[i].b, n); ev("reserve %ld in %ld: %ld", (long)n, i, r);
            CHECK(r == 0 || (fault_fired(F_ALLOC) > f0 && n > u), "refused", "reserving %zu bytes was refused although memory was available", n);
            if (r == 0) CHECK(zt_buf_unused_sz(X[i].b) >= n, "unused-space", "%zu bytes are unused after %zu were reserved", zt_buf_unused_sz(X[i].b), n);
            if (r == 0 && n > u && drains) probe("grown-after-drain"); 
            buf_check(i, "a reservation"); break;
        case 4: r = zt_buf_expand(X[i].b, n); ev("expand %ld by %ld: %ld", i, (long)n, r);
            CHECK(r == 0 || fault_fired(F_ALLOC) > f0, "refused", "expanding by %zu bytes was refused although memory was available", n);
            if (r == 0) CHECK(zt_buf_unused_sz(X[i].b) >= n, "unused-space", "%zu bytes are unused after expanding by %zu", zt_buf_unused_sz(X[i].b), n);
            buf_check(i, "expanding"); break;
        case 5: { static unsigned char out[BCAP + 8]; if (ch_p("exactly-all", 1, 5)) n = l0; if (n > BCAP) n = BCAP; memset(out, 0xA5, n + 8);
            k = zt_buf_remove(X[i].b, out, n); ev("remove %ld from %ld: %ld", (long)n, i, (long)k);
            CHECK(k == (n < l0 ? n : l0), "wrong-length", "%zu bytes were removed when %zu were requested of %zu", k, n, l0);
            for (size_t q = 0; q < k; q++) CHECK(out[q] == X[i].m[q], "wrong-data", "removed byte %zu is wrong", q);
            for (size_t q = k; q < n + 8; q++) CHECK(out[q] == 0xA5, "overrun", "removing %zu bytes wrote past them", k);
            model_drop(i, k); drains += k > 0 && k < l0; if (k && k == l0) probe("removed-all"); buf_check(i, "a removal"); break; }
        case 6: if (ch_p("exactly-all", 1, 6)) n = l0; k = zt_buf_drain(X[i].b, n); ev("drain %ld of %ld: %ld", (long)n, i, (long)k); model_drop(i, n);
            if (n) CHECK(k == X[i].n, "wrong-length", "draining %zu of %zu bytes reports %zu left", n, l0, k);
            drains += n > 0 && n < l0; if (n && n < l0) probe("partly-drained"); buf_check(i, "a drain"); break;
        case 7: { static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 1024, SIZE_MAX / 2 + 1 }; n = huge[ch("huge", 4)];
            r = ch("huge-op", 2) ? zt_buf_expand(X[i].b, n) : zt_buf_reserve(X[i].b, n); CHECK(r != 0, "accepted", "%zu more bytes were granted", n); probe("impossible-size"); buf_check(i, "an impossible reservation"); break; }
        case 8: { zt_buf_free(X[i].b); fault_off(); X[i].b = zt_buf_new(); X[i].n = 0; if (oom) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 12), -1); buf_check(i, "being created"); break; }
        }
        if (ch_p("verify-all", 1, 6)) for (int q = 0; q < nb; q++) buf_check(q, "an operation on another buffer");
    }
    fault_off();
    for (int i = 0; i < nb; i++) { buf_check(i, "everything"); zt_buf_free(X[i].b); }
    CHECK(heap_live() == h0, "leak", "%ld blocks stay allocated after every buffer was freed", (long)(heap_live() - h0));
    zt_buf_free(NULL);
}
SCN(C22, c22, "a buffer grew after it had been partly drained", "zt_buf.c, zt_malloc.c", "allocator (with failures), client program (stub)")

/* ============================ C23 =================================== */
enum { T_INT, T_STR, T_CASE, T_BUFF, T_KINDS };
#define MAXKEY 1400
static int nkey = 700;     /* keys in use */
#define NDIST (nkey / 2)
static struct { const void *k; size_t n; char text[40]; } KY[T_KINDS][MAXKEY];
static char datum[4096];
static int hashmode, late_oom;
static void oom_now(void) { if (late_oom) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 4), 1 + (int)ch("oom-max", 6)); }   /* once the containers exist */
static unsigned long squeeze(unsigned long h) {
    switch (hashmode) { case 1: return 7; case 2: return h % 3; case 3: return h << 12; case 4: return h & 0xffff0000ul; case 5: return h * 0x9E3779B97F4A7C15ul; case 6: return (h % 5) << 40 | (h & 1); default: return h; }
}
static unsigned long h_int(const void *k, size_t n, void *c) { CHECK(c == &hashmode, "wrong-argument", "the hash callback got other data"); return squeeze(zt_table_hash_int(k, n, NULL)); }
static unsigned long h_str(const void *k, size_t n, void *c) { CHECK(c == &hashmode, "wrong-argument", "the hash callback got other data"); return squeeze(zt_table_hash_string(k, n, NULL)); }
static unsigned long h_buff(const void *k, size_t n, void *c) { CHECK(c == &hashmode, "wrong-argument", "the hash callback got other data"); return squeeze(zt_table_hash_buff(k, n, NULL)); }
static unsigned long h_case(const void *k, size_t n, void *c) {
    char t[40]; size_t i; (void)n; CHECK(c == &hashmode, "wrong-argument", "the hash callback got other data");
    for (i = 0; ((const char *)k)[i]; i++) t[i] = (char)tolower(((const unsigned char *)k)[i]);
    t[i] = 0; return squeeze(zt_table_hash_string(t, i, NULL));
}
static const zt_table_hash_func_cb HF[] = { h_int, h_str, h_case, h_buff };
static const zt_table_hash_func_cb HRAW[] = { zt_table_hash_int, zt_table_hash_string, NULL, zt_table_hash_buff };
static const zt_table_compare_cb CF[] = { zt_table_compare_int, zt_table_compare_string, zt_table_compare_string_case, zt_table_compare_buff };
static int same_key(int kind, const void *a, size_t an, const void *b, size_t bn) {   /* the model's own equality */
    switch (kind) {
    case T_INT: return an == bn && !memcmp(&a, &b, an < sizeof a ? an : sizeof a);
    case T_CASE: return !strcasecmp(a, b);
    default: return an == bn && !memcmp(a, b, an);
    }
}
typedef struct { const void *k; size_t n; void *d; size_t dn; } ent;
#define NT 3
#define NENT 3000
static struct { zt_table *t; int kind, dup; ent e[NENT]; int n; } T[NT];
static int longkeys;
static void keys_init(void) {
    for (int i = 0; i < nkey; i++) {
        int m = i % NDIST; static const size_t lens[] = { 8, 8, 8, 4, 8, 1 };
        size_t n = lens[m % 6]; if (n == 1 && m > 250) n = 8; uintptr_t v = (uintptr_t)m * 0x0101010101ull; if (n == 4) v = (uintptr_t)m * 77; if (n == 1) v = (uintptr_t)m; if (n == 8 && m % 5 == 3) v = ~v;
        KY[T_INT][i].k = (void *)v; KY[T_INT][i].n = n;
        snprintf(KY[T_STR][i].text, 40, "%s%d", m % 3 ? "k" : "a-somewhat-longer-key-", m); KY[T_STR][i].k = KY[T_STR][i].text; KY[T_STR][i].n = strlen(KY[T_STR][i].text);
        snprintf(KY[T_CASE][i].text, 40, "%s%c%d", i % 2 ? "KeY" : "kEy", 'a' + m % 7, m); KY[T_CASE][i].k = KY[T_CASE][i].text; KY[T_CASE][i].n = strlen(KY[T_CASE][i].text);
        if (longkeys && m < 4) {   /* longer than 65535 bytes; two share their first bytes, and two are as long modulo 65536 as a short key */
            static char lk[2][2][4][66000]; for (int f = 0; f < 2; f++) { char *q = lk[f][i / NDIST & 1][m]; size_t z = m < 2 ? 65536 + (size_t)m : 65539 + (size_t)m % 2 * 300; memset(q, 'k', z); q[z - 1] = (char)('0' + m); if (f) { memcpy(q, "\0\0\0\0x", 5); q[2] = (char)(m == 2 ? 4 : m); } q[z] = 0; KY[f ? T_BUFF : T_STR][i].k = q; KY[f ? T_BUFF : T_STR][i].n = z; }
            continue;
        }
        char *b = KY[T_BUFF][i].text; memset(b, 0, 40); b[0] = (char)(m / 10); b[1] = 0; b[2] = (char)m; b[3] = 0; b[4] = 'x'; KY[T_BUFF][i].k = b; KY[T_BUFF][i].n = 3 + (size_t)m % 4;
    }
}
static int find(int t, const void *k, size_t n, int from) { for (int i = from; i < T[t].n; i++) if (same_key(T[t].kind, T[t].e[i].k, T[t].e[i].n, k, n)) return i; return -1; }
static int it_t, it_stop, it_calls, it_del; static unsigned char it_seen[NENT];
static int iter(void *k, size_t n, void *d, size_t dn, void *param) {
    CHECK(param == it_seen, "wrong-argument", "the iterator got other data");
    int i; for (i = 0; i < T[it_t].n; i++) if (!it_seen[i] && T[it_t].e[i].k == k && T[it_t].e[i].n == n && T[it_t].e[i].d == d && T[it_t].e[i].dn == dn) break;
    CHECK(i < T[it_t].n, "wrong-iteration", "iteration visited an entry that is not present or was visited before");
    it_seen[i] = 1; it_calls++;
    return it_calls == it_stop ? 41 + it_stop : 0;
}
static void table_walk(int t, int stop) {
    it_t = t; it_stop = stop; it_calls = 0; memset(it_seen, 0, sizeof it_seen);
    int r = zt_table_for_each(T[t].t, iter, it_seen);
    if (stop && stop <= T[t].n) CHECK(r == 41 + stop && it_calls == stop, "wrong-iteration", "an iteration stopped at entry %d went on to %d or returned %d", stop, it_calls, r);
    else { CHECK(r == 0, "wrong-iteration", "a complete iteration returned %d", r); CHECK(it_calls == T[t].n, "wrong-iteration", "iteration visited %d of %d entries", it_calls, T[t].n); }
}
/* the visited entry may be deleted by the callback (as consumers of a table do), and its memory reused by another table */
static int it_gone[NENT], it_other, in_iter;
static void insert(int t, const void *k, size_t n);
static int iter_del(void *k, size_t n, void *d, size_t dn, void *param) {
    int r = iter(k, n, d, dn, param), i, c = 0, at = -1; for (i = 0; i < T[it_t].n; i++) if (same_key(T[it_t].kind, T[it_t].e[i].k, T[it_t].e[i].n, k, n)) { c++; at = i; }
    if (c == 1 && !it_gone[at] && ch_p("delete-visited", 2, 3)) { void *g = zt_table_del(T[it_t].t, k, n); CHECK(g == d, "wrong-entry", "deleting the visited entry returned %s", g ? "another datum" : "nothing"); it_gone[at] = 1; it_del++;
        if (it_other >= 0 && ch_p("reuse", 1, 2)) { int q = (int)ch("key", NDIST); insert(it_other, KY[T[it_other].kind][q].k, KY[T[it_other].kind][q].n); } }
    return r;
}
static void table_consume(int t, int other) {
    it_t = t; it_stop = 0; it_calls = 0; it_del = 0; it_other = other; memset(it_seen, 0, sizeof it_seen); memset(it_gone, 0, sizeof it_gone);
    in_iter = 1; int r = zt_table_for_each(T[t].t, iter_del, it_seen); in_iter = 0;
    CHECK(r == 0 && it_calls == T[t].n, "wrong-iteration", "an iteration that deletes what it visits returned %d after %d of %d entries", r, it_calls, T[t].n);
    int w = 0; for (int i = 0; i < T[t].n; i++) if (!it_gone[i]) T[t].e[w++] = T[t].e[i];
    T[t].n = w; if (it_del > 1) probe("deleted-while-iterating");
}
static void table_lookup(int t, const void *k, size_t n) {
    errno = 0; void *d = zt_table_get(T[t].t, k, n); int en = errno, i = find(t, k, n, 0);
    if (i < 0) { CHECK(d == NULL, "found-absent", "looking up an absent key found something"); CHECK(en == ENOENT, "found-absent", "looking up an absent key does not report it absent"); return; }
    int ok = 0; for (; i >= 0; i = find(t, k, n, i + 1)) ok |= T[t].e[i].d == d;
    CHECK(ok, "wrong-entry", "looking up a present key (table of %d entries) returned %s", T[t].n, d ? "another datum" : "nothing");
    CHECK(d || en == 0, "wrong-entry", "looking up a present key reports it absent");
}
static int table_new(int t) {
    int f0 = fault_fired(F_ALLOC), fl = 0, kind = (int)ch("kind", T_KINDS); size_t hint = 0; static char longname[1500]; memset(longname, 'n', 1499);
    T[t].n = 0; T[t].kind = kind;
    if (ch_p("use-hint", 1, 3)) fl |= ZT_TABLE_SIZE_USE_HINT;
    if (ch_p("dup-keys", 1, 4)) fl |= ZT_TABLE_ALLOW_DUP_KEYS;
    switch (ch("hint-class", 4)) { case 0: hint = ch("hint", 5); break; case 1: hint = 6 + ch("hint", 70); break; case 2: hint = 2u << ch("hint-power", 7); break; default: hint = ch_p("hint-huge", 1, 40) ? 32768 + ch("hint", 40000) : 100 + ch("hint", 900); }
    const char *name = ch_p("no-name", 1, 4) ? NULL : ch_p("long-name", 1, 8) ? longname : "table";
    int raw = HRAW[kind] && ch_p("stock-hash", 1, 4);
    T[t].dup = fl & ZT_TABLE_ALLOW_DUP_KEYS;
    T[t].t = zt_table_init((char *)name, raw ? HRAW[kind] : HF[kind], CF[kind], hint, fl, raw ? NULL : &hashmode);
    ev("table kind %ld hint %ld flags %ld", kind, (long)hint, fl);
    if (!T[t].t) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "a table was refused although memory was available"); probe("table-out-of-memory"); return 0; }
    if (fl & ZT_TABLE_SIZE_USE_HINT) probe((hint & (hint - 1)) || hint < 2 ? "hint-not-power-of-two" : "hint-power-of-two");
    if (hint > 30000) probe("large-table");
    return 1;
}
static void key(int kind, const void **k, size_t *n) { int i = (int)ch("key", 20); if (ch_p("any-key", 1, 3)) i = (int)ch("key", NDIST); if (ch("alias", 2)) i += NDIST; *k = KY[kind][i].k; *n = KY[kind][i].n; if (ch_p("long-int-key", 1, 20) && kind == T_INT) { *k = KY[kind][i].k; *n = 12; } }
static void insert(int t, const void *k, size_t n) {
    if (T[t].n >= NENT) return;
    int f0 = fault_fired(F_ALLOC), i, r; void *d = ch_p("null-datum", 1, 12) ? NULL : datum + ch("datum", 4096); size_t dn = ch("datum-len", 20);
    i = find(t, k, n, 0); r = zt_table_set(T[t].t, k, n, d, dn); ev("set: %ld (%ld entries)", r, T[t].n, 0);
    if (i >= 0 && !T[t].dup) { CHECK(r == 1, "replaced", "inserting a key that is present returned %d", r); probe("key-present"); return; }
    if (r) { CHECK(r < 0 && fault_fired(F_ALLOC) > f0, "refused", "inserting an absent key returned %d%s", r, fault_fired(F_ALLOC) > f0 ? "" : " although memory was available"); probe("insert-out-of-memory"); if (!in_iter) table_walk(t, 0); return; }
    T[t].e[T[t].n++] = (ent){ k, n, d, dn }; if (i >= 0) probe("duplicate-key");
}
static void table_ops(int steps) {
    int chained = 0; oom_now();
    static const uint32_t w[9] = { 9, 4, 4, 1, 2, 1, 1, 2, 1 };
    while (steps--) {
        int t = (int)ch("table", NT); const void *k; size_t n; int f0 = fault_fired(F_ALLOC), i, r;
        if (!T[t].t) { table_new(t); continue; }
        key(T[t].kind, &k, &n);
        switch (ch_w("op", 9, w)) {
        case 0: insert(t, k, n); break;
        case 8: { int o = (t + 1 + (int)ch("other", NT - 1)) % NT; table_consume(t, T[o].t ? o : -1); table_walk(t, 0); if (T[o].t) table_walk(o, 0); break; }
        case 1: table_lookup(t, k, n); break;
        case 2: { if (T[t].n && ch("delete-present", 3)) { i = (int)ch("which", (uint32_t)T[t].n); k = T[t].e[i].k; n = T[t].e[i].n; }
            errno = 0; void *d = zt_table_del(T[t].t, k, n); int en = errno; ev("delete (%ld entries)", T[t].n, 0, 0);
            i = find(t, k, n, 0);
            if (i < 0) { CHECK(!d && en == ENOENT, "found-absent", "deleting an absent key found something"); break; }
            for (; i >= 0 && T[t].e[i].d != d; i = find(t, k, n, i + 1)) ;
            CHECK(i >= 0 && (d || en == 0), "wrong-entry", "deleting a present key returned %s", d ? "another datum" : "nothing");
            if (T[t].dup && find(t, k, n, 0) != -1) { /* which of several equal keys went is the table's choice: resynchronise on what is left */
                int cand = 0; for (int q = find(t, k, n, 0); q >= 0; q = find(t, k, n, q + 1)) cand += T[t].e[q].d == d;
                if (cand > 1) { T[t].dup = 2; }
            }
            if (T[t].dup == 2) { /* several candidates with the same datum: identify by iteration */ T[t].dup = ZT_TABLE_ALLOW_DUP_KEYS; T[t].n = 0; zt_table *old = T[t].t; T[t].t = NULL; zt_table_destroy(old); break; }
            memmove(&T[t].e[i], &T[t].e[i + 1], sizeof(ent) * (size_t)(T[t].n - i - 1)); T[t].n--; if (T[t].n > 8) { chained++; sim_nontrivial(); } if (T[t].n < 50 || ch_p("walk", 1, 4)) table_walk(t, 0); break; }
        case 3: table_walk(t, ch_p("stop", 1, 3) ? 1 + (int)ch("stop-at", 10) : 0); break;
        case 4: { int o = (t + 1 + (int)ch("other", NT - 1)) % NT; if (!T[o].t || T[o].kind != T[t].kind || T[o].dup || T[t].dup) break;
            r = zt_table_copy(T[t].t, T[o].t); ev("copy %ld entries: %ld", T[t].n, r, 0);
            int add = 0; static ent miss[NENT]; for (i = 0; i < T[t].n; i++) if (find(o, T[t].e[i].k, T[t].e[i].n, 0) < 0) miss[add++] = T[t].e[i];
            if (T[o].n + add > NENT) sim_error("table model full");
            if (r < 0) { CHECK(fault_fired(F_ALLOC) > f0 && add, "refused", "a copy failed although memory was available"); probe("copy-out-of-memory");
                for (i = 0; i < add; i++) { errno = 0; void *d = zt_table_get(T[o].t, miss[i].k, miss[i].n); if (d || errno == 0) T[o].e[T[o].n++] = miss[i]; }   /* some may have arrived, with their own datum */
            } else { CHECK(r == (T[t].n > 0), "wrong-result", "copying %d entries returned %d", T[t].n, r); for (i = 0; i < add; i++) T[o].e[T[o].n++] = miss[i]; probe("copied"); }
            table_walk(o, 0); table_walk(t, 0); break; }
        case 5: { zt_table *old = T[t].t; T[t].t = NULL; zt_table_destroy(old); break; }
        case 7: { int from = (int)ch("bulk-from", NDIST), cnt = (int)ch("bulk", big ? 700 : 150); for (i = 0; i < cnt; i++) { int q = (from + i) % NDIST; insert(t, KY[T[t].kind][q].k, KY[T[t].kind][q].n); } table_walk(t, 0); break; }
        case 6: for (i = 0; i < nkey; i++) table_lookup(t, KY[T[t].kind][i].k, KY[T[t].kind][i].n); break;
        }
    }
}
/* ---- sets: membership by identity of the stored value, as the interface offers it ---- */
#define NS 4
static struct { zt_set *s; int in[MAXKEY]; int n; } S[NS]; static int skind, destroyed[MAXKEY], in_destroy, destroys_wanted;
#define KM 16384
static int16_t kmap[T_KINDS][KM];   /* key address or value -> lowest index + 1 */
static unsigned kslot(const void *d) { return (unsigned)(((uintptr_t)d * 0x9E3779B97F4A7C15ull) >> 50); }
static int skey_of(const void *d) { for (unsigned s = kslot(d); kmap[skind][s & (KM - 1)]; s++) if (KY[skind][kmap[skind][s & (KM - 1)] - 1].k == d) return kmap[skind][s & (KM - 1)] - 1; return -1; }
static void kmap_init(void) { for (skind = 0; skind < T_KINDS; skind++) for (int i = 0; i < nkey; i++) if (skey_of(KY[skind][i].k) < 0) { unsigned s = kslot(KY[skind][i].k); while (kmap[skind][s & (KM - 1)]) s++; kmap[skind][s & (KM - 1)] = (int16_t)(i + 1); } }
static void set_destroy_cb(void *d) { int i = skey_of(d); CHECK(in_destroy && i >= 0, "wrong-iteration", "the destroy callback was called with something that was never a member"); destroyed[i]++; }
static int set_seen[MAXKEY], set_calls;
static int set_iter(void *d, void *p) { int i = skey_of(d); CHECK(p == set_seen && i >= 0, "wrong-argument", "the set iterator got other data"); set_seen[i]++; set_calls++; return 0; }
static void set_check(int s, const char *after) {
    memset(set_seen, 0, sizeof set_seen); set_calls = 0; zt_set_for_each(S[s].s, set_iter, set_seen);
    for (int i = 0; i < nkey; i++) {
        CHECK(set_seen[i] == S[s].in[i], S[s].in[i] ? "member-lost" : "extra-member", "after %s iteration visits member %d %d times, it is %s the set", after, i, set_seen[i], S[s].in[i] ? "in" : "not in");
    }
    CHECK(zt_set_size(S[s].s) == S[s].n, "wrong-count", "after %s the set counts %ld members, it has %d", after, (long)zt_set_size(S[s].s), S[s].n);
}
static int set_n(int s) { int n = 0; for (int i = 0; i < nkey; i++) n += S[s].in[i]; return n; }
static int skey(void) { return (int)(ch_p("any-key", 1, 3) ? ch("key", NDIST) : ch("key", 20)); }   /* distinct values, so that identity and equality agree */
static void set_ops(int steps) {
    skind = ch("set-kind", 2) ? T_STR : T_INT; int cb = (int)ch("destroy-callback", 2), i, s, f0;
    for (s = 0; s < NS; s++) {
        f0 = fault_fired(F_ALLOC); S[s].s = zt_set_init(CF[skind], cb ? set_destroy_cb : NULL, NULL); memset(S[s].in, 0, sizeof S[s].in); S[s].n = 0;
        CHECK(S[s].s || fault_fired(F_ALLOC) > f0, "refused", "a set was refused although memory was available"); if (!S[s].s) probe("set-out-of-memory");
    }
    oom_now(); static const uint32_t w[9] = { 10, 3, 4, 2, 2, 2, 2, 2, 2 };
    while (steps--) {
        s = (int)ch("set", NS); if (!S[s].s) continue;
        int a = (int)ch("set", NS), b = (int)ch("set", NS), r, want[MAXKEY], k = skey(); f0 = fault_fired(F_ALLOC); uint32_t op = ch_w("op", 9, w); int cnt = 1;
        if (!S[a].s || !S[b].s) continue;
        switch (op) {
        case 8: k = (int)ch("bulk-from", NDIST); cnt = (int)ch("bulk", big ? 700 : 200); /* fall through */
        case 0: for (; cnt--; k = (k + 1) % NDIST) { f0 = fault_fired(F_ALLOC); r = zt_set_insert(S[s].s, KY[skind][k].k, KY[skind][k].n); ev("insert %ld in %ld: %ld", k, s, r);
            if (S[s].in[k]) CHECK(r == 1, "wrong-result", "inserting a member again returned %d", r);
            else if (r) { CHECK(r < 0 && fault_fired(F_ALLOC) > f0, "refused", "inserting a new member returned %d", r); probe("set-insert-out-of-memory"); }
            else { S[s].in[k] = 1; S[s].n++; } }
            set_check(s, "an insertion"); break;
        case 1: { void *d = (void *)KY[skind][k].k; r = zt_set_remove(S[s].s, &d); ev("remove %ld from %ld: %ld", k, s, r); if (S[s].in[k]) { CHECK(r == 0 && d == KY[skind][k].k, "wrong-result", "removing a member returned something else"); S[s].in[k] = 0; S[s].n--; probe("member-removed"); } else { CHECK(r != 0 && !d, "wrong-result", "removing what is not a member returned %d and %s", r, d ? "a member" : "nothing"); probe("non-member-removed"); } set_check(s, "a removal"); break; }
        case 2: CHECK(!!zt_set_is_member(S[s].s, KY[skind][k].k, KY[skind][k].n) == S[s].in[k], "wrong-membership", "membership of %d in a set of %d", k, S[s].n); break;
        case 3: case 4: case 5:
            if (s == a || s == b) break;
            for (i = 0; i < nkey; i++) want[i] = S[s].in[i] || (op == 3 ? S[a].in[i] || S[b].in[i] : op == 4 ? S[a].in[i] && S[b].in[i] : S[a].in[i] && !S[b].in[i]);
            r = op == 3 ? zt_set_union(S[s].s, S[a].s, S[b].s) : op == 4 ? zt_set_intersection(S[s].s, S[a].s, S[b].s) : zt_set_difference(S[s].s, S[a].s, S[b].s);
            ev("algebra %ld: %ld", op, r, 0);
            if (r) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "set algebra returned %d although memory was available", r); probe("algebra-out-of-memory");
                for (i = 0; i < nkey; i++) if (want[i] && !S[s].in[i] && zt_set_is_member(S[s].s, KY[skind][i].k, KY[skind][i].n)) S[s].in[i] = 1;
            } else { int ov = 0; for (i = 0; i < nkey; i++) { ov |= S[a].in[i] && S[b].in[i] && !S[s].in[i]; S[s].in[i] = want[i]; } if (ov) { probe("overlapping-operands"); sim_nontrivial(); } }
            S[s].n = set_n(s); set_check(s, op == 3 ? "a union" : op == 4 ? "an intersection" : "a difference"); set_check(a, "being an operand"); set_check(b, "being an operand"); break;
        case 6: { int sub = 1; for (i = 0; i < nkey; i++) sub &= !S[a].in[i] || S[b].in[i]; CHECK(!!zt_set_is_subset(S[a].s, S[b].s) == sub, "wrong-relation", "subset of sets of %d and %d members", S[a].n, S[b].n); break; }
        case 7: CHECK(!!zt_set_is_equal(S[a].s, S[b].s) == !memcmp(S[a].in, S[b].in, sizeof S[a].in), "wrong-relation", "equality of sets of %d and %d members", S[a].n, S[b].n); break;
        }
    }
    for (s = 0; s < NS; s++) if (S[s].s) {
        memset(destroyed, 0, sizeof destroyed); in_destroy = 1; zt_set_destroy(S[s].s); in_destroy = 0;
        if (cb) for (i = 0; i < nkey; i++) CHECK(destroyed[i] == S[s].in[i], "wrong-destroy", "the destroy callback was called %d times for member %d", destroyed[i], i);
    }
}
static void c23(void) {
    sim_abort_cb = data_abort; zt_log_set_debug_info(NULL, 0, NULL); big = sim_large(); sim_step_limit(big ? 5000000000 : 600000000, "hang"); static const int nks[] = { 60, 240, 700 }; nkey = big ? MAXKEY : nks[ch("key-space", 3)]; longkeys = ch_p("long-keys", 1, 12); keys_init(); kmap_init();
    int rounds = 1 + (int)ch("rounds", 3), oom = ch_p("oom", 1, 3), pre = ch_p("prefilled-pool", 1, 2), what = (int)ch("what", 3); size_t base = 0; int have = 0;
    sim_desc("rounds=%d out-of-memory=%d sets=%d ", rounds, oom, what);
    for (int r = 0; r < rounds + 1; r++) {
        if (r || !pre) {
            late_oom = oom && ch("oom-late", 3); if (oom && !late_oom) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 30), 1 + (int)ch("oom-max", 6));
            hashmode = (int)ch("hash", 7);
            if (what != 1) { for (int t = 0; t < NT; t++) T[t].t = NULL; for (int t = 0; t < NT; t++) table_new(t); table_ops(5 + (int)ch("steps", 120)); for (int t = 0; t < NT; t++) if (T[t].t) { table_walk(t, 0); zt_table_destroy(T[t].t); } }
            if (what) set_ops(5 + (int)ch("steps", 80));
            fault_off();
        }
        zt_table *w = zt_table_init("warm", zt_table_hash_int, zt_table_compare_int, 4, 0, NULL); CHECK(w, "refused", "a table was refused although memory was available"); zt_table_destroy(w);
        if (have) CHECK(heap_live() == base, "leak", "%ld blocks stay allocated after every table and set was destroyed", (long)(heap_live() - base));
        base = heap_live(); have = 1;
    }
}
SCN(C23, c23, "an entry was deleted from a table of more than eight, or set algebra met a common member", "zt_table.c, zt_set.c, zt_hash.c, zt_mem.c, zt_malloc.c", "allocator (with failures), client program (stub)")
