/* C13 paged pools and pool groups, C14 hierarchical pools, C15 checked allocation: seeded
 * histories against small models, with allocation faults at every point. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <zt.h>
#include <libzt/zt_mem.h>
#include <libzt/zt_ez_mempool.h>
#include <libzt/zt_atexit.h>

/* ============================ C13 =================================== */
#define NP 24
#define GN 16
#define NE 2500
static int big, ne_max = 700;
typedef struct { zt_mem_pool *p; int live, grouped, custom, flags, cb; char name[340]; int unnamed; size_t size, elts; size_t n_alloc, n_rel; size_t pages0; size_t extra; } mpool;
static mpool P[NP]; static int np;
typedef struct { unsigned char *p; size_t n; int pool; uint8_t seed; } melt;
static melt E[NE]; static int ne;
static struct { zt_mem_pool_group *g; int pool[GN + 1]; int n, live; } G[3]; static int ng;
static size_t c13_base; static int abort_ok; static int in_rel = -1; static int rel_answer, rel_calls;

static void fill(melt *e) { for (size_t i = 0; i < e->n; i++) e->p[i] = (uint8_t)(e->seed * 31 + i * 7 + 3); }
static void verify(melt *e) {
    CHECK(heap_is_live(e->p, e->n), "live-element-released", "a live element (pool %s, %zu bytes) lies in memory the pool gave back", P[e->pool].name, e->n);
    for (size_t i = 0; i < e->n; i++) CHECK(e->p[i] == (uint8_t)(e->seed * 31 + i * 7 + 3), "contents-lost", "byte %zu of a live element of pool %s (%zu bytes) changed", i, P[e->pool].name, e->n);
}
static int pool_live(int i) { int n = 0; for (int k = 0; k < ne; k++) n += E[k].pool == i; return n; }
static int rel_test(size_t a, size_t b, size_t c, int flags, void *data) {
    (void)a; (void)b; (void)c; rel_calls++;
    int i = in_rel; CHECK(i >= 0, "unexpected-callback", "release test called outside a release");
    CHECK(data == &P[i] && flags == P[i].flags, "wrong-argument", "release test of pool %s called with other data or flags", P[i].name);
    return rel_answer = (int)ch("release-page", 2);
}
static void stats_of(int i, zt_mem_pool_stats *s) { memset(s, 0x77, sizeof *s); CHECK(zt_mem_pool_get_stats(P[i].p, s) == ZT_PASS, "stats", "statistics of a live pool refused"); }
static void pool_check(int i) {
    zt_mem_pool_stats s; stats_of(i, &s);
    const void *seen[NE]; size_t nb = 0, l = 0;
    for (int k = 0; k < ne; k++) if (E[k].pool == i) { l++; const void *b = heap_block_base(E[k].p); size_t j = 0; for (; j < nb && seen[j] != b; j++) ; if (j == nb) seen[nb++] = b; }
    CHECK(s.elt_size == P[i].size && s.requested_elts == P[i].elts && s.flags == P[i].flags, "stats", "pool %s: reported element size, cache or flags differ from those it was created with", P[i].name);
    CHECK(s.pages == s.page_allocs - s.page_frees, "page-count", "pool %s reports %zu pages but %zu page allocations and %zu page releases", P[i].name, s.pages, s.page_allocs, s.page_frees);
    CHECK(s.free_pages == s.pages - nb, "free-page-count", "pool %s reports %zu free pages of %zu, but its live elements lie on %zu pages", P[i].name, s.free_pages, s.pages, nb);
    CHECK(s.actual_elts == s.cached_pages * s.elts_per_page && s.page_size >= s.elts_per_page * s.elt_size && s.actual_elts >= s.requested_elts, "stats", "pool %s reports a cache of %zu elements on %zu pages of %zu elements, requested were %zu", P[i].name, s.actual_elts, s.cached_pages, s.elts_per_page, s.requested_elts);
    CHECK(l <= s.pages * s.elts_per_page && s.elts_per_page > 0, "overcommitted", "pool %s: %zu live elements on %zu pages of %zu", P[i].name, l, s.pages, s.elts_per_page);
}
static long num_after(const char *t, const char *what) { const char *q = strstr(t, what); return q ? atol(q + strlen(what)) : -1; }
static size_t ov_pool[2], ov_group;      /* blocks of a pool (named or not) and of a group besides the pages: as many as the library uses for the first ones of the run */
static size_t pages_total(void) { size_t n = 0; for (int i = 0; i < np; i++) if (P[i].live) { zt_mem_pool_stats s; stats_of(i, &s); n += s.pages + ov_pool[P[i].unnamed]; } for (int i = 0; i < ng; i++) if (G[i].live) n += ov_group; return n; }
static void mem_check(const char *when) {
    CHECK(heap_live() == c13_base + pages_total(), "memory-accounting", "after %s the pools report %zu blocks (pools, names, pages) but %zu are allocated", when, pages_total(), heap_live() - c13_base);
}
static void c13_abort(void) {
    if (abort_ok) { probe("group-creation-aborted"); return; }
    sim_fail("aborted", "the process was aborted");
}
static size_t pool_size(void) {
    switch (ch("size-class", 7)) {
    case 0: return 8 * (1 + ch("size8", 16));
    case 1: return 8 * (1 + ch("size8", 100));
    case 2: return 1984 + 8 * ch("size-half", 14);    /* around half a usable page */
    case 3: return 2000 + 8 * ch("size-large", 600);
    case 4: return 1 + ch("size-odd", 200);
    case 6: if (ch_p("huge-element", 1, 4)) { probe("huge-element"); return 8 * (2000 + ch("size-huge", 10000)); } return 8 * (1 + ch("size8", 16));
    default: return 8 * (120 + ch("size-mid", 130));
    }
}
static int new_slot(void) { for (int i = 0; i < np; i++) if (!P[i].live) { memset(&P[i], 0, sizeof P[i]); return i; } return np < NP ? np++ : -1; }
static void slot_setup(int i, size_t size, int serial) {
    P[i].size = size; P[i].elts = ch_p("elts-big", 1, 4) ? ch("elts", 300) : ch("elts", 12);
    P[i].cb = (int)ch("release-test", 3); P[i].flags = P[i].cb == 1 ? POOL_NEVER_FREE : 0;
    if (size > 1500 && P[i].elts > 40) P[i].elts = ch_p("big-page", 1, 10) ? 200 + ch("elts", big ? 1000 : 200) : 40;
    if (size > 9000) P[i].elts = ch("elts-huge", 6);
    else if (big && size < 200 && ch_p("elts-many", 1, 6)) { P[i].elts = 5000 + ch("elts-more", 62000); probe("large-cache"); }
    int other = -1; for (int k = 0; k < np; k++) if (k != i && P[k].live && !P[k].unnamed) other = k;
    switch (ch("name", 8)) {
    default: snprintf(P[i].name, sizeof P[i].name, "pool%d%s", serial, serial % 3 ? "" : "x"); break;
    case 4: { size_t l = 30 + ch("name-length", 270); char end[16]; snprintf(end, sizeof end, "-%d", serial); memset(P[i].name, 'n', l); strcpy(P[i].name + l, end); probe("long-name"); } break;
    case 5: if (other >= 0) { memcpy(P[i].name, P[other].name, sizeof P[i].name); probe("shared-name"); } else strcpy(P[i].name, "a b\"c"); break;
    case 6: if (other >= 0) { memcpy(P[i].name, P[other].name, sizeof P[i].name); size_t l = strlen(P[i].name); if (l && l < 330) { if (ch("name-near", 2)) P[i].name[l - 1] ^= 0x20; else strcpy(P[i].name + l, "+"); } } else strcpy(P[i].name, "%s%n"); break;
    case 7: if (serial % 4) snprintf(P[i].name, sizeof P[i].name, "%d", serial); break;   /* sometimes the empty name */
    }
}
static int serial;
static int named_like(int i) { int n = 0; for (int k = 0; k < np; k++) n += P[k].live && P[k].p && !strcmp(P[k].name, P[i].name); return n; }
/* a live pool is found by its name; where several share it, one of them is */
static void findable(int i) {
    zt_mem_pool *q = zt_mem_pool_get(P[i].name); int ok = 0;
    for (int k = 0; k < np; k++) if (P[k].live && P[k].p == q && !strcmp(P[k].name, P[i].name)) ok = 1;
    CHECK(q && ok, "pool-missing", "live pool %s is not found by its name", P[i].name);
}
static void op_create(void) {
    int i = new_slot(); if (i < 0) return;
    slot_setup(i, pool_size(), serial++); P[i].unnamed = ch_p("unnamed", 1, 12); if (P[i].unnamed) { strcpy(P[i].name, "*unknown*"); probe("unnamed-pool"); }
    char nm[340]; memcpy(nm, P[i].name, sizeof nm);
    int f0 = fault_fired(F_ALLOC);
    P[i].p = zt_mem_pool_init(P[i].unnamed ? NULL : nm, (ssize_t)P[i].elts, P[i].size, P[i].cb == 2 ? rel_test : NULL, P[i].cb == 2 ? &P[i] : NULL, P[i].flags);
    memset(nm, 'Z', sizeof nm - 1); nm[sizeof nm - 1] = 0;   /* the pool keeps its own copy */
    ev("create pool %ld size %ld elts %ld", i, (long)P[i].size, (long)P[i].elts);
    if (!P[i].p) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "a pool of elements of %zu bytes was refused although memory was available", P[i].size); probe("pool-creation-out-of-memory"); mem_check("a failed pool creation"); return; }
    P[i].live = 1; mem_check("creating a pool"); pool_check(i);
}
static void op_group(void) {
    if (ng >= 3) return;
    int n = 1 + (int)ch("group-size", ch_p("wide-group", 1, 5) ? GN : 4), ids[GN + 1]; zt_mem_pool_desc d[GN + 2]; memset(d, 0, sizeof d); size_t sz = 8 * (1 + ch("group-first", 10));
    int free_slots = 0; for (int i = 0; i < NP; i++) free_slots += i >= np || !P[i].live;
    if (free_slots < n) return;
    int null_end = ch_p("null-terminated", 1, 3);
    for (int k = 0; k < n; k++) {
        ids[k] = new_slot(); slot_setup(ids[k], sz, serial++); P[ids[k]].live = 1; for (int j = 0; j < np; j++) if (j != ids[k] && P[j].live && !strcmp(P[j].name, P[ids[k]].name)) { snprintf(P[ids[k]].name, sizeof P[ids[k]].name, "only%d", serial); break; }
        d[k] = (zt_mem_pool_desc){ P[ids[k]].name, P[ids[k]].elts, P[ids[k]].size, P[ids[k]].cb == 2 ? rel_test : NULL, P[ids[k]].cb == 2 ? &P[ids[k]] : NULL, P[ids[k]].flags };
        sz = sz + 8 * (1 + ch("group-step", ch_p("group-far", 1, 20) ? 6000 : 80));
    }
    for (int k = 0; k < n; k++) P[ids[k]].live = 0;
    int f0 = fault_fired(F_ALLOC);
    abort_ok = 1; zt_mem_pool_group *g = zt_mem_pool_group_init(d, (size_t)(n + null_end)); abort_ok = 0;
    ev("create group of %ld", n, 0, 0); probe("group");
    if (!g) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "a pool group was refused although memory was available"); probe("group-creation-out-of-memory"); mem_check("a failed group creation"); return; }
    G[ng].g = g; G[ng].n = n; G[ng].live = 1;
    for (int k = 0; k < n; k++) {
        G[ng].pool[k] = ids[k]; P[ids[k]].live = 1; P[ids[k]].grouped = ng + 1; P[ids[k]].p = zt_mem_pool_get(P[ids[k]].name);
        CHECK(P[ids[k]].p, "pool-missing", "pool %s of a new group cannot be found by name", P[ids[k]].name);
        zt_mem_pool_stats s; stats_of(ids[k], &s); CHECK(s.elt_size == P[ids[k]].size, "stats", "pool %s of the group has another element size", P[ids[k]].name);
    }
    ng++; mem_check("creating a group");
}
static void add_elt(int i, void *v, size_t n) {
    CHECK(heap_is_live(v, n), "element-too-small", "an element of pool %s (%zu bytes requested) reaches past its memory", P[i].name, n);
    for (int k = 0; k < ne; k++) CHECK((unsigned char *)v + n <= E[k].p || E[k].p + E[k].n <= (unsigned char *)v, "overlap", "a new element of pool %s overlaps a live element of pool %s", P[i].name, P[E[k].pool].name);
    E[ne] = (melt){ v, n, i, (uint8_t)ch("pattern", 250) }; fill(&E[ne]); ne++; P[i].n_alloc++;
}
static void shown(int i, const char *t) {
    if (named_like(i) > 1) return; char h[360]; snprintf(h, sizeof h, "pool: \"%s\" ", P[i].name); const char *q = strstr(t, h); CHECK(q, "display", "the display does not mention pool %s", P[i].name); zt_mem_pool_stats s; stats_of(i, &s);
    CHECK(num_after(q, "total pages: ") == (long)s.pages && num_after(q, "free pages: ") == (long)s.free_pages && num_after(q, "page allocs: ") == (long)s.page_allocs && num_after(q, "page frees: ") == (long)s.page_frees && num_after(q, "total elts: ") == (long)(s.pages * s.elts_per_page) && num_after(q, "pages in use: ") == (long)(s.pages - s.free_pages), "display", "the display of pool %s disagrees with its statistics", P[i].name);
    CHECK(num_after(q, "free elts: ") == (long)(s.pages * s.elts_per_page) - pool_live(i), "display", "the display of pool %s shows %ld free elements of %zu, %d are in use", P[i].name, num_after(q, "free elts: "), s.pages * s.elts_per_page, pool_live(i)); probe("displayed");
}
static int pick_pool(void);
static void op_display(void) {
    int i = pick_pool(); if (i < 0) return; size_t n0; stdout_text(&n0); int how = (int)ch("display", 3), fl = (int)ch("display-what", 4), g = -1; if (how == 2) { for (int k = 0; k < ng; k++) if (G[k].live) g = k; if (g < 0) how = 1; }
    if (how == 0) zt_mem_pool_display((int)ch("indent", 5), P[i].p, fl); else if (how == 1) zt_mem_pools_display(0, fl); else zt_mem_pool_group_display(1, G[g].g, fl);
    const char *t = stdout_text(NULL) + n0; if (how == 0) shown(i, t); else if (how == 1) { for (int k = 0; k < np; k++) if (P[k].live) shown(k, t); } else for (int k = 0; k < G[g].n; k++) shown(G[g].pool[k], t); mem_check("a display");
}
static void op_heap(void) {
    char nm[] = "heap-x"; size_t sz = 1 + ch("heap-size", ch_p("large-heap", 1, 6) ? 200000 : 300); int f0 = fault_fired(F_ALLOC), named = (int)ch("named", 2); size_t h = heap_live(); zt_mem_heap *hp = zt_mem_heap_init(named ? nm : NULL, sz);
    if (!hp) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "a heap of %zu bytes was refused although memory was available", sz); CHECK(heap_live() == h, "leak", "a failed heap creation leaves memory behind"); return; }
    CHECK(heap_is_live(zt_mem_heap_get_data(hp), sz), "element-too-small", "a heap of %zu bytes reaches past its memory", sz); memset(zt_mem_heap_get_data(hp), 0xc3, sz); nm[0] = 'Z';
    if (fault_fired(F_ALLOC) == f0) CHECK(zt_mem_heap_get_name(hp) && !strcmp(zt_mem_heap_get_name(hp), named ? "heap-x" : "*unknown*"), "wrong-name", "a heap has another name than it was given"); CHECK(!zt_mem_heap_get_name(NULL), "wrong-name", "no heap has a name");
    zt_mem_heap_destroy(&hp); CHECK(!hp && heap_live() == h, "leak", "destroying a heap leaves memory behind or keeps its handle"); probe("heap");
}
/* what no memory can hold is refused, however the sizes multiply */
static void op_impossible(void) {
    size_t h = heap_live(); probe("impossible-size");
    if (ch("impossible-what", 3) == 2) { CHECK(!zt_mem_heap_init("h", (size_t)-1 - ch("short-of-all", 64)), "element-too-small", "a heap larger than all memory was granted"); CHECK(heap_live() == h, "leak", "a refused heap leaves memory behind"); return; }
    size_t size, elts; if (ch("impossible-how", 2)) { size = 8 * (1000 + ch("size-large", 600)); elts = ((size_t)1 << (62 - ch("halvings", 3))) + ch("more", 8); } else { size = (size_t)-1 - ch("short-of-all", 64); elts = ch("elts", 3); }
    if (ch("as-group", 3) == 2) { zt_mem_pool_desc d[2]; memset(d, 0, sizeof d); d[0] = (zt_mem_pool_desc){ "impossible", elts, size, NULL, NULL, 0 }; abort_ok = 1; CHECK(!zt_mem_pool_group_init(d, 1), "element-too-small", "a pool group caching %zu elements of %zu bytes was granted", elts, size); abort_ok = 0; }
    else CHECK(!zt_mem_pool_init("impossible", (ssize_t)elts, size, NULL, NULL, 0), "element-too-small", "a pool caching %zu elements of %zu bytes was granted", elts, size);
    CHECK(!zt_mem_pool_get("impossible"), "pool-still-listed", "a refused pool is found by name"); mem_check("refusing an impossible pool");
}
static void op_nothing(void) { zt_mem_pool_stats s; CHECK(!zt_mem_pool_alloc(NULL) && !zt_mem_pool_get(NULL) && zt_mem_pool_get_stats(NULL, &s) == ZT_FAIL && zt_mem_pool_get("no such pool") == NULL, "accepted", "an operation on no pool succeeded"); zt_mem_heap_destroy(NULL); }
static int pick_pool(void) { int c[NP], n = 0; for (int i = 0; i < np; i++) if (P[i].live) c[n++] = i; return n ? c[ch("pool", (uint32_t)n)] : -1; }
static void op_alloc(int many) {
    if (ng && ch("via-group", 3) == 2) {
        int g = (int)ch("group", (uint32_t)ng); if (!G[g].live) return;
        size_t mx = P[G[g].pool[G[g].n - 1]].size, want = 1 + ch("want", (uint32_t)mx); if (ch_p("exact", 1, 3)) want = P[G[g].pool[ch("exact-of", (uint32_t)G[g].n)]].size;
        int i = -1; for (int k = 0; k < G[g].n && i < 0; k++) if (want <= P[G[g].pool[k]].size) i = G[g].pool[k];
        for (; many-- && ne < ne_max;) {
            zt_mem_pool_stats a, b; stats_of(i, &a); int f0 = fault_fired(F_ALLOC);
            void *v = zt_mem_pool_group_alloc(G[g].g, want);
            if (!v) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "a group allocation of %zu bytes was refused although memory was available", want); probe("alloc-out-of-memory"); pool_check(i); mem_check("a failed allocation"); return; }
            add_elt(i, v, P[i].size); stats_of(i, &b); (void)a; if (!big || many % 128 == 0) pool_check(i);
        }
        return;
    }
    int i = pick_pool(); if (i < 0) return;
    for (; many-- && ne < ne_max;) {
        int f0 = fault_fired(F_ALLOC);
        void *v = zt_mem_pool_alloc(P[i].p);
        if (!v) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "an allocation from pool %s was refused although memory was available", P[i].name); probe("alloc-out-of-memory"); pool_check(i); mem_check("a failed allocation"); return; }
        add_elt(i, v, P[i].size); if (many % (big ? 128 : 8) == 0) pool_check(i);
    }
    pool_check(i);
}
static void release_elt(int k) {
    melt e = E[k]; verify(&e);
    zt_mem_pool_stats a, b; stats_of(e.pool, &a);
    int last = 1; for (int j = 0; j < ne; j++) if (j != k && heap_block_base(E[j].p) == heap_block_base(e.p)) last = 0;
    E[k] = E[--ne]; in_rel = e.pool; rel_calls = 0; rel_answer = 0;
    void *v = e.p; zt_mem_pool_release(&v); in_rel = -1; P[e.pool].n_rel++;
    stats_of(e.pool, &b);
    CHECK(rel_calls == (last && P[e.pool].cb == 2), "release-test-calls", "the release test of pool %s was called %d times for a release that %s its page", P[e.pool].name, rel_calls, last ? "emptied" : "did not empty");
    size_t gone = last && (P[e.pool].cb == 2 ? rel_answer : P[e.pool].cb == 0);
    CHECK(a.pages - b.pages == gone && b.page_frees - a.page_frees == gone, "page-release", "releasing an element of pool %s %s, pages went from %zu to %zu and page releases from %zu to %zu", P[e.pool].name, gone ? "should release its page" : "should keep its page", a.pages, b.pages, a.page_frees, b.page_frees);
    if (gone) probe("page-released");
    pool_check(e.pool);
}
static void op_release(int many) { for (; many-- && ne;) release_elt((int)ch("element", (uint32_t)ne)); mem_check("releasing elements"); }
static void op_release_pool(void) { int i = pick_pool(); if (i < 0) return; for (int k = ne - 1; k >= 0; k--) if (k < ne && E[k].pool == i) release_elt(k); }
static void op_destroy(void) {
    if (ng && ch("destroy-group", 4) == 3) {
        int g = (int)ch("group", (uint32_t)ng); if (!G[g].live) return;
        for (int k = 0; k < G[g].n; k++) if (pool_live(G[g].pool[k])) return;
        CHECK(zt_mem_pool_group_destroy(G[g].g) == 0, "refused", "destroying a group without live elements was refused");
        for (int k = 0; k < G[g].n; k++) P[G[g].pool[k]].live = 0;
        G[g].live = 0; mem_check("destroying a group"); probe("group-destroyed"); return;
    }
    int i = pick_pool(); if (i < 0 || P[i].grouped) return;
    int l = pool_live(i); zt_mem_pool *q = P[i].p; zt_mem_pool_stats a, b; stats_of(i, &a);
    ev("destroy pool %ld with %ld live", i, l, 0);
    int r = zt_mem_pool_destroy(&q);
    if (l) {
        CHECK(r != 0, "destroyed-live-pool", "pool %s was destroyed with %d live elements", P[i].name, l);
        CHECK(q == P[i].p, "destroyed-live-pool", "refusing to destroy pool %s cleared its handle", P[i].name);
        stats_of(i, &b); probe("destroy-refused");
        CHECK(b.pages == a.pages && b.free_pages == a.free_pages, "disturbed", "refusing to destroy pool %s changed its pages from %zu to %zu", P[i].name, a.pages, b.pages);
        pool_check(i);
    } else { CHECK(r == 0, "refused", "destroying pool %s without live elements was refused", P[i].name); P[i].live = 0; CHECK(named_like(i) ? 1 : zt_mem_pool_get(P[i].name) == NULL, "pool-still-listed", "destroyed pool %s is still found by name", P[i].name); }
    mem_check("destroying a pool");
}
static void op_trim(void) {
    int i = pick_pool(); if (i < 0) return;
    zt_mem_pool_stats a, b; stats_of(i, &a); zt_mem_pool_release_free_pages(P[i].p); stats_of(i, &b);
    CHECK(b.free_pages == 0 && b.pages == a.pages - a.free_pages, "trim", "after releasing the free pages of pool %s it reports %zu free pages and %zu pages (before: %zu and %zu)", P[i].name, b.free_pages, b.pages, a.free_pages, a.pages);
    pool_check(i); mem_check("releasing free pages"); probe("free-pages-released");
}
static void c13_exit(int code) {
    (void)code; for (int k = 0; k < ne; k++) verify(&E[k]);
    size_t left = 0;
    for (int i = 0; i < np; i++) if (P[i].live && pool_live(i)) { zt_mem_pool_stats s; stats_of(i, &s); left += s.pages + ov_pool[P[i].unnamed]; }
    for (int i = 0; i < ng; i++) if (G[i].live) left += ov_group;
    /* the exit list entry itself goes too */
    CHECK(heap_live() <= c13_base + left, "not-released-at-exit", "%ld blocks of pools without live elements are still allocated after exit", (long)heap_live() - (long)(c13_base + left));
}
static void c13(void) {
    sim_step_limit(60000000, "hang"); sim_abort_cb = c13_abort; sim_exit_cb = c13_exit;
    zt_mem_pool *w = zt_mem_pool_init("warm", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w);   /* the one-time exit registration */
    for (int u = 0; u < 2; u++) { size_t l = heap_live(); zt_mem_pool_stats st; CHECK(w = zt_mem_pool_init(u ? NULL : "warm", 1, 8, NULL, NULL, 0), "refused", "a pool was refused although memory was available"); zt_mem_pool_get_stats(w, &st); ov_pool[u] = heap_live() - l - st.pages; zt_mem_pool_destroy(&w); CHECK(heap_live() == l, "memory-accounting", "%zd blocks are left of a pool", heap_live() - l); }
    { size_t l = heap_live(); zt_mem_pool_desc d[2]; memset(d, 0, sizeof d); d[0] = (zt_mem_pool_desc){ "warm", 1, 8, NULL, NULL, 0 }; zt_mem_pool_stats st; zt_mem_pool_group *g = zt_mem_pool_group_init(d, 1); CHECK(g, "refused", "a group was refused although memory was available"); zt_mem_pool_get_stats(zt_mem_pool_get("warm"), &st); ov_group = heap_live() - l - st.pages - ov_pool[0]; zt_mem_pool_group_destroy(g); CHECK(heap_live() == l, "memory-accounting", "%zd blocks are left of a group", heap_live() - l); }
    zt_log_set_debug_info(NULL, 0, NULL);
    c13_base = heap_live();
    big = sim_large(); if (big) ne_max = NE;
    int n = 4 + (int)ch("steps", 60), oom = ch_p("oom", 1, 3);
    if (oom) { if (ch("oom-how", 2)) fault_set(F_ALLOC, 1, 4 + ch("oom-rate", 30), -1); else fault_set(F_ALLOC, 1, 3 + ch("oom-rate", 20), 1 + (int)ch("oom-max", 3)); }
    sim_desc("steps=%d out-of-memory=%d ", n, oom);
    op_create();
    for (int s = 0; s < n; s++) {
        static const uint32_t w8[11] = { 2, 1, 8, 3, 6, 2, 2, 2, 2, 1, 1 };
        switch (ch_w("op", 11, w8)) {
        case 0: if (heap_used() < 64 << 20) op_create(); break;     /* the simulated heap does not use memory again */
        case 1: if (heap_used() < 64 << 20) op_group(); break;
        case 2: if (heap_used() < 100 << 20) op_alloc(1 + (int)ch("count", 6)); break;
        case 3: if (heap_used() < 100 << 20) op_alloc(1 + (int)ch("count", big ? 1200 : 120)); break;
        case 4: op_release(1 + (int)ch("count", 10)); break;
        case 5: op_release(1 + (int)ch("count", big ? 400 : 200)); break;
        case 6: op_release_pool(); break;
        case 7: op_destroy(); break;
        case 8: op_trim(); break;
        case 9: op_display(); break;
        case 10: { int o = (int)ch("nothing", 5); if (o > 3) op_impossible(); else if (o & 1) op_nothing(); else op_heap(); } break;
        }
        if (ne > 20) sim_nontrivial();
        if (ch_p("verify-all", 1, 8)) for (int k = 0; k < ne; k++) verify(&E[k]);
        int i = pick_pool(); if (i >= 0) findable(i);
    }
    fault_off();
    for (int k = 0; k < ne; k++) verify(&E[k]);
    if (ch("keep-live", 4) != 3) while (ne) release_elt(ne - 1);
    if (ch("destroy-at-end", 2)) {
        for (int i = 0; i < np; i++) if (P[i].live && !P[i].grouped && !pool_live(i)) { zt_mem_pool *q = P[i].p; CHECK(zt_mem_pool_destroy(&q) == 0, "refused", "destroying pool %s without live elements was refused", P[i].name); P[i].live = 0; }
        mem_check("destroying the pools");
    }
    sim_exit(0);
}
SCN(C13, c13, "more than twenty elements were live at once", "zt_mem.c, zt_list.h, zt_atexit.c", "allocator (with failures), process exit, client program (stub)")

/* ============================ C14 =================================== */
#define NZ 150
#define NB 2500
typedef struct { zt_ez_mempool *z; int parent, live; } ezp;
static ezp Z[NZ]; static int nz;
typedef struct { unsigned char *p; size_t n; int pool, freed, live, cb; uint8_t seed; } ebuf;
static ebuf B[NB]; static int nbuf; static int destroying_pool = -1; static int unowned_chunk;
static int is_below(int i, int top) { for (; i >= 0; i = Z[i].parent) if (i == top) return 1; return 0; }
static void ez_free_cb(void *v) {
    int k = -1; for (int i = 0; i < nbuf; i++) if (B[i].p == v && B[i].cb) k = i;
    CHECK(k >= 0, "foreign-free", "a release callback was called with something never given to a pool");
    CHECK(!B[k].freed, "double-free", "buffer %d was released a second time", k);
    CHECK(destroying_pool >= 0 && is_below(B[k].pool, destroying_pool), "foreign-free", "buffer %d of pool %d is released while pool %d is destroyed", k, B[k].pool, destroying_pool);
    for (size_t i = 0; i < B[k].n; i++) CHECK(B[k].p[i] == (uint8_t)(B[k].seed + i * 3), "contents-lost", "buffer %d changed before it was released", k);
    B[k].freed = 1; sim_free(v);
}
static void ez_fill(ebuf *b) { for (size_t i = 0; i < b->n; i++) b->p[i] = (uint8_t)(b->seed + i * 3); }
static void ez_check(int k, const char *when) {
    ebuf *b = &B[k];
    CHECK(heap_is_live(b->p, b->n), "freed-early", "buffer %d of pool %d is no longer allocated after %s", k, b->pool, when);
    CHECK(!b->freed, "freed-early", "buffer %d of pool %d was released by %s", k, b->pool, when);
    for (size_t i = 0; i < b->n; i++) CHECK(b->p[i] == (uint8_t)(b->seed + i * 3), "contents-lost", "byte %zu of buffer %d changed", i, k);
}
static int pick_ez(void) { int c[NZ], n = 0; for (int i = 0; i < nz; i++) if (Z[i].live) c[n++] = i; return n ? c[ch("ez-pool", (uint32_t)n)] : -1; }
static void ez_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); for (int k = 0; k < nbuf; k++) if (B[k].live) ez_check(k, "an abort"); probe("aborted-out-of-memory"); }
static void ez_destroy(int i) {
    int depth = 0, kids = 0; for (int j = 0; j < nz; j++) if (Z[j].live && j != i && is_below(j, i)) { kids++; if (Z[j].parent != i) depth = 1; }
    int sib = 0; for (int j = 0; j < nz; j++) sib += Z[j].live && j != i && Z[i].parent >= 0 && Z[j].parent == Z[i].parent;
    if (kids) probe("destroyed-with-children"); if (depth) probe("destroyed-with-grandchildren"); if (sib) { probe("destroyed-with-siblings"); sim_nontrivial(); }
    ev("destroy pool %ld (%ld below, %ld siblings)", i, kids, sib);
    destroying_pool = i; zt_ez_mempool_destroy(Z[i].z); destroying_pool = -1;
    for (int j = 0; j < nz; j++) if (Z[j].live && is_below(j, i)) Z[j].live = 2;
    for (int k = 0; k < nbuf; k++) if (B[k].live) {
        if (Z[B[k].pool].live == 2) {
            CHECK(B[k].cb ? B[k].freed : !heap_is_live(B[k].p, 1), "not-freed", "buffer %d of pool %d was not freed when pool %d was destroyed", k, B[k].pool, i);
            B[k].live = 0;
        } else ez_check(k, "destroying another pool");
    }
    for (int j = 0; j < nz; j++) if (Z[j].live == 2) Z[j].live = 0;
}
static void c14(void) {
    sim_step_limit(20000000, "hang"); sim_abort_cb = ez_abort;
    zt_log_set_debug_info(NULL, 0, NULL);
    size_t h0 = heap_live(); big = sim_large(); int n = 6 + (int)ch("steps", big ? 1500 : 60), oom = ch_p("oom", 1, 5);
    sim_desc("steps=%d out-of-memory=%d ", n, oom);
    if (oom) fault_set(F_ALLOC, 1, 10 + ch("oom-rate", 60), 1);
    size_t extra = 0; /* blocks per buffer/pool are the library's business: only the total at the end is judged */ (void)extra;
    uint32_t w[6] = { 4, 6, 3, 3, 3, 1 }; if (big) { w[1] = w[2] = w[3] = 30; w[4] = 1; }
    for (int s = 0; s < n; s++) {
        int i, k; size_t sz;
        switch (ch_w("op", 6, w)) {
        case 0: if (nz >= (big ? NZ : 24)) break; i = ch_p("root", 1, 4) ? -1 : pick_ez();
            Z[nz].z = zt_ez_mempool_init(i < 0 ? NULL : Z[i].z); Z[nz].parent = i; if (!Z[nz].z) { CHECK(fault_fired(F_ALLOC), "refused", "a pool was refused although memory was available"); break; } Z[nz].live = 1; ev("pool %ld below %ld", nz, i, 0); nz++; break;
        case 1: i = pick_ez(); if (i < 0 || nbuf >= NB) break; sz = ch_p("no-bytes", 1, 12) ? 0 : 1 + ch("size", ch_p("bigger", 1, 12) ? 70000 : 200); k = nbuf; if (!sz) probe("no-bytes");
            B[k] = (ebuf){ 0, sz, i, 0, 0, (int)ch("callback", 2), (uint8_t)ch("pattern", 200) };
            B[k].p = zt_ez_mempool_alloc(Z[i].z, sz, B[k].cb ? ez_free_cb : NULL); if (!B[k].p) { CHECK(fault_fired(F_ALLOC), "refused", "an allocation was refused although memory was available"); break; }
            CHECK(heap_is_live(B[k].p, sz), "too-small", "an allocation of %zu bytes reaches past its memory", sz);
            for (size_t j = 0; j < sz; j++) CHECK(B[k].p[j] == 0, "not-zeroed", "a fresh allocation is not zeroed at byte %zu", j);
            B[k].live = 1; ez_fill(&B[k]); nbuf++; break;
        case 2: i = pick_ez(); if (i < 0 || nbuf >= NB) break; k = nbuf; sz = 1 + ch("size", 60);
            B[k] = (ebuf){ sim_alloc_nf(sz), sz, i, 0, 0, (int)ch("callback", 2), (uint8_t)ch("pattern", 200) };
            ez_fill(&B[k]); B[k].live = 1; nbuf++;
            if (zt_ez_mempool_add_buffer(Z[i].z, B[k].p, sz, B[k].cb ? ez_free_cb : NULL)) { nbuf--; B[k].live = 0; probe("add-refused"); CHECK(fault_fired(F_ALLOC), "refused", "a buffer was refused although memory was available"); }
            break;
        case 3: i = pick_ez(); if (i < 0 || nbuf >= NB) break; { char t[80]; size_t l = ch_p("empty", 1, 5) ? 0 : ch("strlen", 60); for (size_t j = 0; j < l; j++) t[j] = (char)('a' + (j * 5 + (size_t)s) % 26); t[l] = 0;
            char *r = zt_ez_mempool_strdup(Z[i].z, t); if (!r) { CHECK(fault_fired(F_ALLOC), "refused", "a string was not duplicated although memory was available"); break; }
            CHECK(strcmp(r, t) == 0 && r != t, "wrong-copy", "the duplicated string differs from the original"); if (!l) probe("empty-string");
            k = nbuf++; B[k] = (ebuf){ (unsigned char *)r, l + 1, i, 0, 1, 0, (uint8_t)ch("pattern", 200) }; ez_fill(&B[k]); } break;
        case 4: i = pick_ez(); if (i >= 0) ez_destroy(i); break;
        case 5: i = pick_ez(); if (i >= 0) { char c; CHECK(zt_ez_mempool_add_buffer(Z[i].z, NULL, 5, NULL) == -1, "accepted", "a missing buffer was accepted"); CHECK(zt_ez_mempool_add_buffer(Z[i].z, &c, 0, NULL) == -1, "accepted", "an empty buffer was accepted"); } break;
        }
        if (ch_p("verify-all", 1, 4)) for (k = 0; k < nbuf; k++) if (B[k].live) ez_check(k, "an unrelated operation");
    }
    fault_off();
    for (;;) { int i = pick_ez(); if (i < 0) break; ez_destroy(i); }
    CHECK(heap_live() == h0, "leak", "%ld blocks stay allocated after every pool was destroyed", (long)(heap_live() - h0));
}
SCN(C14, c14, "a pool with live siblings was destroyed", "zt_ez_mempool.c, zt_malloc.c", "allocator (with failures), client program (stub)")
