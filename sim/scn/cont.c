/* C28 IPv4 tables, C29 ordered trees, C30 byte streams and arrays, C31 pointer arrays:
 * seeded histories against small models, with allocation failures at any point. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <errno.h>
#include <zt.h>
#include <libzt/zt_mem.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_tree.h>
#include <libzt/zt_array.h>
#include <libzt/zt_bstream.h>
#include <libzt/zt_ptr_array.h>

static void oom_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory"); }

/* ============================ C28 =================================== */
#define NT 3
#define MAXN 2600
static struct { zt_ipv4_tbl *t; struct { uint32_t a, m; int len; zt_ipv4_node *n; } net[MAXN]; int n, any; zt_ipv4_node *anyn; size_t before; uint32_t lens[2]; } T[NT];
static uint32_t mask_of(int len) { return len ? 0xffffffffu << (32 - len) : 0; }
static uint32_t pool_addr[12];
static uint32_t addr_draw(void) {       /* close to earlier addresses, so that networks contain each other */
    uint32_t a = pool_addr[ch("base", 12)]; int k = (int)ch("flip-bits", 3); while (k--) a ^= 1u << ch("bit", 32);
    if (ch_p("edge", 1, 8)) a = ch("which-edge", 2) ? 0xffffffffu : 0; return a;
}
static void net_text(char *o, size_t n, uint32_t a, int len, int plain) {
    int k = snprintf(o, n, "%u.%u.%u.%u", a >> 24, (a >> 16) & 255, (a >> 8) & 255, a & 255); if (!(plain && len == 32)) snprintf(o + k, n - (size_t)k, "/%d", len);
}
static int len_draw(void) { static const uint32_t w[3] = { 4, 2, 1 }; switch (ch_w("len-class", 3, w)) { case 0: return 8 + (int)ch("len", 25); case 1: return 1 + (int)ch("len", 32); default: return ch_p("any", 1, 12) ? 0 : 32; } }
static char *sim_text(const char *s) { size_t n = strlen(s) + 1; char *p = sim_alloc_nf(n); memcpy(p, s, n); return p; }   /* exact block: reading past the text is seen */
static const char *bad_net[] = { "", "/24", "abc", "1.2.3.4.5", "256.1.1.1", "1.2.3.4444", "192.168.100.1000/8", "10.0.0.0.0.0.0.0.0.0/8", "1.2.3.4/-1", "1.2.3.4/-20", "a.b.c.d/16", "255.255.255.256" };
static void node_check(zt_ipv4_node *nd, uint32_t a, int len, const char *txt) {
    CHECK(nd->addr && nd->addr->bitlen == len && nd->addr->mask == mask_of(len) && nd->addr->addr == (a & mask_of(len)) && nd->addr->broadcast == (a | ~mask_of(len)), "wrong-network", "\"%s\" became another network", txt);
}
static int reading;    /* several threads are searching: they must not draw from a shared pool */
static void lookup(int i, uint32_t a, int len) {
    char txt[40]; net_text(txt, sizeof txt, a, len, (int)ch("plain", 2)); char *s = sim_text(txt); int f0 = fault_fired(F_ALLOC); size_t h = heap_live(); int how = (int)ch("how", 4) + reading;
    zt_ipv4_node *r, *mine = NULL;
    if (how == 0 && (mine = zt_ipv4_node_str_init(s))) { node_check(mine, a, len, txt); r = zt_ipv4_tbl_search_node(T[i].t, mine); void *q = mine->addr; zt_mem_pool_release(&q); q = mine; zt_mem_pool_release(&q); probe("node-made-by-the-caller"); }
    else if (how == 0) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "no node was made of \"%s\" although memory was available", txt); sim_free(s); return; }
    else { r = zt_ipv4_tbl_search_from_str(T[i].t, s); }
    sim_free(s); (void)h;
    ev("lookup in %ld len %ld: %ld", i, len, r != NULL);
    int exp = T[i].any, found = 0; for (int k = 0; k < T[i].n; k++) { int c = T[i].net[k].len <= len && (a & T[i].net[k].m) == T[i].net[k].a; exp |= c; if (T[i].net[k].n == r) found |= c; }
    if (T[i].any && r == T[i].anyn) found = 1;
    if (!r) { CHECK(!exp || fault_fired(F_ALLOC) > f0, "missed", "a lookup of %s found nothing although a network containing it was added (%d networks)", txt, T[i].n); if (!exp) probe("not-found"); return; }
    CHECK(exp, "false-match", "a lookup of %s found a network although none contains it", txt); CHECK(found, "wrong-match", "a lookup of %s returned a node that was not added or does not contain it", txt); probe("found");
}
static void lookup_some(int i) { if (T[i].n && ch_p("below-a-network", 1, 2)) { int k = (int)ch("net", (uint32_t)T[i].n); uint32_t a = T[i].net[k].a | (addr_draw() & ~T[i].net[k].m); int len = (int)ch_r("sub-len", T[i].net[k].len, 32); lookup(i, a & mask_of(len), len); } else { int len = len_draw(); lookup(i, addr_draw() & mask_of(len), len); } }
static void *ip_reader(void *v) { int i = (int)(intptr_t)v, n = 1 + (int)ch("lookups", 3); while (n--) lookup_some(i);  return NULL; }
static void c28(void) {
    sim_step_limit(400000000, "hang"); sim_abort_cb = oom_abort; zt_ipv4_tbl *w = zt_ipv4_tbl_init(4); CHECK(w, "refused", "no table could be created"); zt_ipv4_tbl_destroy(w); size_t live0 = heap_live();
    int nt = 1 + (int)ch("tables", NT), steps = 4 + (int)ch("steps", sim_large() ? 4000 : ch_p("long", 1, 4) ? 250 : 40), oom = ch_p("oom", 1, 3), all_len = ch_p("all-lengths", 1, 5), phases = 0; static const uint32_t SZ[] = { 1024, 0, 1, 2, 3, 16, 100, 128, 4096 };
    for (int k = 0; k < 12; k++) pool_addr[k] = ch("addr", 65536) << 16 | ch("addr-low", 65536);
    sim_desc("tables=%d steps=%d out-of-memory=%d ", nt, steps, oom); sim_sig((uint64_t)steps);
    if (oom) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 12), -1);
    for (int i = 0; i < nt; i++) { int f0 = fault_fired(F_ALLOC); size_t h = heap_live(); T[i].n = T[i].any = 0; T[i].t = zt_ipv4_tbl_init(SZ[ch("size", 9)]); if (!T[i].t) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "no table could be created although memory was available"); CHECK(heap_live() == h, "leak", "a failed creation leaves %zd allocations", heap_live() - h); probe("creation-out-of-memory"); } }
    for (int s = 0; s < steps; s++) {
        int i = (int)ch("table", (uint32_t)nt); if (!T[i].t) continue;
        static const uint32_t ww[5] = { 6, 6, 1, 1, 1 };
        switch (ch_w("op", 5, ww)) {
        case 0: { uint32_t a = addr_draw(); int len = all_len && T[i].n < 32 ? 1 + T[i].n : len_draw(), f0 = fault_fired(F_ALLOC); char txt[40]; net_text(txt, sizeof txt, a, len, (int)ch("plain", 2)); char *q = sim_text(txt); if (T[i].n >= MAXN - 2) { sim_free(q); break; }
            zt_ipv4_node *n = zt_ipv4_tbl_add_frm_str(T[i].t, q); memset(q, 'Z', strlen(q)); sim_free(q); ev("add to %ld len %ld: %ld", i, len, n != NULL);
            if (!n) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "adding %s was refused although memory was available", txt); probe("add-out-of-memory"); break; }
            if (T[i].any) { CHECK(n == T[i].anyn, "wrong-node", "adding to a table that contains everything returned another node"); break; }
            node_check(n, a, len, txt); if (len == 0) { T[i].any = 1; T[i].anyn = n; probe("everything"); } else { T[i].net[T[i].n].a = a & mask_of(len); T[i].net[T[i].n].m = mask_of(len); T[i].net[T[i].n].len = len; T[i].net[T[i].n++].n = n; }
            if (T[i].n == 32 && all_len) probe("every-prefix-length"); if (T[i].n > 2) sim_nontrivial(); break; }
        case 1: lookup_some(i); break;
        case 2: { if (ch_p("nothing", 1, 6)) { zt_ipv4_tbl_destroy(NULL); CHECK(!zt_ipv4_tbl_add_frm_str(T[i].t, NULL) && !zt_ipv4_tbl_add_frm_str(NULL, "1.2.3.4/8") && !zt_ipv4_tbl_search_from_str(T[i].t, NULL) && !zt_ipv4_tbl_search_from_str(NULL, "1.2.3.4/8") && !zt_ipv4_node_str_init(NULL), "accepted", "a missing text or table yields a network"); uint32_t oa; int ob; CHECK(zt_ipv4_str2net(NULL, &oa, &ob) && zt_ipv4_str2net("1.2.3.4", NULL, &ob) && zt_ipv4_str2net("1.2.3.4", &oa, NULL), "accepted", "a missing text was read as a network"); break; }
            if (ch_p("beyond-32", 1, 6)) { static const char *B[] = { "10.1.2.3/33", "10.1.2.3/64", "10.1.2.3/255", "10.1.2.3/4096" }; char *q = sim_text(B[ch("how-far", 4)]); uint32_t a = 0; int l = 0, f0 = fault_fired(F_ALLOC); int rc = zt_ipv4_str2net(q, &a, &l); if (rc == 0) CHECK(a == 0x0a010203 && l == 32, "wrong-network", "a prefix length beyond 32 was read as %d", l); else CHECK(fault_fired(F_ALLOC) > f0, "refused", "%s was not read", q); sim_free(q); probe("beyond-32"); break; }
            const char *b = bad_net[ch("malformed", sizeof bad_net / sizeof *bad_net)]; char *q = sim_text(b); zt_ipv4_node *n; if (ch_p("endless", 1, 6)) { size_t L = 40 + ch("how-long", 6000); sim_free(q); q = sim_alloc_nf(L + 1); memset(q, '1', L); q[L] = 0; if (ch("with-slash", 2)) q[ch("slash-at", (uint32_t)L)] = '/'; b = "a text of thousands of characters"; if (q[8] == '/' || q[7] == '/' || q[9] == '/' || strchr(q, '/') - q < 11) q[0] = 'x'; probe("long-text"); }
            if (T[i].any) n = NULL; else if (ch("bad-op", 2)) n = zt_ipv4_tbl_add_frm_str(T[i].t, q); else n = zt_ipv4_tbl_search_from_str(T[i].t, q);
            sim_free(q); CHECK(!n, "accepted", "\"%s\" was accepted as a network", b); probe("malformed"); break; }
        case 4: { if (phases++ > 5) break; int f[3], n = 2 + (int)ch("readers", 2); reading = 1; for (int k = 0; k < n; k++) f[k] = fiber_spawn(ip_reader, (void *)(intptr_t)i, "reader"); for (int k = 0; k < n; k++) fiber_join(f[k]); reading = 0; probe("searched-by-several-threads"); break; }
        default: { size_t h = heap_live(); uint32_t a = addr_draw(); int f0 = fault_fired(F_ALLOC); char *q = zt_ipv4_int2ip(a); CHECK(q || fault_fired(F_ALLOC) > f0, "refused", "an address is not written although memory is available"); if (q) { char t[20]; snprintf(t, sizeof t, "%u.%u.%u.%u", a >> 24, (a >> 16) & 255, (a >> 8) & 255, a & 255); CHECK(!strcmp(q, t), "wrong-text", "address %s is written as %s", t, q); CHECK(zt_ipv4_ip2int(q) == a, "wrong-text", "an address changes when written as text and read again"); sim_free(q); } CHECK(heap_live() == h, "leak", "address conversion leaks"); }
        }
    }
    fault_off();
    for (int i = 0; i < nt; i++) if (T[i].t) for (int k = 0; k < 6; k++) { int len = len_draw(); lookup(i, addr_draw() & mask_of(len), len); }
    for (int i = 0, k0 = (int)ch("destroy-first", (uint32_t)nt); i < nt; i++) { int k = (i + k0) % nt; if (T[k].t) { zt_ipv4_tbl_destroy(T[k].t); T[k].t = NULL; for (int q = 0; q < nt; q++) if (T[q].t && T[q].n) { lookup(q, T[q].net[0].a, T[q].net[0].len); probe("used-after-another-was-destroyed"); } } }
    if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after all tables were destroyed", heap_live() - live0); }
}
SCN(C28, c28, "a table held at least three networks", "zt_ipv4_tbl.c, zt_mem.c", "heap with failing allocations; client program")

/* ============================ C29 =================================== */
#define TN 3000
typedef struct { zt_rbt_node n; int key, in; } tnode;
static tnode *N; static zt_rbt_node *root; static int ntn, ncmp;
#define TNODE(p) ((tnode *)((char *)(p) - offsetof(tnode, n)))
/* a comparison may answer with any negative or positive number */
static int tanswer; static const int tscale[] = { 1, 100, 256, 4096, 65536, 1 << 24 };
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { ncmp++; int x = TNODE(a)->key, y = TNODE(b)->key; return tanswer == 0 ? (x < y ? -7 : x > y ? 3 : 0) : tanswer == 1 ? (x < y ? INT_MIN : x > y ? INT_MAX : 0) : tanswer == 2 ? x - y : x < y ? -tscale[tanswer - 3] : x > y ? tscale[tanswer - 3] : 0; }
static int tdepth, tcount;
static int tverify(zt_rbt_node *p, zt_rbt_node *par, int lo, int hi, int d) {
    if (!p) return 1; if (d > tdepth) tdepth = d; CHECK(d < 64, "shape", "the tree has a cycle or is unboundedly deep"); CHECK(heap_is_live(p, sizeof *p), "stray", "the tree links to memory that holds no node"); tnode *t = TNODE(p); CHECK(t->in, "membership", "a removed node is still in the tree");
    CHECK(p->parent == par, "links", "a node's parent link is wrong"); CHECK(t->key > lo && t->key < hi, "order", "key %d is out of order", t->key); tcount++;
    if (p->colour == zt_rbt_red) CHECK((!p->left || p->left->colour == zt_rbt_black) && (!p->right || p->right->colour == zt_rbt_black), "balance", "a red node has a red child");
    int l = tverify(p->left, p, lo, t->key, d + 1), r = tverify(p->right, p, t->key, hi, d + 1); CHECK(l == r, "balance", "paths below key %d hold %d and %d black nodes", t->key, l, r); return l + (p->colour == zt_rbt_black);
}
static void tree_ok(int have) {
    tdepth = tcount = 0; if (root) CHECK(root->colour == zt_rbt_black, "balance", "the root is red"); tverify(root, NULL, -1000000, 1000000, 1);
    CHECK(tcount == have, "membership", "the tree holds %d nodes, %d were inserted and not removed", tcount, have); int lim = 0; while ((1 << lim) < have + 1) lim++; CHECK(tdepth <= 2 * lim, "balance", "%d nodes make a tree of depth %d", have, tdepth);
}
static tnode *holder(int key) { for (int i = 0; i < ntn; i++) if (N[i].in && N[i].key == key) return &N[i]; return NULL; }
static tnode *succ(int key, int incl) { tnode *b = NULL; for (int i = 0; i < ntn; i++) if (N[i].in && (N[i].key > key || (incl && N[i].key == key)) && (!b || N[i].key < b->key)) b = &N[i]; return b; }
static tnode *pred_max(void) { tnode *b = NULL; for (int i = 0; i < ntn; i++) if (N[i].in && (!b || N[i].key > b->key)) b = &N[i]; return b; }
static int trange;
static void tree_find(int have) {
    tnode *key = sim_alloc_nf(sizeof *key); memset(key, 0, sizeof *key); key->key = (int)ch("probe-key", (uint32_t)trange + 4) - 2; tnode *h = holder(key->key), *g = succ(key->key, 1); zt_rbt_node *r; ncmp = 0; r = zt_rbt_find(&root, &key->n, tcmp); CHECK(r == (h ? &h->n : NULL), "lookup", "looking up key %d gives another result than it should", key->key);
    if (have >= 0) { int lim = 1; while ((1 << lim) < have + 2) lim++; CHECK(ncmp <= 2 * lim, "balance", "a lookup among %d nodes took %d comparisons", have, ncmp); }
    r = zt_rbt_nfind(&root, &key->n, tcmp); CHECK(r == (g ? &g->n : NULL), "lookup", "the first key not below %d is wrong", key->key); sim_free(key);
}
static void tree_ends(void) { tnode *a = succ(-1000001, 0), *b = pred_max(); CHECK(zt_rbt_min(&root) == (a ? &a->n : NULL) && zt_rbt_max(&root) == (b ? &b->n : NULL), "lookup", "the smallest or the largest node is wrong"); }
static void tree_walk(int have) { zt_rbt_node *x; int last = -1000000, n = 0; zt_rbt_for_each(&root, x) { CHECK(TNODE(x)->key > last, "order", "iteration is not in order"); last = TNODE(x)->key; CHECK(++n <= have, "iteration", "iteration visits more nodes than the tree holds"); } CHECK(n == have, "iteration", "iteration visits %d of %d nodes", n, have); }
static void *tree_reader(void *v) { int have = (int)(intptr_t)v, n = 1 + (int)ch("reads", 3); while (n--) switch (ch("read", 3)) { case 0: tree_find(-1); break; case 1: tree_ends(); break; default: tree_walk(have); }  return NULL; }
static void c29(void) {
    tanswer = (int)ch("comparison-answers", 9);
    sim_step_limit(400000000, "hang"); int big = sim_large(); ntn = 4 + (int)ch("nodes", big ? TN - 4 : ch_p("many", 1, 4) ? 296 : 28); int range = 1 + (int)ch("key-range", (uint32_t)(2 * ntn)), steps = 5 + (int)ch("steps", big ? 3000 : ch_p("long", 1, 3) ? 400 : 60), have = 0, bias = (int)ch("bias", 3), phases = 0, pat = (int)ch("pattern", 3);
    N = sim_alloc_nf(sizeof *N * (size_t)ntn); root = NULL; for (int i = 0; i < ntn; i++) { memset(&N[i], 0xa5, sizeof N[i]); N[i].in = 0; }
    sim_desc("nodes=%d keys=%d steps=%d ", ntn, range, steps); sim_sig((uint64_t)ntn * 1000 + (uint64_t)range);
    trange = range;
    for (int s = 0; s < steps; s++) {
        int i = (int)ch("node", (uint32_t)ntn); uint32_t w[7] = { 6, 3, 2, 2, 1, 1, 1 }; if (bias == 1) w[1] = 7; if (bias == 2) w[0] = 12;
        switch (ch_w("op", 7, w)) {
        case 0: { for (int k = 0; k < ntn && N[i].in; k++) i = (i + 1) % ntn; if (N[i].in) break; memset(&N[i].n, (int)ch("old-links", 2) ? 0xa5 : 0, sizeof N[i].n);
            N[i].key = pat == 0 ? (int)ch("key", (uint32_t)range) : pat == 1 ? s : range - s; tnode *h = holder(N[i].key); zt_rbt_node *r = zt_rbt_insert(&root, &N[i].n, tcmp); ev("insert %ld: %ld", N[i].key, r != NULL, 0);
            if (h) { CHECK(r == &h->n, "duplicate", "inserting a key that is present did not return the node that holds it"); probe("key-present"); } else { CHECK(!r, "refused", "inserting a new key was refused"); N[i].in = 1; have++; } break; }
        case 1: { for (int k = 0; k < ntn && !N[i].in; k++) i = (i + 1) % ntn; if (!N[i].in) break; int two = N[i].n.left && N[i].n.right; if (two) probe("inner-node-removed"); if (&N[i].n == root) probe("root-removed"); N[i].in = 0; have--; zt_rbt_node *r = zt_rbt_remove(&root, &N[i].n); ev("remove %ld", N[i].key, 0, 0); CHECK(r == &N[i].n, "wrong-node", "removing a node returned another"); memset(&N[i].n, 0x5a, sizeof N[i].n); sim_nontrivial(); if (!have) { CHECK(!root, "membership", "the tree is not empty after its last node was removed"); probe("emptied"); } break; }
        case 2: tree_find(have); break;
        case 3: tree_walk(have); break;
        case 4: tree_ends(); break;
        case 5: { if (phases++ > 5) break; int f[3], n = 2 + (int)ch("readers", 2); for (int k = 0; k < n; k++) f[k] = fiber_spawn(tree_reader, (void *)(intptr_t)have, "reader"); for (int k = 0; k < n; k++) fiber_join(f[k]); probe("read-by-several-threads"); break; }
        default: { zt_rbt_node *x, *nx; int n = 0, h0 = have, mod = 1 + (int)ch("every", 3); if (!root && 0) break; zt_rbt_for_each_safe(&root, x, nx) { CHECK(++n <= h0, "iteration", "iteration with removal visits too many nodes"); if (n % mod == 0) { TNODE(x)->in = 0; have--; zt_rbt_remove(&root, x); memset(x, 0x5a, sizeof *x); tree_ok(have); probe("removed-while-iterating"); sim_nontrivial(); } } CHECK(n == h0, "iteration", "iteration with removal visits %d of %d nodes", n, h0); break; }
        }
        tree_ok(have);
    }
}
SCN(C29, c29, "a node was removed", "zt_tree.c", "client program")

/* ============================ C30 =================================== */
#define SB_CAP 400000
#define WMAX 20000
static int big_;
#define NS 3
static struct { zt_bstream_t s; unsigned char m[SB_CAP]; char known[SB_CAP]; size_t n, off; int flip; } S[NS];
static void swrite(int i, const void *v, size_t w) { const unsigned char *b = v; for (size_t k = 0; k < w; k++) { S[i].m[S[i].off + k] = b[S[i].flip ? w - 1 - k : k]; S[i].known[S[i].off + k] = 1; } S[i].off += w; if (S[i].off > S[i].n) S[i].n = S[i].off; }
static int sread(int i, void *v, size_t w) { unsigned char *b = v; if (S[i].off + w > S[i].n) return 0; for (size_t k = 0; k < w; k++) { if (!S[i].known[S[i].off + k]) return 0; b[S[i].flip ? w - 1 - k : k] = S[i].m[S[i].off + k]; } S[i].off += w; return 1; }
static void stream_ok(int i, const char *after) {
    CHECK(S[i].s->offt == S[i].off, "position", "the position is %zu after %s, %zu bytes were read or written", S[i].s->offt, after, S[i].off); CHECK(!!zt_bstream_is_empty(S[i].s) == (S[i].n == 0), "emptiness", "a stream of %zu bytes claims %s after %s", S[i].n, S[i].n ? "to be empty" : "not to be", after);
    size_t l = zt_array_length(S[i].s->data); CHECK(l >= S[i].n, "length", "a stream of %zu bytes has length %zu after %s", S[i].n, l, after); unsigned char *p = (unsigned char *)zt_array_data(S[i].s->data); if (l) CHECK(heap_is_live(p, l), "outside", "the stream's bytes lie outside its memory after %s", after);
    for (size_t k = 0; k < S[i].n; k++) if (S[i].known[k]) CHECK(p[k] == S[i].m[k], "wrong-data", "byte %zu of %zu is wrong after %s", k, S[i].n, after);
}
static struct { zt_array_t a; unsigned char *m; size_t len, sz; } AR[3];
static void arr_ok(int i, const char *after) { CHECK(zt_array_length(AR[i].a) == AR[i].len && zt_array_size(AR[i].a) == AR[i].sz, "length", "an array of %zu elements of %zu bytes is %zu of %zu after %s", AR[i].len, AR[i].sz, zt_array_length(AR[i].a), zt_array_size(AR[i].a), after);
    if (AR[i].len) { CHECK(heap_is_live(zt_array_data(AR[i].a), AR[i].len * AR[i].sz), "outside", "an array's elements lie outside its memory after %s", after); CHECK(!memcmp(zt_array_data(AR[i].a), AR[i].m, AR[i].len * AR[i].sz), "wrong-data", "an array's elements changed after %s", after); } }
#define AMAX 70000
static void elem(unsigned char *e, size_t n) { for (size_t k = 0; k < n; k++) e[k] = (unsigned char)ch("byte", 256); }
static void arrays(int steps) {
    int na = 1 + (int)ch("arrays", 3); unsigned char e[64];
    for (int i = 0; i < na; i++) { AR[i].sz = 1 + ch("elt-size", 40); AR[i].len = ch("elts", big_ ? 20000 : 40); AR[i].m = calloc(AMAX, 64); AR[i].a = zt_array_new(AR[i].len, AR[i].sz); CHECK(AR[i].a, "refused", "no array could be created"); arr_ok(i, "creation"); }
    for (int s = 0; s < steps; s++) { int i = (int)ch("array", (uint32_t)na); size_t k;
        static const uint32_t w[8] = { 6, 3, 3, 2, 2, 1, 1, 1 };
        switch (ch_w("array-op", 8, w)) {
        case 0: if (!AR[i].len) break; k = ch("index", (uint32_t)AR[i].len); elem(e, AR[i].sz); zt_array_put(AR[i].a, k, e); memcpy(AR[i].m + k * AR[i].sz, e, AR[i].sz); arr_ok(i, "storing an element"); break;
        case 1: if (!AR[i].len) break; k = ch("index", (uint32_t)AR[i].len); CHECK(!memcmp(zt_array_get(AR[i].a, k), AR[i].m + k * AR[i].sz, AR[i].sz), "wrong-data", "element %zu is wrong", k); memset(e, 0, sizeof e); CHECK(zt_array_elem_copy(AR[i].a, k, e) == e && !memcmp(e, AR[i].m + k * AR[i].sz, AR[i].sz), "wrong-data", "the copy of element %zu is wrong", k); break;
        case 2: k = big_ && ch_p("huge", 1, 4) ? 65000 + ch("new-length", 4999) : 1 + ch("new-length", 1 + ch("length-scale", big_ ? 60000 : 600)); zt_array_resize(AR[i].a, k); ev("resize %ld to %ld", (long)AR[i].len, (long)k, 0); if (k > AR[i].len) { memset(AR[i].m + AR[i].len * AR[i].sz, 0, (k - AR[i].len) * AR[i].sz); probe("array-grown"); } AR[i].len = k; arr_ok(i, "resizing"); break;
        case 3: k = ch("copy-length", (uint32_t)AR[i].len + 20); { zt_array_t c = zt_array_copy(AR[i].a, k); size_t h = k < AR[i].len ? k : AR[i].len; CHECK(zt_array_length(c) == k && zt_array_size(c) == AR[i].sz, "length", "a copy of %zu elements has %zu", k, zt_array_length(c)); if (k) { CHECK(heap_is_live(zt_array_data(c), k * AR[i].sz), "outside", "a copy's elements lie outside its memory"); CHECK(!memcmp(zt_array_data(c), AR[i].m, h * AR[i].sz), "wrong-data", "a copy's elements differ"); if (zt_array_data(c)) memset(zt_array_data(c), 0xee, k * AR[i].sz); } zt_array_free(&c); arr_ok(i, "changing a copy"); probe("array-copied"); } break;
        case 4: if (AR[i].len > 0 && ch_p("own-data", 1, 4)) { /* by a copy of a part of itself */ size_t at = ch("part-from", (uint32_t)AR[i].len), n = 1 + ch("part-len", (uint32_t)(AR[i].len - at)); ev("keep %ld of %ld", (long)n, (long)AR[i].len, 0); zt_array_set_data(AR[i].a, zt_array_data(AR[i].a) + at * AR[i].sz, n, AR[i].sz, 1); memmove(AR[i].m, AR[i].m + at * AR[i].sz, n * AR[i].sz); AR[i].len = n; arr_ok(i, "setting its data to a part of itself"); probe("array-set-to-part-of-itself"); break; }
                { size_t n = 1 + ch("data-len", big_ ? 6000 : 60); unsigned char *d = sim_alloc_nf(n * AR[i].sz); for (size_t q = 0; q < n * AR[i].sz; q++) d[q] = (unsigned char)(q * 31 + (size_t)s); int cp = (int)ch("copy-data", 2); zt_array_set_data(AR[i].a, (char *)d, n, AR[i].sz, cp); memcpy(AR[i].m, d, n * AR[i].sz); AR[i].len = n; if (cp) { memset(d, 0xdd, n * AR[i].sz); sim_free(d); } arr_ok(i, "setting its data"); probe("array-data-replaced"); break; }
        case 5: { char t[40]; k = 1 + ch("text", 38); for (size_t q = 0; q < k; q++) t[q] = (char)('a' + q % 26); t[k] = 0; zt_array_t c = zt_array_with_cstr(t); CHECK(zt_array_length(c) == k && !memcmp(zt_array_data(c), t, k), "wrong-data", "an array made of a text differs from it"); zt_array_free(&c); break; }
        case 6: { if (!AR[i].len) break; size_t nl = ch("shorter", (uint32_t)AR[i].len); size_t o = zt_array_set_length(AR[i].a, nl); CHECK(o == AR[i].len, "length", "setting the length returned %zu instead of %zu", o, AR[i].len); AR[i].len = nl; arr_ok(i, "shortening"); if (!nl) probe("array-shortened-to-nothing"); break; }
        default: { size_t big = (size_t)-1 / AR[i].sz + 1 + ch("more", 40); if (AR[i].sz < 3) break; fault_count(F_ALLOC); fault_set(F_ALLOC, 0, 1, 0); probe("impossible-size"); sim_abort_cb = NULL; extern void huge_done(void); sim_abort_cb = huge_done; zt_array_t c = AR[i].a; if (ch("impossible-resize", 2)) zt_array_resize(c, big); else c = zt_array_new(big, AR[i].sz); sim_fail("impossible-size", "an array of %zu elements of %zu bytes was created (%p)", big, AR[i].sz, (void *)c); }
        } }
    for (int i = 0; i < na; i++) { zt_array_free(&AR[i].a); free(AR[i].m); }
}
void huge_done(void) { }
static void c30(void) {
    sim_step_limit(400000000, "hang"); sim_abort_cb = oom_abort; size_t live0 = heap_live(); int steps = 5 + (int)ch("steps", 60), oom = ch_p("oom", 1, 4), ns = 1 + (int)ch("streams", NS - 1); uint64_t big = 0; big_ = sim_large(); double dv; float fv;
    sim_desc("steps=%d streams=%d out-of-memory=%d ", steps, ns, oom); if (oom) fault_set(F_ALLOC, 1, 10 + ch("oom-rate", 200), -1);
    if (ch_p("arrays", 1, 3)) { arrays(steps); sim_nontrivial(); goto end; }
    for (int i = 0; i < ns; i++) { S[i].s = zt_bstream_new(); CHECK(S[i].s, "refused", "no stream could be created"); S[i].n = S[i].off = 0; S[i].flip = 0; stream_ok(i, "creation"); }
    for (int s = 0; s < steps; s++) { int i = (int)ch("stream", (uint32_t)ns), g; static const uint32_t w[9] = { 10, 6, 3, 1, 1, 2, 1, 1, 1 };
        switch (ch_w("op", 9, w)) {
        case 0: { if (S[i].off + WMAX + 600 > SB_CAP || S[i].n + WMAX + 600 > SB_CAP) break; big = (uint64_t)ch("value", 65536) << 48 ^ (uint64_t)ch("value2", 1u << 31) ^ 0x1122334455667788ull; if (S[i].n > S[i].off) probe("overwritten");
            switch (ch("type", 8)) { case 0: { char c = (char)big; zt_bstream_write_byte(S[i].s, c); swrite(i, &c, 1); break; } case 1: { uint8_t c = (uint8_t)big; zt_bstream_write_uint8(S[i].s, c); swrite(i, &c, 1); break; } case 2: { uint16_t c = (uint16_t)big; zt_bstream_write_uint16(S[i].s, c); swrite(i, &c, 2); break; } case 3: { uint32_t c = (uint32_t)big; zt_bstream_write_uint32(S[i].s, c); swrite(i, &c, 4); break; } case 4: zt_bstream_write_uint64(S[i].s, big); swrite(i, &big, 8); break;
                case 5: dv = (double)big / 3; zt_bstream_write_double(S[i].s, dv); swrite(i, &dv, 8); break; case 6: fv = (float)big / 3; zt_bstream_write_float(S[i].s, fv); swrite(i, &fv, 4); break;
                default: { static char t[WMAX]; size_t n = 1 + ch("bytes", big_ ? WMAX - 1 : 299); for (size_t k = 0; k < n; k++) t[k] = (char)(k * 7 + (size_t)s); zt_bstream_write(S[i].s, t, n, 1, 0); swrite(i, t, n); } }
            stream_ok(i, "a write"); sim_nontrivial(); break; }
        case 1: { static unsigned char e[WMAX], r[WMAX]; size_t room = big_ ? WMAX : 300; memset(e, 0, room); memset(r, 0, room); size_t n, t = ch("type", 8); static const size_t W[7] = { 1, 1, 2, 4, 8, 8, 4 }; n = t < 7 ? W[t] : 1 + ch("bytes", (uint32_t)room - 1); g = sread(i, e, n); if (!g) break;
            switch (t) { case 0: zt_bstream_read_byte(S[i].s, (char *)r); break; case 1: zt_bstream_read_uint8(S[i].s, r); break; case 2: zt_bstream_read_uint16(S[i].s, (uint16_t *)r); break; case 3: zt_bstream_read_uint32(S[i].s, (uint32_t *)r); break; case 4: zt_bstream_read_uint64(S[i].s, (uint64_t *)r); break; case 5: zt_bstream_read_double(S[i].s, (double *)r); break; case 6: zt_bstream_read_float(S[i].s, (float *)r); break; default: zt_bstream_read(S[i].s, (char *)r, n, 1, 0); }
            CHECK(!memcmp(r, e, n), "wrong-data", "reading %zu bytes in the %s order gives other bytes than were written", n, S[i].flip ? "flipped" : "native"); for (size_t k = n; k < room; k++) CHECK(!r[k], "overrun", "a read of %zu bytes stored more", n); probe("read"); stream_ok(i, "a read"); break; }
        case 2: { size_t o = zt_bstream_rewind(S[i].s); CHECK(o == S[i].off, "position", "rewinding returned position %zu instead of %zu", o, S[i].off); S[i].off = 0; stream_ok(i, "rewinding"); break; }
        case 3: { zt_bstream_truncate(S[i].s); ev("truncate at %ld of %ld", (long)S[i].off, (long)S[i].n, 0); memset(S[i].known, 0, S[i].n); S[i].n = S[i].off = 0; CHECK(zt_bstream_is_empty(S[i].s), "emptiness", "a truncated stream is not empty"); stream_ok(i, "truncation"); probe("truncated"); break; }
        case 4: { int k = (i + 1) % NS; if (k < ns || S[k].s) break; (void)k; }  /* fall through */
        case 5: { zt_bstream_t c = zt_bstream_clone(S[i].s); int k = (int)ch("replace", (uint32_t)ns); if (k == i) { zt_bstream_t o = S[i].s; S[i].s = c; zt_bstream_free(&o); } else { zt_bstream_free(&S[k].s); memcpy(S[k].m, S[i].m, S[i].n); memset(S[k].known, 0, S[k].n); memcpy(S[k].known, S[i].known, S[i].n); S[k].n = S[i].n; S[k].off = S[i].off; S[k].flip = S[i].flip; S[k].s = c; } stream_ok(k, "cloning"); stream_ok(i, "being cloned"); probe("cloned"); break; }
        case 6: S[i].s->flipendian = S[i].flip = !S[i].flip; probe("byte-order-changed"); break;
        case 7: { size_t n = 1 + ch("data", big_ ? 50000 : 200); unsigned char *d = sim_alloc_nf(n); for (size_t k = 0; k < n; k++) d[k] = (unsigned char)(k * 13 + (size_t)s); char cp = (char)ch("copy", 2); zt_bstream_set_data(S[i].s, (char *)d, (int)n, cp); memset(S[i].known, 0, S[i].n); memcpy(S[i].m, d, n); memset(S[i].known, 1, n); S[i].n = n; S[i].off = 0; if (cp) { memset(d, 0xdd, n); sim_free(d); } stream_ok(i, "setting its data"); probe("data-replaced"); break; }
        default: { size_t n = 1 + ch("array", big_ ? 5000 : 100); zt_array_t a = zt_array_new(n, 1); for (size_t k = 0; k < n; k++) { unsigned char c = (unsigned char)(k * 5 + (size_t)s); zt_array_put(a, k, &c); S[i].m[k] = c; } memset(S[i].known, 0, S[i].n); memset(S[i].known, 1, n); S[i].n = n; S[i].off = ch("at", (uint32_t)n); zt_bstream_set_array(S[i].s, a, S[i].off); stream_ok(i, "setting its array"); probe("array-set"); }
        } }
    for (int i = 0; i < ns; i++) zt_bstream_free(&S[i].s);
end: fault_off(); if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after everything was released", heap_live() - live0); }
}
SCN(C30, c30, "something was written to a stream, or arrays were used", "zt_bstream.c, zt_array.c, zt_malloc.c", "heap with failing allocations; client program")

/* ============================ C31 =================================== */
#define PI_ 4000
static struct { int freed, times; } item[PI_]; static void **obj; static int nobj, cb_on;
static void obj_free(void *p) { for (int k = 0; k < nobj; k++) if (obj[k] == p) { CHECK(!item[k].freed, "freed-twice", "a member was released twice"); item[k].freed = 1; sim_free(p); return; } sim_fail("foreign-free", "something that was never a member was released"); }
static struct { zt_ptr_array *a; void **m; int n; } P[2];
static int cmpp(const void *a, const void *b) { void *x = *(void **)a, *y = *(void **)b; return x < y ? -1 : x > y; }
static void ptr_ok(int i, const char *after) {
    CHECK(zt_ptr_array_length(P[i].a) == P[i].n, "count", "the array holds %d members after %s, %d are expected", zt_ptr_array_length(P[i].a), after, P[i].n); CHECK(P[i].a->size >= P[i].n && heap_is_live(P[i].a->array, (size_t)P[i].a->size * sizeof(void *)), "outside", "the array's members lie outside its memory after %s", after);
    for (int k = 0; k < P[i].n; k++) CHECK(zt_ptr_array_get_idx(P[i].a, k) == P[i].m[k], "wrong-member", "member %d of %d is wrong after %s", k, P[i].n, after);
    CHECK(zt_ptr_array_get_idx(P[i].a, -1) == (P[i].n ? P[i].m[P[i].n - 1] : NULL), "wrong-member", "the last member is wrong after %s", after); CHECK(zt_ptr_array_get_idx(P[i].a, P[i].n) == NULL, "wrong-member", "there is a member behind the last one after %s", after);
}
static void ptr_huge(void) {
    static char o[140000]; size_t h = heap_live(); zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); int n = 0, want = 2000 + (int)ch("huge-count", 68000), k;
    if (ch("grow-first", 2)) { k = (int)ch("expand", 66000); CHECK(zt_ptr_array_resize(a, k) == 0, "refused", "growing by %d was refused although memory was available", k); if (want < k) want = k + 40; }
    for (; n < want; n++) { if (n % 1000 == 0 && n) zt_ptr_array_resize(a, 1000); CHECK(zt_ptr_array_add(a, o + n) == 0, "refused", "adding a member was refused although memory was available"); }
    if (want < 66000 && ch("huge-append", 3) == 0) { zt_ptr_array *b = zt_ptr_array_init(NULL, NULL); for (k = 0; k < 500; k++) zt_ptr_array_add(b, o + n + k); CHECK(zt_ptr_array_cat(a, b) == 0, "refused", "appending an array was refused although memory was available"); n += 500; zt_ptr_array_free(b, 0); }
    CHECK(zt_ptr_array_length(a) == n, "count", "the array reports %d members, it holds %d", zt_ptr_array_length(a), n);
    for (k = 0; k < n; k++) CHECK(zt_ptr_array_get_idx(a, k) == o + k, "wrong-member", "member %d of %d is another one", k, n);
    zt_ptr_array_free(a, 0); CHECK(heap_live() == h, "leak", "releasing a large array left allocations"); probe("huge"); (void)h;
}
static void c31(void) {
    sim_step_limit(400000000, "hang"); sim_abort_cb = oom_abort; size_t live0 = heap_live(); int big = sim_large(), steps = 5 + (int)ch("steps", ch_p("long", 1, 4) ? 300 : 60), oom = ch_p("oom", 1, 4), na; cb_on = (int)ch("callback", 2); int dup = !cb_on && ch_p("duplicates", 1, 2), shared = dup, solo = !dup && ch_p("members-of-one-array", 1, 2), deep = ch_p("deep", 1, 10); na = cb_on ? 1 : 2; nobj = 0; memset(item, 0, sizeof item);
    obj = calloc(PI_, sizeof *obj); for (int i = 0; i < na; i++) { P[i].m = calloc(6000, sizeof(void *)); P[i].n = 0; P[i].a = zt_ptr_array_init(NULL, cb_on ? obj_free : NULL); CHECK(P[i].a, "refused", "no array could be created"); ptr_ok(i, "creation"); }
    sim_desc("steps=%d callback=%d duplicates=%d ", steps, cb_on, dup); if (oom) fault_set(F_ALLOC, 1, 10 + ch("oom-rate", 100), -1);
    if (big && ch_p("huge", 1, 4)) { fault_off(); ptr_huge(); }
    for (int s = 0; s < steps; s++) { int i = (int)ch("array", (uint32_t)na), r, k; static const uint32_t w[7] = { 10, 4, 2, 1, 1, 1, 1 };
        switch (ch_w("op", 7, w)) {
        case 0: { int n = 1 + (int)ch("burst", ch_p("big-burst", 1, 6) ? (big ? 1500 : 50) : 3); while (n-- && P[i].n < (big ? 4500 : 2000)) { void *p; if (dup && nobj && ch_p("again", 1, 3)) p = obj[ch("object", (uint32_t)nobj)]; else { if (nobj >= (big ? PI_ : 400)) break; p = obj[nobj++] = sim_alloc_nf(8); } r = zt_ptr_array_add(P[i].a, p); CHECK(r == 0, "refused", "adding a member was refused although memory was available"); P[i].m[P[i].n++] = p; } ev("count %ld", P[i].n, 0, 0); ptr_ok(i, "an addition"); if (P[i].n > 32) { probe("grown"); sim_nontrivial(); } break; }
        case 1: { void *p; int n = 0; if (P[i].n && !ch_p("absent", 1, 6)) { k = ch_p("last", 1, 3) ? P[i].n - 1 : (int)ch("index", (uint32_t)P[i].n); p = P[i].m[k]; } else p = (void *)&live0; for (k = 0; k < P[i].n; k++) n += P[i].m[k] == p; r = zt_ptr_array_del(P[i].a, p); ev("delete %ld occurrences: %ld", n, r, 0);
            CHECK((r == 0) == (n > 0), "wrong-result", "deleting a member that occurs %d times returned %d", n, r); CHECK(zt_ptr_array_length(P[i].a) == P[i].n - n, "count", "deleting a member that occurs %d times left %d of %d", n, zt_ptr_array_length(P[i].a), P[i].n); if (n > 1) probe("several-occurrences-deleted");
            int q = 0; void **old = P[i].m, **new = calloc(6000, sizeof *new); for (k = 0; k < P[i].n; k++) if (old[k] != p) old[q++] = old[k]; P[i].n = q; for (k = 0; k < q; k++) new[k] = zt_ptr_array_get_idx(P[i].a, k);
            void **x = calloc((size_t)q + 1, sizeof *x), **y = calloc((size_t)q + 1, sizeof *y); memcpy(x, old, sizeof *x * (size_t)q); memcpy(y, new, sizeof *y * (size_t)q); qsort(x, (size_t)q, sizeof *x, cmpp); qsort(y, (size_t)q, sizeof *y, cmpp); for (k = 0; k < q; k++) CHECK(x[k] == y[k], "wrong-member", "deleting a member changed which others the array holds"); free(x); free(y); free(P[i].m); P[i].m = new;
            if (cb_on && n) for (k = 0; k < nobj; k++) if (obj[k] == p) { CHECK(item[k].freed, "not-freed", "a deleted member was not released"); obj[k] = (void *)&item[k]; } ptr_ok(i, "a deletion"); break; }
        case 2: { int a = (int)ch_r("from", -3, P[i].n + 3), b = (int)ch_r("to", -3, P[i].n + 3), ok = a >= 0 && b >= 0 && a < P[i].n && b < P[i].n; if ((cb_on || solo) && ok && a != b) break; r = zt_ptr_array_move_idx_to_idx(P[i].a, a, b); CHECK((r == 0) == ok, "wrong-result", "moving member %d to %d of %d returned %d", a, b, P[i].n, r); if (ok) { P[i].m[b] = P[i].m[a]; shared |= a != b; } else probe("index-out-of-range"); ptr_ok(i, "moving a member"); break; }
        case 3: { if (na < 2) break; int d = (int)ch("onto-itself", 4) == 0 ? i : 1 - i; if (P[i].n + P[d].n > (deep ? 5000 : 500) || solo) break; shared = 1; r = zt_ptr_array_cat(P[d].a, P[i].a); CHECK(r == 0, "refused", "appending an array was refused although memory was available"); memcpy(P[d].m + P[d].n, P[i].m, sizeof(void *) * (size_t)P[i].n); P[d].n += P[i].n; if (d == i) probe("appended-to-itself"); else probe("appended"); ptr_ok(d, "appending"); ptr_ok(i, "being appended"); break; }
        case 4: { k = (int)ch_r("expand", -40, big ? 20000 : 200); r = zt_ptr_array_resize(P[i].a, k); CHECK((r == 0) == (k >= 0), "wrong-result", "growing by %d returned %d", k, r); ptr_ok(i, "growing"); break; }
        case 5: { void **c = calloc((size_t)P[i].n + 1, sizeof *c); r = zt_ptr_array_copy_data(P[i].a, (char **)c); CHECK(r == 0 && !memcmp(c, P[i].m, sizeof *c * (size_t)P[i].n), "wrong-member", "the copied members differ"); free(c); break; }
        default: { int idx[] = { -2, -1000, P[i].n + 1, 2000000000, -2000000000 }; CHECK(zt_ptr_array_get_idx(P[i].a, idx[ch("odd-index", 5)]) == NULL, "wrong-member", "an index out of range yields a member");
            switch (ch("nothing", 8)) { case 0: zt_ptr_array_add(P[i].a, NULL); r = -1; break; case 1: zt_ptr_array_add(NULL, obj); r = -1; break; case 2: r = zt_ptr_array_cat(P[i].a, NULL); break; case 3: r = zt_ptr_array_cat(NULL, P[i].a); break; case 4: r = zt_ptr_array_resize(NULL, 3); break; case 5: r = zt_ptr_array_copy_data(NULL, (char **)obj); break; case 6: r = zt_ptr_array_copy_data(P[i].a, NULL); break; default: r = zt_ptr_array_free(NULL, 1); } CHECK(r != 0, "accepted", "an operation on no array reported success"); ptr_ok(i, "an operation on nothing"); probe("nothing-given"); break; }
        } }
    for (int i = 0; i < na; i++) { int fm = cb_on || !shared ? (int)ch("free-members", 2) : 0; CHECK(zt_ptr_array_free(P[i].a, fm) == 0, "wrong-result", "releasing the array failed");
        for (int k = 0; k < P[i].n; k++) for (int q = 0; q < nobj; q++) if (!cb_on && fm && obj[q] == P[i].m[k]) { CHECK(!heap_is_live(obj[q], 8), "not-freed", "a member was not released with the array"); item[q].freed = 1; probe("members-released-with-the-array"); } if (cb_on) { for (int k = 0; k < P[i].n; k++) for (int q = 0; q < nobj; q++) if (obj[q] == P[i].m[k]) CHECK(item[q].freed == fm, "not-freed", fm ? "a member was not released with the array" : "a member was released although the caller keeps it"); } free(P[i].m); }
    for (int q = 0; q < nobj; q++) if (!item[q].freed) sim_free(obj[q]);
    fault_off(); if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after everything was released", heap_live() - live0); } free(obj);
}
SCN(C31, c31, "the array grew past its first size", "zt_ptr_array.c, zt_malloc.c", "heap with failing allocations; client program")
