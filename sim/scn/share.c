/* C35: objects that several threads read and none changes: every query gives in every thread
 * what it gives when one thread asks alone. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <zt.h>
#include <libzt/zt_array.h>
#include <libzt/zt_bstream.h>
#include <libzt/zt_ptr_array.h>
#include <libzt/zt_cstr.h>
#include <libzt/zt_cfg.h>
#include <libzt/zt_buf.h>
#include <libzt/zt_table.h>
#include <libzt/zt_set.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_base.h>
#include <libzt/zt_format.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_tree.h>
#include <libzt/zt_hash.h>
#include <libzt/zt_sha1.h>
#include <libzt/zt_path.h>
#include <libzt/zt_llist.h>
void *c_ll_nth(zt_llist, int); zt_llist c_ll_nthtail(zt_llist, int), c_ll_push(void *, zt_llist *), c_ll_reverse(zt_llist); void c_ll_free(zt_llist);

typedef struct { uint32_t rng; uint64_t dig; } asker;
static uint32_t rn(asker *j, uint32_t n) { j->rng = j->rng * 1664525u + 1013904223u; return (j->rng >> 8) % n; }
static void D(asker *j, const void *p, size_t n) { const unsigned char *b = p; while (n--) { j->dig ^= *b++; j->dig *= 0x100000001b3ull; } j->dig ^= 0xff; j->dig *= 0x100000001b3ull; }
static void DI(asker *j, long v) { D(j, &v, sizeof v); }
static void DS(asker *j, const char *s) { if (s) D(j, s, strlen(s)); else DI(j, -99); }
#define NKM 500
#define MAXRAW 2000
static int NK, nel, rawn, nkl[NKM]; static size_t esz; static char *key[NKM]; static char keys[NKM][220];
typedef struct { zt_rbt_node n; int v; } tn; static tn TRN[NKM]; static zt_rbt_node *TR; static int ntr; static zt_llist LL; static int nll; static zt_bstream_t BS;
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { int x = ((tn *)a)->v, y = ((tn *)b)->v; return x < y ? -1 : x > y; }
static int hexline(void *c, size_t at, char *h, char *t) { asker *j = c; DI(j, (long)at); DS(j, h); DS(j, t); return 0; }
 static zt_table *T[3]; static zt_set *X[2]; static zt_cfg_ty *C; static zt_ptr_array *P; static zt_array_t A; static zt_buf_t *B; static zt_uuid_t U[3]; static char *S; static zt_ipv4_tbl *I; static unsigned char raw[MAXRAW]; static char enc[MAXRAW * 2]; static zt_mem_pool *M;
static int in_t[3][NKM], in_x[2][NKM], np; static unsigned char arr[600 * 40];
static unsigned long few(const void *k, size_t n, void *c) { (void)n; (void)c; return (unsigned long)((const char *)k)[1] & 3; }
static int walk(void *k, size_t n, void *d, size_t dn, void *p) { (void)d; (void)dn; asker *j = p; uint64_t o = j->dig; j->dig = 99; D(j, k, n); j->dig += o; return 0; }
static int swalk(void *d, void *p) { asker *j = p; uint64_t o = j->dig; j->dig = 99; DS(j, d); j->dig += o; return 0; }
static int stop3(void *k, size_t n, void *d, size_t dn, void *p) { (void)k; (void)n; (void)d; (void)dn; return ++*(int *)p >= 3 ? 77 : 0; }
static const char *const ON[] = { "table", "set", "set algebra", "configuration", "pointer array", "array", "buffer", "identifier", "text", "IPv4 table", "encoded text", "table iteration", "pool statistics", "format", "byte stream", "tree", "pair list", "table copy", "digest and hash", "hex dump", "parts of a text", "path" };
#define NO 22
static int only;
static void ask(asker *j) {
    int o = only < NO ? only : (int)rn(j, NO); char t[400]; char big[MAXRAW * 2];
    switch (o) {
    case 0: { int t3 = (int)rn(j, 3), k = (int)rn(j, NK); char q[220]; memset(q, 0, 220); strcpy(q, key[k]); errno = 0; char *d = zt_table_get(T[t3], q, nkl[k]); CHECK((d != NULL) == in_t[t3][k], "wrong-answer", "a key that is %sin the table is %sfound", in_t[t3][k] ? "" : "not ", d ? "" : "not "); if (d) CHECK(d == key[k] + 1, "wrong-answer", "a lookup gives another key's value"); else CHECK(errno == ENOENT, "wrong-answer", "a failed lookup does not say so"); break; }
    case 1: { int x = (int)rn(j, 2), k = (int)rn(j, NK); CHECK(!!zt_set_is_member(X[x], key[k], nkl[k]) == in_x[x][k], "wrong-answer", "membership is wrong"); DI(j, zt_set_is_subset(X[x], X[!x])); DI(j, zt_set_is_equal(X[0], X[1])); if (rn(j, 3) == 0) zt_set_for_each(X[x], swalk, j); break; }
    case 2: { zt_set *r = zt_set_init(zt_table_compare_string, NULL, NULL); CHECK(r, "refused", "no set could be created"); int w = (int)rn(j, 3), n = 0; if (w == 0) zt_set_union(r, X[0], X[1]); else if (w == 1) zt_set_intersection(r, X[0], X[1]); else zt_set_difference(r, X[0], X[1]); for (int k = 0; k < NK; k++) { int e = w == 0 ? in_x[0][k] | in_x[1][k] : w == 1 ? in_x[0][k] & in_x[1][k] : in_x[0][k] & !in_x[1][k]; n += e; CHECK(!!zt_set_is_member(r, key[k], nkl[k]) == e, "wrong-answer", "a set computed from two others is wrong"); } CHECK((int)zt_set_size(r) == n, "wrong-answer", "the size of a computed set is wrong"); zt_set_destroy(r); break; }
    case 3: { char b[8], v[8]; snprintf(b, 8, "b%d", (int)rn(j, 5)); snprintf(v, 8, "v%d", (int)rn(j, 5)); long i = -7; double d = -7; int bo = -7; char *s = NULL; DI(j, zt_cfg_get(C, b, v, &i, zt_cfg_int)); DI(j, i); DI(j, zt_cfg_get(C, b, v, &d, zt_cfg_float)); D(j, &d, sizeof d); DI(j, zt_cfg_get(C, b, v, &s, zt_cfg_string)); DS(j, s); DI(j, zt_cfg_get(C, b, v, &bo, zt_cfg_bool)); DI(j, bo); break; }
    case 4: { int k = (int)rn(j, (uint32_t)np + 3) - 1; void *m = zt_ptr_array_get_idx(P, k); CHECK(m == (k == -1 ? (np ? key[np - 1] : NULL) : k < np ? key[k] : NULL), "wrong-answer", "member %d of %d is wrong", k, np); char *c[NKM]; CHECK(zt_ptr_array_copy_data(P, c) == 0, "refused", "the members could not be copied"); for (k = 0; k < np; k++) CHECK(c[k] == key[k], "wrong-answer", "a copied member is wrong"); break; }
    case 5: { size_t k = rn(j, (uint32_t)nel), n = (size_t)nel / 2 + k; unsigned char v[40]; memset(v, 0, 40); zt_array_elem_copy(A, k, v); CHECK(!memcmp(v, arr + k * esz, esz) && !memcmp(zt_array_get(A, k), v, esz) && zt_array_length(A) == (size_t)nel && zt_array_size(A) == esz, "wrong-answer", "element %zu is wrong", k); zt_array_t c = zt_array_copy(A, n); CHECK(!memcmp(zt_array_data(c), arr, esz * (n < (size_t)nel ? n : (size_t)nel)), "wrong-answer", "a copy is wrong"); zt_array_free(&c); zt_bstream_t b = zt_bstream_new(); zt_bstream_write(b, (char *)arr, 2, 4, 0); zt_bstream_free(&b); break; }
    case 6: { size_t n = zt_buf_length(B); DI(j, (long)n); D(j, zt_buf_get(B), n); DI(j, (long)zt_buf_unused_sz(B)); zt_buf_t *o = zt_buf_new(); zt_buf_add(o, zt_buf_get(B), n); CHECK(zt_buf_length(o) == n && !memcmp(zt_buf_get(o), zt_buf_get(B), n), "wrong-answer", "a copy of a buffer differs"); zt_buf_free(o); break; }
    case 7: { int k = (int)rn(j, 3); zt_uuid_flags_t f[] = { zt_uuid_std_fmt, zt_uuid_short_fmt, zt_uuid_base62_fmt }; char *u = NULL; zt_uuid_flags_t ff = f[rn(j, 3)]; if (zt_uuid_tostr(&U[k], &u, ff) > 0 && u) { zt_uuid_t b; DS(j, u); CHECK(zt_uuid_fromstr(u, &b, ff) == 0 && zt_uuid_cmp(&b, &U[k]) == 0, "wrong-answer", "an identifier is not read back"); sim_free(u); } DI(j, zt_uuid_cmp(&U[0], &U[k])); break; }
    case 8: { char *r = NULL; switch (rn(j, 5)) { case 0: r = zt_cstr_sub(S, 3, (ssize_t)rn(j, 30)); break; case 1: r = zt_cstr_reverse(S, 0, -1); break; case 2: r = zt_cstr_cat(S, 0, -1, S, 0, 5); break; case 3: zt_cstr_basename(t, 100, S, NULL); DS(j, t); zt_cstr_dirname(t, 100, S); DS(j, t); break; default: { zt_ptr_array *a = zt_cstr_split(S, "/,"); if (a) { DI(j, a->count); for (int k = 0; k < a->count; k++) DS(j, zt_ptr_array_get_idx(a, k)); zt_cstr_split_free(a); } DI(j, zt_cstr_find(S, 0, -1, "Z")); DI(j, zt_cstr_any(S, 0, -1, "/,")); DI(j, zt_cstr_cmp(S, 0, -1, S, 2, -1)); } } DS(j, r); if (r) sim_free(r); break; }
    case 9: { snprintf(t, sizeof t, "10.%u.%u.%u/%u", rn(j, 4), rn(j, 4), rn(j, 256), 8 + rn(j, 25)); zt_ipv4_node *n = zt_ipv4_tbl_search_from_str(I, t); DI(j, n ? (long)n->addr->addr : -1); DI(j, n ? n->addr->bitlen : -1); break; }
    case 10: { size_t n = sizeof big; void *out = big; memset(big, 0, sizeof big); DI(j, zt_base_encode(zt_base64_rfc, raw, rawn - rn(j, 5), &out, &n)); DI(j, (long)n); D(j, big, n < sizeof big ? n : 0); n = sizeof big; memset(big, 0, sizeof big); out = big; DI(j, zt_base_decode(zt_base64_rfc, enc, strlen(enc), &out, &n)); CHECK(n == (size_t)rawn && !memcmp(big, raw, n), "wrong-answer", "shared text is decoded wrongly"); break; }
    case 11: { int w = (int)rn(j, 3), c = 0; zt_table_for_each(T[w], walk, j); DI(j, zt_table_for_each(T[w], stop3, &c)); DI(j, c); break; }
    case 12: { zt_mem_pool_stats s; memset(&s, 0, sizeof s); DI(j, zt_mem_pool_get_stats(M, &s)); DI(j, (long)s.pages); DI(j, (long)s.cached_pages); DI(j, (long)s.elt_size); CHECK(zt_mem_pool_get("shared") == M, "wrong-answer", "the pool is not found by its name"); break; }
    case 14: { zt_bstream_t c = zt_bstream_clone(BS); uint32_t v = 0; zt_bstream_read(c, (char *)&v, 1, 4, 0); DI(j, v); char x[24]; memset(x, 0, 24); int n = (int)rn(j, 24); zt_bstream_read(c, x, n, 1, 0); D(j, x, n); DI(j, zt_bstream_is_empty(BS)); zt_bstream_free(&c); break; }
    case 15: { tn p; memset(&p, 0, sizeof p); p.v = (int)rn(j, 2 * (uint32_t)ntr + 3) - 1; zt_rbt_node *r = zt_rbt_find(&TR, &p.n, tcmp); int odd = p.v & 1, has = !odd && p.v >= 0 && p.v < 2 * ntr; CHECK(!r == !has && (!r || ((tn *)r)->v == p.v), "wrong-answer", "looking up key %d in a tree is wrong", p.v); r = zt_rbt_nfind(&TR, &p.n, tcmp); int w = p.v < 0 ? 0 : p.v + odd; CHECK(w >= 2 * ntr ? !r : r && ((tn *)r)->v == w, "wrong-answer", "the first key not below %d is wrong", p.v); int n = 0; for (r = zt_rbt_min(&TR); r; r = zt_rbt_next(r), n++) CHECK(n < ntr && ((tn *)r)->v == 2 * n, "wrong-answer", "a walk over a tree is wrong at its %dth node", n); CHECK(n == ntr, "wrong-answer", "a walk over a tree visits %d of %d nodes", n, ntr); r = zt_rbt_max(&TR); CHECK(ntr ? r && ((tn *)r)->v == 2 * ntr - 2 : !r, "wrong-answer", "the largest node of a tree is wrong"); break; }
    case 16: { int k = (int)rn(j, (uint32_t)nll); CHECK(c_ll_nth(LL, k) == &TRN[k], "wrong-answer", "element %d of a list is wrong", k); zt_llist r = c_ll_reverse(LL); CHECK(c_ll_nth(r, nll - 1 - k) == &TRN[k], "wrong-answer", "a reversed copy of a list is wrong"); c_ll_free(r); r = c_ll_nthtail(LL, k); CHECK(k + 1 < nll ? r && c_ll_nth(r, 0) == &TRN[k + 1] : !r, "wrong-answer", "the tail of a list is wrong"); break; }
    case 17: { int w = (int)rn(j, 3), n = 0; zt_table *c = zt_table_init(NULL, zt_table_hash_string, zt_table_compare_string, rn(j, 20), 0, NULL); CHECK(c, "refused", "no table could be created"); CHECK(zt_table_copy(T[w], c) >= 0, "refused", "a table could not be copied"); for (int k = 0; k < NK; k++) { char *d = zt_table_get(c, key[k], nkl[k]); CHECK((d != NULL) == in_t[w][k] && (!d || d == key[k] + 1), "wrong-answer", "a copy of a table is wrong"); n += in_t[w][k]; } zt_table_destroy(c); DI(j, n); break; }
    case 18: { uint8_t dg[20]; zt_sha1_ctx c; int n = (int)rn(j, (uint32_t)rawn); zt_sha1_init(&c); zt_sha1_update(&c, raw, n); zt_sha1_update(&c, raw + n, rawn - n); zt_sha1_finalize(&c, dg); D(j, dg, 20); zt_sha1_data(raw, n, dg); D(j, dg, 20); char sx[41]; memset(sx, 120, 41); zt_sha1_tostr(dg, sx); CHECK(memchr(sx, 0, 41) == sx + 40, "wrong-answer", "the text of a digest is not terminated"); DS(j, sx); DI(j, (long)zt_hash64_buff(raw, n, 7)); DI(j, (long)zt_hash32_cstr((uint8_t *)S, 7)); zt_uuid_t u; zt_uuid5(S, strlen(S), UUID_NS_URL, &u); D(j, &u, sizeof u); break; }
    case 19: { DI(j, (long)zt_hexdump_str((char *)raw, rn(j, (uint32_t)rawn), hexline, j)); size_t h = zt_binary_to_hex(raw, 1 + rn(j, 40), t, 100); DI(j, (long)h); D(j, t, h); break; }
    case 20: { int cut = (int)rn(j, 2), keep = (int)rn(j, 2); zt_ptr_array *a = cut ? zt_cstr_cut(S, '/', keep) : zt_cstr_tok(S, '/', keep); if (a) { DI(j, a->count); for (int k = 0; k < a->count; k++) DS(j, zt_ptr_array_get_idx(a, k)); zt_cstr_cut_free(a); } char *r = zt_cstr_path_append(S, key[0]); DS(j, r); if (r) sim_free(r); DI(j, zt_cstr_abspath(S)); DI(j, (long)zt_cstr_rspn(S, "xyz.0")); DI(j, zt_cstr_upto(S, 0, -1, "/,")); DI(j, zt_cstr_rupto(S, 0, -1, "/,")); r = zt_cstr_map(S, 0, -1, "abc", "xyz"); DS(j, r); if (r) sim_free(r); break; }
    case 21: { char *r = zt_find_basedir("/etc/a/b/c", rn(j, 2) ? "shared.ini" : "none"); DS(j, r); if (r) sim_free(r); DI(j, zt_path_exists("/etc/shared.ini")); DI(j, zt_path_exists("/etc/none")); break; }
    default: { char *r = zt_fmt_strprintf("%s|%d|%.3f", S, (int)rn(j, 1000), rn(j, 1000) / 7.0); DS(j, r); sim_free(r); }
    }
}
static uint32_t seeds[4]; static int len[4]; static asker R[2][4]; static int nthr;
static void run1(asker *j, int w) { j->rng = seeds[w] * 2654435761u + 1; j->dig = 14695981039346656037ull; for (int k = 0; k < len[w]; k++) ask(j); }
static void *alone(void *v) { (void)v; for (int w = 0; w < nthr; w++) run1(&R[0][w], w); return NULL; }
static void *beside(void *v) { int w = (int)(intptr_t)v; run1(&R[1][w], w); return NULL; }
static void c35(void) {
    sim_step_limit(400000000, "hang"); fs_mkdirp("/etc"); size_t live0; nthr = 2 + (int)ch("threads", 3); only = (int)ch("object", NO + 8); int first = (int)ch("alone-first", 2); asker b0 = { ch("content", 1000) * 77 + 5, 0 }, *b = &b0;
    for (int w = 0; w < nthr; w++) { seeds[w] = ch("same-seed", 2) ? 4 : ch("seed", 1000); len[w] = 1 + (int)ch("queries", ch_p("long", 1, 5) ? 30 : 6); sim_sig(seeds[w]); } sim_sig((uint64_t)only << 20); int large = sim_large(); NK = 60; nel = 80; esz = 4; rawn = 50; int nnet = 12, nbuf = 300, ns = 59, long_keys = (int)ch("long-keys", 3) == 1; if (large) { NK = 60 + (int)ch("keys", NKM - 60); nel = 2 + (int)ch("elements", 598); esz = 1 + ch("element-size", 40); rawn = 50 + (int)ch("raw", MAXRAW - 60); nnet = 12 + (int)ch("nets", 150); nbuf = 300 + (int)ch("bytes", 9000); ns = 59 + (int)ch("text", 900); if (only > NO) only = (int)ch("object2", NO); probe("large"); }
    sim_desc("threads=%d object=%s ", nthr, only < NO ? ON[only] : "all"); zt_table *warm = zt_table_init("warm", zt_table_hash_string, zt_table_compare_string, 4, 0, NULL); zt_table_destroy(warm); live0 = heap_live();
    for (int k = 0; k < NK; k++) { key[k] = keys[k]; nkl[k] = snprintf(keys[k], 20, "%c%02d%c", 'a' + k % 3, k, 'A' + k % 26); if (long_keys) { int x = (int)rn(b, 190); memset(keys[k] + nkl[k], 'p', (size_t)x); nkl[k] += x; keys[k][nkl[k]] = 0; } }
    TR = NULL; ntr = 1 + (int)rn(b, (uint32_t)NK); for (int k = 0; k < ntr; k++) TRN[k].v = 2 * k; for (int k = ntr; k > 0; k--) { int x = (int)rn(b, (uint32_t)k); int y = TRN[x].v; TRN[x].v = TRN[k - 1].v; TRN[k - 1].v = y; } for (int k = 0; k < ntr; k++) CHECK(!zt_rbt_insert(&TR, &TRN[k].n, tcmp), "refused", "a tree refused a node");
    LL = NULL; nll = 1 + (int)rn(b, 40); for (int k = nll - 1; k >= 0; k--) c_ll_push(&TRN[k], &LL);
    BS = zt_bstream_new(); for (int k = 0; k < 20; k++) { uint32_t v = rn(b, 1u << 24); zt_bstream_write(BS, (char *)&v, 1, 4, 0); } zt_bstream_rewind(BS);
    for (int t = 0; t < 3; t++) { T[t] = zt_table_init("shared", t == 1 ? few : zt_table_hash_string, zt_table_compare_string, t == 2 ? 2 : 30, ZT_TABLE_SIZE_USE_HINT, NULL); CHECK(T[t], "refused", "no table could be created"); for (int k = 0; k < NK; k++) if ((in_t[t][k] = rn(b, 2))) CHECK(zt_table_set(T[t], key[k], nkl[k], key[k] + 1, 3) == 0, "refused", "no entry could be added"); }
    for (int t = 0; t < 2; t++) { X[t] = zt_set_init(zt_table_compare_string, NULL, NULL); CHECK(X[t], "refused", "no set could be created"); int dense = (int)rn(b, 3); for (int k = 0; k < NK; k++) if ((in_x[t][k] = rn(b, 3) <= (uint32_t)dense)) zt_set_insert(X[t], key[k], nkl[k]); }
    { char f[900]; size_t n = 0; for (int i = 0; i < 4; i++) { n += (size_t)snprintf(f + n, sizeof f - n, "[b%d]\n", i); for (int v = 0; v < 4; v++) switch (rn(b, 5)) { case 0: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = %d\n", v, (int)rn(b, 1000)); break; case 1: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = w%d text\n", v, (int)rn(b, 1000)); break; case 2: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = %d.5\n", v, (int)rn(b, 50)); break; case 3: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = true\n", v); break; default: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = b0.v0\n", v); } } fs_put("/etc/shared.ini", f, n); C = zt_cfg_ini("/etc/shared.ini", 0); CHECK(C, "refused", "the configuration could not be loaded"); }
    P = zt_ptr_array_init(NULL, NULL); np = (int)rn(b, (uint32_t)NK); for (int k = 0; k < np; k++) zt_ptr_array_add(P, key[k]);
    A = zt_array_new((size_t)nel, esz); for (size_t k = 0; k < (size_t)nel; k++) { for (size_t i = 0; i < esz; i++) arr[k * esz + i] = (unsigned char)rn(b, 256); zt_array_put(A, k, &arr[k * esz]); }
    B = zt_buf_new(); { static char t[9400]; size_t n = 1 + rn(b, (uint32_t)nbuf - 1); for (size_t k = 0; k < n; k++) t[k] = (char)rn(b, 256); zt_buf_add(B, t, n); if (rn(b, 2)) zt_buf_drain(B, rn(b, (uint32_t)n)); }
    for (int k = 0; k < 3; k++) for (unsigned i = 0; i < sizeof U[k]; i++) ((unsigned char *)&U[k])[i] = (unsigned char)rn(b, 256);
    S = sim_alloc_nf((size_t)ns + 1); for (int k = 0; k < ns; k++) S[k] = "abcdefgh,/ Zxyz.0"[rn(b, 17)]; S[ns] = 0;
    I = zt_ipv4_tbl_init(16); CHECK(I, "refused", "no IPv4 table could be created"); for (int k = 0; k < nnet; k++) { char t[40]; snprintf(t, sizeof t, "10.%u.%u.0/%u", rn(b, 4), rn(b, 4), 10 + rn(b, 23)); zt_ipv4_tbl_add_frm_str(I, t); }
    for (int k = 0; k < rawn; k++) raw[k] = (unsigned char)rn(b, 256); { size_t n = sizeof enc; void *o = enc; memset(enc, 0, sizeof enc); zt_base_encode(zt_base64_rfc, raw, rawn, &o, &n); enc[n] = 0; }
    M = zt_mem_pool_init("shared", 4, 24, NULL, NULL, 0); CHECK(M, "refused", "no pool could be created"); void *e1 = zt_mem_pool_alloc(M);
    if (first) fiber_join(fiber_spawn(alone, NULL, "alone")); else probe("first-use-concurrent");
    size_t live1 = heap_live(); int id[4]; for (int w = 0; w < nthr; w++) id[w] = fiber_spawn(beside, (void *)(intptr_t)w, "reader"); for (int w = 0; w < nthr; w++) fiber_join(id[w]);
    if (first) CHECK(heap_live() == live1, "leak", "%zd allocations are left after the queries", heap_live() - live1);
    if (!first) fiber_join(fiber_spawn(alone, NULL, "alone"));
    for (int w = 0; w < nthr; w++) CHECK(R[0][w].dig == R[1][w].dig, "wrong-answer", "thread %d's queries give other answers beside other threads than alone", w);
    probe(only < NO ? ON[only] : "all"); sim_nontrivial();
    c_ll_free(LL); zt_bstream_free(&BS); zt_mem_pool_release(&e1); zt_mem_pool_destroy(&M); zt_ipv4_tbl_destroy(I); sim_free(S); zt_buf_free(B); zt_array_free(&A); zt_ptr_array_free(P, 0); zt_cfg_close(C); zt_set_destroy(X[0]); zt_set_destroy(X[1]); for (int t = 0; t < 3; t++) zt_table_destroy(T[t]);
    if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after everything was released", heap_live() - live0); }
}
SCN(C35, c35, "two or more threads read the same objects", "zt_table.c, zt_set.c, zt_cfg.c, zt_ini.c, zt_ptr_array.c, zt_array.c, zt_buf.c, zt_uuid.c, zt_cstr.c, zt_ipv4_tbl.c, zt_base.c, zt_mem.c, zt_format.c", "threads, heap, file system, client program (stub)")
