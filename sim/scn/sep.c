/* C27: objects that belong to one thread each: whatever other threads do with theirs, every
 * operation gives what it gives when nothing else runs.  A job uses its own objects and its own
 * pseudo-random stream only; its outputs are folded into a digest, which must be the same alone
 * and beside others. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#define ZT_WITH_GC
#include <zt.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_gc.h>
#include <libzt/zt_bstream.h>
#include <libzt/zt_array.h>
#include <libzt/zt_ptr_array.h>
#include <libzt/zt_cstr.h>
#include <libzt/zt_base.h>
#include <libzt/zt_format.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_log.h>
#include <libzt/zt_cfg.h>
#include <libzt/zt_buf.h>
#include <libzt/zt_table.h>
#include <libzt/zt_set.h>
#include <libzt/zt_sha1.h>
#include <libzt/zt_hash.h>
#include <libzt/zt_random.h>
#include <libzt/zt_path.h>
#include <libzt/zt_progname.h>
#include <libzt/zt_tree.h>
#include <libzt/zt_threads.h>

typedef struct { uint32_t rng, seed; uint64_t dig; int who, kind, len, pass; } job;
static uint32_t rn(job *j, uint32_t n) { j->rng = j->rng * 1664525u + 1013904223u; return (j->rng >> 8) % n; }
static void D(job *j, const void *p, size_t n) { const unsigned char *b = p; while (n--) { j->dig ^= *b++; j->dig *= 0x100000001b3ull; } j->dig ^= 0xff; j->dig *= 0x100000001b3ull; }
static void DI(job *j, long v) { D(j, &v, sizeof v); }
static void DS(job *j, const char *s) { if (s) D(j, s, strlen(s)); else DI(j, -99); }
static void txt(job *j, char *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = "abcdefgh,/ Zxyz.0"[rn(j, 17)]; o[n] = 0; }
#define OWN(p, what) CHECK((p) != NULL, "refused", "%s failed although memory was available", what)

static void j_format(job *j) {
    char b[300];
    for (int k = 0; k < 1 + j->len; k++) {
        double f = (double)rn(j, 100000) / 7 - 5000; int prec = (int)rn(j, 12); char t[24]; txt(j, t, rn(j, 20)); char *s = NULL;
        switch (rn(j, 7)) {
        case 0: s = zt_fmt_strprintf("%.*f|%s", prec, f, t); break;
        case 1: s = zt_fmt_strprintf("%e %d", f, (int)rn(j, 1000) - 500); break;
        case 2: s = zt_fmt_strprintf("%.*g", prec, f); break;
        case 3: s = zt_fmt_strprintf("%-12s|%05d|%x|%o|%c", t, (int)rn(j, 99999), rn(j, 1u << 20), rn(j, 4096), 'a' + (int)rn(j, 26)); break;
        case 4: { size_t n = zt_fmt_sprintf(b, sizeof b, "%s %u %.3f", t, rn(j, 77777), f); DI(j, (long)n); DS(j, b); break; }
        case 5: { size_t n = zt_fmt_sprintf(b, sizeof b, "%10.4f%%", f); DI(j, (long)n); DS(j, b); break; }
        default: s = zt_fmt_strprintf("%s%s%s", t, t, t); break;
        }
        if (s) { DS(j, s); sim_free(s); }
    }
}
static int walk(void *k, size_t n, void *d, size_t dn, void *p) { (void)d; job *j = p; uint64_t o = j->dig; j->dig = 14695981039346656037ull; D(j, k, n); DI(j, (long)dn); j->dig += o; return 0; }
static void j_table(job *j) {
    static char keys[4][40][12]; char (*K)[12] = keys[j->who]; for (int i = 0; i < 40; i++) snprintf(K[i], 12, "k%d", i); char name[20]; snprintf(name, 20, "t%d", j->who);
    zt_table *t = zt_table_init(rn(j, 2) ? name : NULL, zt_table_hash_string, rn(j, 2) ? zt_table_compare_string : zt_table_compare_string_case, rn(j, 20), rn(j, 2) ? ZT_TABLE_SIZE_USE_HINT : 0, NULL); OWN(t, "creating a table");
    for (int k = 0; k < 4 * j->len; k++) { char *key = K[rn(j, 40)]; size_t n = strlen(key);
        switch (rn(j, 5)) { case 0: case 1: DI(j, zt_table_set(t, key, n, key + 1, rn(j, 9))); break; case 2: { char *d = zt_table_get(t, key, n); DI(j, d ? d - key : -1); break; } case 3: { char *d = zt_table_del(t, key, n); DI(j, d ? d - key : -1); break; } default: zt_table_for_each(t, walk, j); } }
    zt_table_for_each(t, walk, j); zt_table_destroy(t);
}
static int swalk(void *d, void *p) { job *j = p; uint64_t o = j->dig; j->dig = 14695981039346656037ull; DS(j, d); j->dig += o; return 0; }
static void j_set(job *j) {
    static char keys[4][24][8]; char (*K)[8] = keys[j->who]; zt_set *s[3]; for (int i = 0; i < 24; i++) snprintf(K[i], 8, "m%d", i);
    for (int i = 0; i < 3; i++) { s[i] = zt_set_init(zt_table_compare_string, NULL, NULL); OWN(s[i], "creating a set"); }
    for (int k = 0; k < 2 * j->len; k++) { char *key = K[rn(j, 24)]; zt_set *x = s[rn(j, 2)];
        switch (rn(j, 5)) { case 0: case 1: DI(j, zt_set_insert(x, key, strlen(key))); break; case 2: { void *d = key; DI(j, zt_set_remove(x, &d)); break; } case 3: DI(j, !!zt_set_is_member(x, key, strlen(key))); break; default: DI(j, !!zt_set_is_subset(s[0], s[1])); DI(j, !!zt_set_is_equal(s[0], s[1])); } }
    DI(j, rn(j, 2) ? zt_set_union(s[2], s[0], s[1]) : zt_set_intersection(s[2], s[0], s[1]));
    for (int i = 0; i < 3; i++) { DI(j, (long)zt_set_size(s[i])); zt_set_for_each(s[i], swalk, j); zt_set_destroy(s[i]); }
}
static void pstats(job *j, zt_mem_pool *p) { zt_mem_pool_stats s; memset(&s, 0, sizeof s); DI(j, zt_mem_pool_get_stats(p, &s)); DI(j, (long)s.pages); DI(j, (long)s.free_pages); DI(j, (long)s.page_allocs); DI(j, (long)s.page_frees); DI(j, (long)s.elt_size); DI(j, (long)s.elts_per_page); }
static void j_pool(job *j) {
    char name[20]; snprintf(name, 20, "pool%d", j->who); size_t es = 8 + rn(j, 200); zt_mem_pool *p = zt_mem_pool_init(name, (ssize_t)rn(j, 20), es, NULL, NULL, rn(j, 2) ? POOL_NEVER_FREE : 0); OWN(p, "creating a pool");
    DI(j, zt_mem_pool_get(name) == p);
    unsigned char *e[30]; int n = 0;
    for (int k = 0; k < 3 * j->len; k++) {
        if (n < 30 && rn(j, 5) < 3) { e[n] = zt_mem_pool_alloc(p); OWN(e[n], "taking an element"); memset(e[n], 'A' + n, es); n++; }
        else if (n) { int i = (int)rn(j, (uint32_t)n); void *x = e[i]; for (size_t q = 0; q < es; q++) CHECK(e[i][q] == e[i][0], "overlap", "an element of one thread's pool was overwritten"); zt_mem_pool_release(&x); e[i] = e[--n]; if (!rn(j, 6)) zt_mem_pool_release_free_pages(p); }
        pstats(j, p);
    }
    while (n) { void *x = e[--n]; zt_mem_pool_release(&x); }
    pstats(j, p); DI(j, zt_mem_pool_destroy(&p)); DI(j, p == NULL); DI(j, zt_mem_pool_get(name) == NULL);
}
static void j_group(job *j) {
    zt_mem_pool_desc d[4]; memset(d, 0, sizeof d); char nm[3][20]; for (int i = 0; i < 3; i++) { snprintf(nm[i], 20, "g%d-%d", j->who, i); d[i].name = nm[i]; d[i].elts = 1 + rn(j, 5); d[i].size = (size_t)16 << i; }
    zt_mem_pool_group *g = zt_mem_pool_group_init(d, 3); OWN(g, "creating a pool group"); void *e[20]; int n = 0;
    for (int k = 0; k < 2 * j->len && n < 20; k++) { size_t s = 1 + rn(j, 64); e[n] = zt_mem_pool_group_alloc(g, s); OWN(e[n], "taking an element"); memset(e[n], n, s); n++; }
    while (n) zt_mem_pool_group_release(&e[--n]);
    DI(j, zt_mem_pool_group_destroy(g));
}
static void j_ez(job *j) {
    zt_ez_mempool *z = zt_ez_mempool_init(NULL), *c[4]; OWN(z, "creating an ez pool"); int nc = 0; char t[60];
    for (int k = 0; k < 2 * j->len; k++) switch (rn(j, 4)) {
        case 0: if (nc < 4) { c[nc] = zt_ez_mempool_init(z); OWN(c[nc], "creating a subpool"); nc++; } break;
        case 1: txt(j, t, rn(j, 50)); DS(j, zt_ez_mempool_strdup(nc && rn(j, 2) ? c[rn(j, (uint32_t)nc)] : z, t)); break;
        case 2: { size_t n = 1 + rn(j, 100); unsigned char *v = zt_ez_mempool_alloc(z, n, NULL); OWN(v, "allocating from an ez pool"); memset(v, k, n); break; }
        default: if (nc && rn(j, 3) == 0) zt_ez_mempool_destroy(c[--nc]); }
    zt_ez_mempool_destroy(z);
}
typedef struct gob { zt_gc_collectable_t mark; int id; struct gob *r; job *j; } gob;
static void gmark(zt_gc_t *g, void *pd, void *v) { (void)pd; gob *o = v; if (o->r) zt_gc_mark(g, o->r); }
static void grel(zt_gc_t *g, void *pd, void **v) { (void)g; job *j = pd; gob *o = *v; CHECK(o->j == j, "foreign-object", "a collector released an object of another thread's collector"); DI(j, o->id); o->j = NULL; sim_free(o); *v = NULL; }
static void j_gc(job *j) {
    zt_gc_t *g = zt_gc_init(j, gmark, grel, (int)rn(j, 4), 1 + (int)rn(j, 5)); OWN(g, "creating a collector"); gob *root = sim_alloc_nf(sizeof *root), *o = NULL; memset(root, 0, sizeof *root); root->j = j; root->id = 1000;
    zt_gc_prepare(g, root); zt_gc_protect(g, root);
    for (int k = 0; k < 3 * j->len; k++) {
        gob *p = o; o = sim_alloc_nf(sizeof *o); memset(o, 0, sizeof *o); o->j = j; o->id = k; zt_gc_prepare(g, o); zt_gc_protect(g, o); (void)p;
        if (rn(j, 3)) zt_gc_unprotect(g, o);
        if (!rn(j, 5)) { DI(j, -1); zt_gc_collect(g, 1); }
    }
    DI(j, -2); zt_gc_destroy(g);
}
static void j_buf(job *j) {
    zt_buf_t *b = zt_buf_new(), *c = zt_buf_new(); char t[300]; OWN(b, "creating a buffer"); OWN(c, "creating a buffer");
    for (int k = 0; k < 3 * j->len; k++) { size_t n = rn(j, 290); switch (rn(j, 5)) { case 0: case 1: txt(j, t, n); DI(j, zt_buf_add(rn(j, 3) ? b : c, t, n)); break; case 2: { size_t r = zt_buf_remove(b, t, n); D(j, t, r); break; } case 3: DI(j, (long)zt_buf_drain(b, n / 2)); break; default: DI(j, zt_buf_add_buf(b, c)); } DI(j, (long)zt_buf_length(b)); }
    if (zt_buf_length(b)) D(j, zt_buf_get(b), zt_buf_length(b));
    zt_buf_free(b); zt_buf_free(c);
}
static void j_cfg(job *j) {
    char path[30], f[600]; size_t n = 0; snprintf(path, 30, "/etc/s%d.ini", j->who);
    for (int i = 0; i < 4; i++) { n += (size_t)snprintf(f + n, sizeof f - n, "[b%d]\n", i); for (int v = 0; v < 3; v++) switch (rn(j, 4)) { case 0: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = %d\n", v, (int)rn(j, 1000)); break; case 1: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = w%d text\n", v, (int)rn(j, 1000)); break; case 2: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = %d.5\n", v, (int)rn(j, 50)); break; default: n += (size_t)snprintf(f + n, sizeof f - n, "v%d = b0.v0\n", v); } }
    fs_put(path, f, n); zt_cfg_ty *c = zt_cfg_ini(path, 0); OWN(c, "loading a configuration");
    for (int k = 0; k < 2 * j->len; k++) { char b[8], v[8]; snprintf(b, 8, "b%d", (int)rn(j, 5)); snprintf(v, 8, "v%d", (int)rn(j, 4)); long i = -7; double d = -7; char *s = NULL;
        if (rn(j, 3) == 0) { i = (long)rn(j, 9999); DI(j, zt_cfg_set(c, b, v, &i, zt_cfg_int)); }
        DI(j, zt_cfg_get(c, b, v, &i, zt_cfg_int)); DI(j, i); DI(j, zt_cfg_get(c, b, v, &d, zt_cfg_float)); D(j, &d, sizeof d); DI(j, zt_cfg_get(c, b, v, &s, zt_cfg_string)); DS(j, s); }
    zt_cfg_close(c);
}
static void j_digest(job *j) {
    unsigned char in[700], d[20]; size_t n = rn(j, 690); for (size_t i = 0; i < n; i++) in[i] = (unsigned char)rn(j, 256); char hex[41]; zt_sha1_ctx x;
    zt_sha1_init(&x); for (size_t i = 0; i < n;) { size_t k = 1 + rn(j, 150); if (k > n - i) k = n - i; zt_sha1_update(&x, in + i, k); i += k; } zt_sha1_finalize(&x, d); D(j, d, 20); hex[40] = 0; DS(j, zt_sha1_tostr(d, hex)); zt_str_tosha1(hex, d); D(j, d, 20);
    zt_sha1_data(in, n, d); D(j, d, 20); DI(j, zt_hash32_buff(in, n, 7)); DI(j, (long)zt_hash64_buff(in, n, 9));
}
static void j_base(job *j) {
    zt_base_definition_t *df[] = { zt_base64_rfc, zt_base64_rfc_nopad, zt_base64_uri, zt_base32_rfc, zt_base32_hex, zt_base16_rfc };
    for (int k = 0; k < 1 + j->len / 2; k++) { unsigned char in[100]; size_t n = 1 + rn(j, 99); for (size_t i = 0; i < n; i++) in[i] = (unsigned char)rn(j, 256);
        zt_base_definition_t *b = df[rn(j, 6)]; void *e = NULL, *o = NULL; size_t el = 0, ol = 0; DI(j, zt_base_encode(b, in, n, &e, &el)); D(j, e, el); DI(j, zt_base_decode(b, e, el, &o, &ol)); D(j, o, ol); sim_free(e); sim_free(o); }
}
static void j_uuid(job *j) {
    for (int k = 0; k < 1 + j->len / 2; k++) { char v[30], *s = NULL; txt(j, v, 1 + rn(j, 28)); zt_uuid_t u, w; DI(j, zt_uuid5(v, strlen(v), (zt_uuid_ns)rn(j, 4), &u)); D(j, u.data.bytes, 16);
        zt_uuid_flags_t fl = rn(j, 2) ? zt_uuid_std_fmt : rn(j, 2) ? zt_uuid_short_fmt : zt_uuid_base62_fmt; DI(j, zt_uuid_tostr(&u, &s, fl)); DS(j, s); DI(j, zt_uuid_fromstr(s, &w, fl)); DI(j, zt_uuid_cmp(&u, &w)); sim_free(s); }
}
static void j_cstr(job *j) {
    for (int k = 0; k < 1 + j->len; k++) { char s[120], t[120], *r = NULL, o[200]; txt(j, s, 1 + rn(j, 100)); txt(j, t, 1 + rn(j, 30)); zt_ptr_array *a = NULL;
        switch (rn(j, 9)) {
        case 0: r = zt_cstr_sub(s, 0, -1); break; case 1: r = zt_cstr_dup(s, 0, -1, 2); break; case 2: r = zt_cstr_cat(s, 0, -1, t, 0, -1); break;
        case 3: r = zt_cstr_catv(s, (ssize_t)0, (ssize_t)-1, t, (ssize_t)0, (ssize_t)-1, NULL); break; case 4: r = zt_cstr_reverse(s, 0, -1); break; case 5: r = zt_cstr_map(s, 0, -1, "abc", "xyz"); break;
        case 6: a = zt_cstr_split(s, ",/"); if (a) { for (int i = 0; i < a->count; i++) DS(j, zt_ptr_array_get_idx(a, i)); zt_cstr_split_free(a); } break;
        case 7: zt_cstr_basename(o, sizeof o, s, NULL); DS(j, o); zt_cstr_dirname(o, sizeof o, s); DS(j, o); break;
        default: DI(j, zt_cstr_find(s, 0, -1, "ab")); DI(j, zt_cstr_any(s, 0, -1, "xyz")); DI(j, zt_cstr_cmp(s, 0, -1, t, 0, -1) > 0); }
        if (r) { DS(j, r); sim_free(r); } }
}
static void j_stream(job *j) {
    zt_bstream_t b = zt_bstream_new(); b->flipendian = (int)rn(j, 2); int n = 1 + j->len;
    for (int i = 0; i < n; i++) { zt_bstream_write_uint32(b, rn(j, 1u << 20)); zt_bstream_write_uint16(b, (uint16_t)rn(j, 60000)); zt_bstream_write_uint64(b, rn(j, 1u << 20) * 77777ull); }
    zt_bstream_rewind(b); for (int i = 0; i < n; i++) { uint32_t x; uint16_t y; uint64_t z; zt_bstream_read_uint32(b, &x); zt_bstream_read_uint16(b, &y); zt_bstream_read_uint64(b, &z); DI(j, x); DI(j, y); DI(j, (long)z); }
    zt_bstream_free(&b);
    zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); OWN(a, "creating a pointer array"); static char item[200]; for (int i = 0; i < 4 * n; i++) { if (rn(j, 4)) DI(j, zt_ptr_array_add(a, item + rn(j, 200))); else if (a->count) DI(j, zt_ptr_array_del(a, zt_ptr_array_get_idx(a, (int)rn(j, (uint32_t)a->count)))); } for (int i = 0; i < a->count; i++) DI(j, (char *)zt_ptr_array_get_idx(a, i) - item); zt_ptr_array_free(a, 0);
}
static void j_random(job *j) { static zt_random_state st[4]; zt_random_state *s = &st[j->who]; memset(s, 0, sizeof *s); zt_random_srandom(s, rn(j, 1u << 20)); for (int i = 0; i < 30 * j->len; i++) DI(j, zt_random_uint32(s)); }
static int oerr(int code, char *fmt, ...) { (void)code; (void)fmt; return -1; }
static void j_opts(job *j) {
    char *name = NULL; long num = 0; int flag = 0; char nm[40], nu[40]; snprintf(nm, 40, "--name=n%u", rn(j, 1000)); snprintf(nu, 40, "--num=%u", rn(j, 100000));
    zt_opt_def_t d[] = { { 'n', "name", "x", zt_opt_string, &name, "" }, { 'm', "num", "x", zt_opt_long, &num, "" }, { 'f', "flag", "x", zt_opt_flag_int, &flag, "" }, { ZT_OPT_END() } };
    char *argv[] = { "prog", nm, nu, rn(j, 2) ? "--flag" : "-f", rn(j, 3) ? "rest" : "--bogus", NULL }; int argc = 5; DI(j, zt_opt_process_args(&argc, argv, d, NULL, oerr)); DI(j, argc); DS(j, name); DI(j, num); DI(j, flag); sim_free(name);
}
static void j_log(job *j) {
    char path[30], out[4000]; snprintf(path, 30, "/var/s%d.log", j->who); zt_log_ty *l = zt_log_file(path, ZT_LOG_FILE_OVERWRITE, ZT_LOG_WITH_LEVEL); OWN(l, "creating a file logger"); zt_log_set_level(l, rn(j, 2) ? zt_log_err : zt_log_debug);
    for (int k = 0; k < j->len; k++) { char t[40]; txt(j, t, rn(j, 38)); if (rn(j, 3) == 0) zt_log_set_debug_info("file.c", (int)rn(j, 999), "func"); zt_log_lprintf(l, rn(j, 2) ? zt_log_err : zt_log_info, "%s %d", t, (int)rn(j, 5000)); }
    zt_log_set_debug_info(NULL, 0, NULL); zt_log_close(l); ssize_t n = fs_get(path, out, sizeof out); DI(j, n); if (n > 0) D(j, out, (size_t)n);
}
static void j_path(job *j) {
    char p[100]; for (int k = 0; k < 1 + j->len / 2; k++) { snprintf(p, sizeof p, "/srv/j%d/%u/%u/%u", j->who, j->seed, rn(j, 3), rn(j, 3)); DI(j, zt_mkdir(p, 0755, zt_mkdir_create_parent)); DI(j, fs_type(p)); snprintf(p, sizeof p, "/srv/j%d/%u/x", j->who, j->seed + 1); DI(j, zt_mkdir(p, 0755, 0)); }
}
static void j_base_dir(job *j) {
    char p[100], m[30]; snprintf(p, sizeof p, "/srv/b%d/t", j->who); fs_mkdirp(p); snprintf(p, sizeof p, "/srv/b%d/mark", j->who); fs_put(p, "", 0); snprintf(p, sizeof p, "/srv/b%d/t/mark", j->who); fs_put(p, "", 0);
    for (int k = 0; k < 1 + j->len / 2; k++) { snprintf(p, sizeof p, "/srv/b%d/%s/u%u", j->who, rn(j, 2) ? "t" : "s", rn(j, 100)); snprintf(m, sizeof m, rn(j, 3) ? "mark" : "none"); char *r = zt_find_basedir(p, m); DS(j, r); sim_free(r); }
}
typedef struct { job *j; void *tp; int v, seen; } pit; static long pool_leak; static int pools_used;
static void *tp_init(void *a) { return a; }
static void *tp_work(void *in, void *d) { pit *it = d; CHECK(it->tp == in, "foreign-item", "a worker of one pool handled an item given to another pool"); it->v = it->v * 3 + 1; return it; }
static long tp_run(job *j, pit *it, int n) {
    zt_threadpool *tp = zt_threadpool_init(2, 2, 0, 0); OWN(tp, "creating a thread pool"); DI(j, zt_threadpool_start(tp)); int got = 0;
    for (int i = 0; i < n; i++) { it[i] = (pit){ j, tp, (int)rn(j, 1000), 0 }; DI(j, zt_threadpool_insert_iput(tp, &it[i])); }
    long sum = 0; for (int tries = 0; got < n && tries < 20000; tries++) { pit *p = zt_threadpool_get_oput(tp); if (!p) { sim_idle(20); continue; } CHECK(p->j == j && !p->seen, "foreign-item", "a pool handed out an item that is not its own, or twice"); p->seen = 1; sum += p->v; got++; }
    DI(j, got); DI(j, sum); DI(j, zt_threadpool_kill(tp)); return got;
}
static void j_threads(job *j) { static pit it[4][2][64]; tp_run(j, it[j->who][j->pass], 1 + j->len * 2); pools_used++; }
typedef struct { zt_rbt n; int k; } tn;
static int tcmp(zt_rbt_node *a, zt_rbt_node *b) { int x = zt_rbt_data(a, tn, n)->k, y = zt_rbt_data(b, tn, n)->k; return x < y ? -1 : x > y; }
static void j_tree(job *j) {
    tn *N = sim_alloc_nf(sizeof *N * 40), f; zt_rbt *root = NULL; zt_rbt_node *e; char in[40] = { 0 }; memset(N, 0, sizeof *N * 40); memset(&f, 0, sizeof f);
    for (int i = 0; i < 40; i++) N[i].k = i * 7 % 40;
    for (int k = 0; k < 4 * j->len; k++) { int i = (int)rn(j, 40); if (!in[i]) { DI(j, zt_rbt_insert(&root, &N[i].n, tcmp) == NULL); in[i] = 1; } else if (rn(j, 2)) { zt_rbt_remove(&root, &N[i].n); in[i] = 0; } else { f.k = N[i].k; DI(j, zt_rbt_find(&root, &f.n, tcmp) == &N[i].n); } }
    if (root) zt_rbt_for_each(&root, e) DI(j, zt_rbt_data(e, tn, n)->k);
    sim_free(N);
}
static void j_array(job *j) {
    size_t n = 1 + rn(j, 30); zt_array_t a = zt_array_new(n, sizeof(uint32_t)); OWN(a, "creating an array"); for (size_t i = 0; i < n; i++) { uint32_t v = rn(j, 1u << 20); zt_array_put(a, i, &v); }
    zt_array_t c = zt_array_copy(a, n); for (int k = 0; k < j->len; k++) { size_t i = rn(j, (uint32_t)n); uint32_t v = rn(j, 1u << 20); if (rn(j, 2)) zt_array_put(a, i, &v); else { D(j, zt_array_get(a, i), 4); D(j, zt_array_get(c, i), 4); } }
    DI(j, (long)zt_array_length(a)); D(j, zt_array_data(a), n * 4); D(j, zt_array_data(c), n * 4); zt_array_free(&a); zt_array_free(&c);
}
static void j_ipv4(job *j) {
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(rn(j, 40)); OWN(t, "creating an IPv4 table"); char x[40];
    for (int k = 0; k < 4 * j->len; k++) { uint32_t a = rn(j, 4); int l = 1 + (int)rn(j, 32); snprintf(x, sizeof x, "%u.%u.%u.%u/%d", 10 + a, rn(j, 3), rn(j, 3), rn(j, 256), l); if (rn(j, 2)) { zt_ipv4_node *n = zt_ipv4_tbl_add_frm_str(t, x); OWN(n, "adding a network"); DI(j, (long)n->addr->addr); DI(j, n->addr->bitlen); } else { zt_ipv4_node *n = zt_ipv4_tbl_search_from_str(t, x); DI(j, n ? (long)n->addr->addr : -1); DI(j, n ? n->addr->bitlen : -1); } }
    zt_ipv4_tbl_destroy(t);
}
static void (*const JOB[])(job *) = { j_format, j_table, j_set, j_pool, j_group, j_ez, j_gc, j_buf, j_cfg, j_digest, j_base, j_uuid, j_cstr, j_stream, j_random, j_opts, j_log, j_path, j_base_dir, j_threads, j_tree, j_array, j_ipv4 };
static const char *const JN[] = { "formatting", "hash table", "set", "memory pool", "pool group", "ez pool", "collector", "buffer", "configuration", "digest", "base-N", "identifier text", "string", "byte stream and pointer array", "random", "options", "file logger", "directory", "base directory", "thread pool", "tree", "array", "IPv4 table" };
#define NJ (sizeof JOB / sizeof *JOB)
#define MAXPER 3
static job A[4][MAXPER], B[4][MAXPER]; static int per[4], nthr; static size_t live0;
static void run1(job *j) { int e = errno; j->rng = j->seed * 2654435761u + 1; j->dig = 14695981039346656037ull; JOB[j->kind](j); errno = e; }
static void *worker(void *a) { int w = (int)(long)a; for (int i = 0; i < per[w]; i++) { ev("thread %ld: %ld", w, B[w][i].kind, 0); run1(&B[w][i]); } return NULL; }
static void *alone(void *a) { (void)a; for (int w = 0; w < nthr; w++) for (int i = 0; i < per[w]; i++) run1(&A[w][i]); return NULL; }
static void undo_paths(void) { /* the two passes create the same directories */
    char p[120];
    for (int w = 0; w < 4; w++) for (uint32_t s = 0; s < 60; s++) for (int a = 2; a >= 0; a--) { for (int b = 2; b >= 0; b--) { snprintf(p, sizeof p, "/srv/j%d/%u/%d/%d", w, s, a, b); if (fs_type(p) == N_DIR) fs_rm(p); } snprintf(p, sizeof p, "/srv/j%d/%u/%d", w, s, a); if (fs_type(p) == N_DIR) fs_rm(p); }
    for (int w = 0; w < 4; w++) { for (uint32_t s = 0; s < 60; s++) { snprintf(p, sizeof p, "/srv/j%d/%u", w, s); if (fs_type(p) == N_DIR) fs_rm(p); } snprintf(p, sizeof p, "/srv/j%d", w); if (fs_type(p) == N_DIR) fs_rm(p); }
}
static void ended(int code) {
    (void)code; CHECK(heap_live() == live0 + (size_t)(pool_leak * pools_used), "leak", "%zd allocations are left after every thread's objects were destroyed and the process has ended", heap_live() - live0 - (size_t)(pool_leak * pools_used));
}
static void c27(void) {
    sim_step_limit(60000000, "hang"); struct zt_threadpool_callbacks cb = { NULL, NULL, tp_init, tp_work, NULL, NULL }; zt_threads_use_pthreads(); zt_threadpool_set_callbacks(NULL); zt_threadpool_set_callbacks(&cb); zt_threadpool_disable_oput_loop(); pool_leak = 0; pools_used = 0;
    fs_mkdirp("/etc"); fs_mkdirp("/var"); fs_mkdirp("/srv"); live0 = heap_live(); sim_exit_cb = ended;
    nthr = 2 + (int)ch("threads", 2); uint32_t lg = sim_large() ? 30 : 12; int ref_first = (int)ch("reference-first", 2), same = ch_p("same-kind", 1, 2), k0 = (int)ch("kind", NJ);
    for (int w = 0; w < nthr; w++) { per[w] = 1 + (int)ch("jobs", MAXPER);
        for (int i = 0; i < per[w]; i++) { job *j = &A[w][i]; j->who = w; j->kind = same && !i ? k0 : (int)ch("kind", NJ); j->seed = ch("job-seed", 50); j->len = 1 + (int)ch("length", ch_p("long", 1, 4) ? lg : 4); B[w][i] = *j; B[w][i].pass = 1; sim_sig((uint64_t)j->kind * 1000 + j->seed); } }
    { int tpj = 0; for (int w = 0; w < nthr; w++) for (int i = 0; i < per[w]; i++) tpj |= JOB[A[w][i].kind] == j_threads;
      if (tpj) { job t = { 0 }; pit none[1]; size_t l = heap_live(); tp_run(&t, none, 0); pool_leak = (long)(heap_live() - l); pools_used = 1; } } /* the library has no call that releases a pool */
    sim_desc("threads=%d first=%s ", nthr, JN[A[0][0].kind]);
    if (ref_first) fiber_join(fiber_spawn(alone, NULL, "alone")); else probe("first-use-concurrent");
    undo_paths();
    int id[4]; for (int w = 0; w < nthr; w++) id[w] = fiber_spawn(worker, (void *)(long)w, "worker"); for (int w = 0; w < nthr; w++) fiber_join(id[w]);
    undo_paths();
    if (!ref_first) fiber_join(fiber_spawn(alone, NULL, "alone"));
    for (int w = 0; w < nthr; w++) for (int i = 0; i < per[w]; i++) { CHECK(A[w][i].dig == B[w][i].dig, "interference", "thread %d's %s gives other results beside other threads than alone", w, JN[A[w][i].kind]); }
    for (int w = 0; w < nthr; w++) for (int i = 0; i < per[w]; i++) probe(JN[A[w][i].kind]);
    sim_nontrivial(); sim_exit(0);
}
SCN(C27, c27, "two or more threads ran jobs on their own objects at the same time", "all modules named in the probes", "threads, heap, file system, client program (stub)")
