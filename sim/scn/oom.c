/* C15: checked allocation and everything built on it, with allocation failures placed by the
 * seed (once, several times, or from one point on), one or more threads. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <zt.h>
#include <libzt/zt_bstream.h>
#include <libzt/zt_array.h>
#include <libzt/zt_ptr_array.h>
#include <libzt/zt_cstr.h>
#include <libzt/zt_base.h>
#include <libzt/zt_format.h>
#include <libzt/zt_llist.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_atexit.h>
#include <libzt/zt_opts.h>
#include <libzt/zt_log.h>
#include <libzt/zt_cfg.h>

static int base_syslog; static int mt;
static void oom_abort(void) {
    size_t n; stderr_text(&n);
    CHECK(fault_fired(F_ALLOC) || 0, "aborted", "the process was aborted although every allocation succeeded");
    CHECK(n > 0 || syslog_count() > base_syslog, "silent-abort", "an allocation failure aborted the process without any message");
    probe("aborted-with-message"); sim_nontrivial();
}
static void text(char *t, size_t l, uint32_t seed) { for (size_t i = 0; i < l; i++) { seed = seed * 1103515245u + 12345; t[i] = (char)("abcdefgh,/ Z"[(seed >> 16) % 12]); } t[l] = 0; }
static int failed(int f0, const char *op) { CHECK(fault_fired(F_ALLOC) > f0, "refused", "%s failed although memory was available", op); probe("reported-failure"); return 1; }
static void huge_abort(void) { size_t n; stderr_text(&n); CHECK(n > 0 || syslog_count() > base_syslog, "silent-abort", "an impossible allocation aborted the process without any message"); probe("aborted-impossible-size"); }

static void op_direct(void) {
    int large = ch_p("large", 1, 10); size_t n = 1 + ch("size", large ? 300000 : 3000); if (large) probe("large-size");
    switch (ch("call", 5)) {
    case 0: { unsigned char *p = zt_malloc_p(n); CHECK(p, "missing-allocation", "zt_malloc returned NULL"); CHECK(heap_is_live(p, n), "too-small", "zt_malloc(%zu) returned less memory", n); memset(p, 7, n); sim_free(p); break; }
    case 1: { size_t k = 1 + ch("size", large ? 3000 : 60); size_t m = 1 + n % 40; if (large && ch("wide", 2)) { size_t t = k; k = m; m = t; } unsigned char *p = zt_calloc_p(k, m); CHECK(p, "missing-allocation", "zt_calloc returned NULL"); CHECK(heap_is_live(p, k * m), "too-small", "zt_calloc(%zu, %zu) returned less memory", k, m); for (size_t i = 0; i < k * m; i++) CHECK(!p[i], "not-zeroed", "zt_calloc memory is not zeroed"); sim_free(p); break; }
    case 2: { size_t m = 1 + ch("size", large ? 300000 : 3000); unsigned char *p = sim_alloc_nf(n); for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i * 11 + 1);
        if (ch_p("from-null", 1, 5)) { sim_free(p); p = NULL; }
        int had = p != NULL; unsigned char *q = zt_realloc_p(p, m); CHECK(q, "missing-allocation", "zt_realloc returned NULL"); CHECK(heap_is_live(q, m), "too-small", "zt_realloc(%zu) returned less memory", m);
        if (had) for (size_t i = 0; i < n && i < m; i++) CHECK(q[i] == (unsigned char)(i * 11 + 1), "contents-lost", "zt_realloc did not keep byte %zu", i);
        sim_free(q); break; }
    case 3: { static char ts[4][100001]; char *t = ts[fiber_self() & 3]; text(t, ch("strlen", large ? 100000 : 255), 17); char *d = zt_strdup_p(t); CHECK(d, "missing-allocation", "zt_strdup returned NULL"); CHECK(heap_is_live(d, strlen(t) + 1) && !strcmp(d, t), "wrong-copy", "zt_strdup returned another string"); sim_free(d); break; }
    case 4: { /* impossible sizes: there is nothing to return */
        if (mt || !ch_p("impossible", 1, 3)) break;
        sim_abort_cb = huge_abort; int w = (int)ch("which", 7); struct el3 { char c[3]; };
        if (w == 0) zt_malloc_p(SIZE_MAX / 2); else if (w == 1) { size_t e = (size_t)2 << ch("element", 10); zt_calloc_p(SIZE_MAX / e + 1 + ch("more", 4), e); } else if (w == 2) { void *p = sim_alloc_nf(8); zt_realloc_p(p, SIZE_MAX / 2); }
        /* counts whose product with the size is no size */
        else if (w == 3) { if (ch("three", 2)) zt_malloc(struct el3, SIZE_MAX / 3 + 1 + ch("more", 4)); else zt_malloc(uint64_t, SIZE_MAX / 8 + 1 + ch("more", 4)); }
        else if (w == 4) { size_t e = 2 + ch("element", 300); zt_mallocs(e, SIZE_MAX / e + 1 + ch("more", 4)); }
        else if (w == 5) { void *p = sim_alloc_nf(8); zt_realloc(uint64_t, p, SIZE_MAX / 8 + 1 + ch("more", 4)); }
        else { static char t[41]; size_t l = 3 + ch("strlen", 37); text(t, l, 19); zt_cstr_dup(t, 0, -1, (ssize_t)(SIZE_MAX / l + 1 + ch("more", 4))); }
        sim_fail("too-small", "an impossible allocation was granted"); }
    }
}
static void op_array(void) {
    int lg = ch_p("large", 1, 12) ? 20 : 1; size_t n = 1 + ch("len", 60 * (uint32_t)lg), es = 1 + ch("elt", 12); char e[16], g[16]; int f0 = fault_fired(F_ALLOC);
    zt_array_t a = zt_array_new(n, es); if (!a) { failed(f0, "zt_array_new"); return; }
    for (size_t i = 0; i < n; i++) { memset(e, (int)i + 1, sizeof e); zt_array_put(a, i, e); }
    for (int r = 0; r < 3; r++) {
        size_t m = 1 + ch("len", 120 * (uint32_t)lg), old = n; zt_array_resize(a, m); n = m;
        CHECK(zt_array_length(a) == m, "wrong-data", "array length after resize");
        for (size_t i = 0; i < n; i++) { zt_array_elem_copy(a, i, g); for (size_t j = 0; j < es; j++) CHECK(g[j] == (i < old ? (char)(i + 1) : 0), "wrong-data", "array element %zu after resize from %zu to %zu", i, old, m); }
        for (size_t i = 0; i < n; i++) { memset(e, (int)i + 1, sizeof e); zt_array_put(a, i, e); }
    }
    zt_array_t c = zt_array_copy(a, n); for (size_t i = 0; i < n; i++) CHECK(!memcmp(zt_array_get(a, i), zt_array_get(c, i), es), "wrong-data", "array copy differs at %zu", i);
    zt_array_free(&a); zt_array_free(&c);
}
static void op_ptr_array(void) {
    int n = (int)ch("len", ch_p("large", 1, 12) ? 5000 : 120); int f0 = fault_fired(F_ALLOC); static char item[5008];
    zt_ptr_array *a = zt_ptr_array_init(NULL, NULL); if (!a) { failed(f0, "zt_ptr_array_init"); return; }
    int k = 0; for (int i = 0; i < n; i++) { f0 = fault_fired(F_ALLOC); if (zt_ptr_array_add(a, item + i)) failed(f0, "zt_ptr_array_add"); else k++; }
    CHECK(a->count == k, "wrong-data", "array holds %d of %d pointers added", a->count, k);
    if (k == n) for (int i = 0; i < n; i++) CHECK(zt_ptr_array_get_idx(a, i) == item + i, "wrong-data", "pointer %d of the array", i);
    zt_ptr_array_free(a, 0);
}
static void op_bstream(void) {
    zt_bstream_t b = zt_bstream_new(), c; int n = 1 + (int)ch("len", ch_p("large", 1, 12) ? 2000 : 40); b->flipendian = (int)ch("flip", 2);
    for (int i = 0; i < n; i++) { zt_bstream_write_uint32(b, 77u * (uint32_t)i); zt_bstream_write_uint8(b, (uint8_t)i); zt_bstream_write_uint64(b, 1234567ull * (uint64_t)i); }
    c = zt_bstream_clone(b); c->flipendian = b->flipendian; zt_bstream_rewind(c);
    for (int i = 0; i < n; i++) { uint32_t x; uint8_t y; uint64_t z; zt_bstream_read_uint32(c, &x); zt_bstream_read_uint8(c, &y); zt_bstream_read_uint64(c, &z); CHECK(x == 77u * (uint32_t)i && y == (uint8_t)i && z == 1234567ull * (uint64_t)i, "wrong-data", "byte stream value %d", i); }
    zt_bstream_free(&b); zt_bstream_free(&c);
}
static void op_format(void) {
    static char want[45000], s[20001]; size_t l = ch("strlen", ch_p("large", 1, 8) ? 20000 : 1400); text(s, l, 5); int d = (int)ch("num", 100000) - 5000;
    char *r = zt_fmt_strprintf("%s|%d|%s!", s, d, s); snprintf(want, sizeof want, "%s|%d|%s!", s, d, s);
    CHECK(r && heap_is_live(r, strlen(want) + 1) && !strcmp(r, want), "wrong-data", "formatted string differs (length %zu)", strlen(want)); sim_free(r);
}
static void op_cstr(void) {
    static char s[300], t[300], w[700]; size_t l = 1 + ch("strlen", 200), m = 1 + ch("strlen", 90); text(s, l, 3); text(t, m, 9); char *r = NULL; const char *op = ""; int f0 = fault_fired(F_ALLOC);
    switch (ch("cstr", 7)) {
    case 0: op = "zt_cstr_sub"; r = zt_cstr_sub(s, 0, -1); strcpy(w, s); break;
    case 1: op = "zt_cstr_dup"; r = zt_cstr_dup(s, 0, -1, 3); snprintf(w, sizeof w, "%s%s%s", s, s, s); break;
    case 2: op = "zt_cstr_cat"; r = zt_cstr_cat(s, 0, -1, t, 0, -1); snprintf(w, sizeof w, "%s%s", s, t); break;
    case 3: op = "zt_cstr_catv"; r = zt_cstr_catv(s, (ssize_t)0, (ssize_t)-1, t, (ssize_t)0, (ssize_t)-1, NULL); snprintf(w, sizeof w, "%s%s", s, t); break;
    case 4: op = "zt_cstr_reverse"; r = zt_cstr_reverse(s, 0, -1); for (size_t i = 0; i < l; i++) w[i] = s[l - 1 - i]; w[l] = 0; break;
    case 5: op = "zt_cstr_map"; r = zt_cstr_map(s, 0, -1, "abc", "ABC"); for (size_t i = 0; i <= l; i++) w[i] = s[i] >= 'a' && s[i] <= 'c' ? (char)(s[i] - 32) : s[i]; break;
    case 6: op = "zt_cstr_path_append"; { char u[300]; snprintf(u, sizeof u, "dir%zu", m); r = zt_cstr_path_append("base", u); snprintf(w, sizeof w, "base/%s", u); } break;
    }
    if (!r) { failed(f0, op); return; }
    CHECK(heap_is_live(r, strlen(w) + 1) && !strcmp(r, w), "wrong-data", "%s returned another string", op); sim_free(r);
}
static void op_split(void) {
    static char s[2000], c[2000]; size_t l = 1 + ch("strlen", 600); text(s + 1, l, 23); s[0] = 'x'; strcpy(c, s); int f0 = fault_fired(F_ALLOC); zt_ptr_array *a; int n = 0;
    switch (ch("split", 3)) {
    case 0: { a = zt_cstr_split(s, ",/"); if (!a) { failed(f0, "zt_cstr_split"); return; } char *sv, *p;
        for (p = strtok_r(c, ",/", &sv); p; p = strtok_r(NULL, ",/", &sv), n++) CHECK(n < a->count && !strcmp(zt_ptr_array_get_idx(a, n), p), "wrong-data", "piece %d of a split string is missing or wrong", n); zt_ptr_array *b = a;
        CHECK(b->count == n, "wrong-data", "a split string has %d pieces, not %d", b->count, n); zt_cstr_split_free(a); break; }
    case 1: { int keep = (int)ch("keep", 2); a = zt_cstr_cut(s, ',', keep); if (!a) { failed(f0, "zt_cstr_cut"); return; }
        for (char *p = s; (p = strchr(p, ',')); ) { p++; if (!*p) break; CHECK(n < a->count && !strcmp(zt_ptr_array_get_idx(a, n), p - keep), "wrong-data", "piece %d of a cut string is missing or wrong", n); n++; }
        CHECK(a->count == n, "wrong-data", "a cut string has %d pieces, not %d", a->count, n); zt_cstr_cut_free(a); break; }
    default: { a = zt_cstr_tok(s, ',', 0); if (!a) { failed(f0, "zt_cstr_tok"); return; }
        if (c[strlen(c) - 1] == ',') c[strlen(c) - 1] = 0;
        for (char *p; (p = strrchr(c, ',')) && p != c; ) { CHECK(n < a->count && !strcmp(zt_ptr_array_get_idx(a, n), c), "wrong-data", "prefix %d of a tokenised string is missing or wrong", n); n++; *p = 0; }
        CHECK(n < a->count && !strcmp(zt_ptr_array_get_idx(a, n), c), "wrong-data", "last prefix of a tokenised string is missing or wrong"); n++;
        CHECK(a->count == n, "wrong-data", "a tokenised string has %d prefixes, not %d", a->count, n); zt_cstr_cut_free(a); break; }
    }
}
static void op_base(void) {
    static unsigned char ins[4][70001]; unsigned char *in = ins[fiber_self() & 3]; size_t n = 1 + ch("len", ch_p("large", 1, 12) ? 70000 : 280); for (size_t i = 0; i < n; i++) in[i] = (unsigned char)(i * 37 + n);
    zt_base_definition_t *d[] = { zt_base64_rfc, zt_base64_uri, zt_base32_rfc, zt_base16_rfc }; zt_base_definition_t *b = d[ch("base", 4)];
    void *enc = NULL, *dec = NULL; size_t el = 0, dl = 0; int f0 = fault_fired(F_ALLOC);
    if (zt_base_encode(b, in, n, &enc, &el)) { failed(f0, "zt_base_encode"); return; }
    CHECK(enc && heap_is_live(enc, el), "missing-allocation", "encoding returned no buffer");
    if (zt_base_decode(b, enc, el, &dec, &dl)) { failed(f0, "zt_base_decode"); sim_free(enc); return; }
    CHECK(dec && dl == n && !memcmp(dec, in, n), "wrong-data", "decoding gives %zu bytes of %zu or other bytes", dl, n);
    sim_free(enc); sim_free(dec);
}
static int cmp_int(void *a, void *b) { return (long)a < (long)b; }
static void op_llist(void) {
    zt_llist l = NULL, r; int n = (int)ch("len", ch_p("large", 1, 12) ? 1000 : 40); for (long i = 0; i < n; i++) zt_llist_push((void *)(i + 1), &l);
    r = zt_llist_reverse(l); int k = 0; for (zt_pair *p = r; p; p = p->tail) CHECK((long)p->head == ++k, "wrong-data", "list element %d", k);
    CHECK(k == n, "wrong-data", "list has %d of %d elements", k, n); (void)cmp_int;
    while (l) { zt_pair *p = zt_llist_ppop(&l); sim_free(p); } while (r) { zt_pair *p = zt_llist_ppop(&r); sim_free(p); }
}
static void op_ez(void) {
    int f0 = fault_fired(F_ALLOC); zt_ez_mempool *z = zt_ez_mempool_init(NULL); if (!z) { failed(f0, "zt_ez_mempool_init"); return; }
    static char ts[4][2001]; char *t = ts[fiber_self() & 3]; text(t, ch("strlen", ch_p("large", 1, 8) ? 2000 : 90), 2); char *s = zt_ez_mempool_strdup(z, t); CHECK(!s || !strcmp(s, t), "wrong-data", "pool string differs");
    unsigned char *v = zt_ez_mempool_alloc(z, 100, NULL); if (v) { CHECK(heap_is_live(v, 100), "too-small", "pool memory too small"); memset(v, 1, 100); }
    zt_ez_mempool_destroy(z);
}
static void op_log(void) {
    int f0 = fault_fired(F_ALLOC); zt_log_ty *l = ch("log-kind", 2) ? zt_log_stderr(ZT_LOG_WITH_LEVEL | (ch("log-opts", 2) ? ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_DATE : 0)) : zt_log_syslog();
    if (!l) { failed(f0, "creating a logger"); return; }
    zt_log_lprintf(l, zt_log_err, "hello %d", 5); if (ch("strerror", 2)) zt_log_lstrerror(l, zt_log_err, 2, "no %s", "luck"); zt_log_close(l);
}
static void op_deflog(void) { zt_log_printf(zt_log_err, "default %d", 6); }
static void exit_noop(void *d) { (void)d; }
static void op_atexit(void) { if (!mt) zt_atexit(exit_noop, NULL); }
static void op_uuid(void) {
    zt_uuid_t u, v; char *s = NULL; int f0 = fault_fired(F_ALLOC); if (mt) return;
    if (zt_uuid4(&u)) { failed(f0, "zt_uuid4"); return; }
    if (zt_uuid_tostr(&u, &s, zt_uuid_std_fmt) < 0 || !s) { failed(f0, "zt_uuid_tostr"); return; }
    CHECK(strlen(s) == 36 && zt_uuid_fromstr(s, &v, zt_uuid_std_fmt) == 0 && !zt_uuid_cmp(&u, &v), "wrong-data", "identifier text does not read back"); sim_free(s);
}
static int opt_err(int code, char *fmt, ...) { (void)code; (void)fmt; return -1; }
static void op_opts(void) {
    char *name = NULL, **list = NULL; int num = 0; zt_opt_def_t d[] = { { 'n', "name", "x", zt_opt_string, &name, "" }, { 'l', "list", "x", zt_opt_string_array, &list, "" }, { 'i', "int", "x", zt_opt_flag_int, &num, "" }, { ZT_OPT_END() } };
    char *argv[] = { "prog", "--name=abc", "--list=one", "--list=two", "--int", "--list=three", NULL }; int argc = 6, f0 = fault_fired(F_ALLOC);
    int r = zt_opt_process_args(&argc, argv, d, NULL, opt_err);
    if (r < 0) { failed(f0, "option processing"); return; }
    CHECK(name && !strcmp(name, "abc"), "wrong-data", "option processing succeeded without the value of --name");
    CHECK(num == 1 && list && list[0] && list[1] && list[2] && !list[3] && !strcmp(list[0], "one") && !strcmp(list[1], "two") && !strcmp(list[2], "three"), "wrong-data", "option processing succeeded with a wrong or short list");
    for (int i = 0; i < 3; i++) sim_free(list[i]);
    sim_free(list); sim_free(name);
}
static void op_cfg(void) {
    static const char t[] = "a = 5\n[b]\nc = 'hello'\nd = b.c\ne = wplain\n"; char *s = NULL; long i = 0; int f0 = fault_fired(F_ALLOC);
    fs_put("/etc/oom.ini", t, sizeof t - 1); zt_cfg_ty *c = zt_cfg_ini("/etc/oom.ini", 0); if (!c) { failed(f0, "loading a configuration"); return; }
    CHECK(zt_cfg_get_int(c, "Global", "a", &i) >= 0 && i == 5 && zt_cfg_get_string(c, "b", "d", &s) >= 0 && !strcmp(s, "hello") && zt_cfg_get_string(c, "b", "e", &s) >= 0 && !strcmp(s, "wplain"), "wrong-data", "a loaded configuration lost a setting");
    s = "wother"; zt_cfg_set(c, "new", "v", &s, zt_cfg_string); CHECK(zt_cfg_get_string(c, "new", "v", &s) >= 0 && !strcmp(s, "wother"), "wrong-data", "a setting is missing after it was set");
    zt_cfg_close(c);
}
static void (*const OP[])(void) = { op_direct, op_array, op_ptr_array, op_bstream, op_format, op_cstr, op_split, op_base, op_llist, op_ez, op_log, op_deflog, op_atexit, op_uuid, op_opts, op_cfg };
#define NOP (sizeof OP / sizeof *OP)
static void *client(void *a) { int n = (int)(long)a; for (int i = 0; i < n; i++) { uint32_t o = ch("op", NOP); ev("op %ld", o, 0, 0); if (mt && o != 0 && o != 1 && o != 7 && o != 8 && o != 9 && o != 10 && o != 11) o = 0; OP[o](); } return NULL; }
static void c15(void) {
    sim_step_limit(30000000, "hang"); sim_abort_cb = oom_abort; fs_mkdirp("/etc");
    int nth = ch_p("threads", 1, 4) ? 2 + (int)ch("nthreads", 2) : 1, n = 1 + (int)ch("ops", 12), how; mt = nth > 1;
    if (ch_p("installed-logger", 1, 3)) { zt_log_logger(ch("log-kind", 2) ? zt_log_stderr(ZT_LOG_WITH_LEVEL) : zt_log_syslog()); probe("logger-installed"); }
    stderr_reset(); base_syslog = syslog_count();
    switch (how = (int)ch("oom-how", 5)) {
    case 0: break;
    case 1: fault_set(F_ALLOC, 1, 2 + ch("oom-rate", 60), 1); break;
    case 2: fault_set(F_ALLOC, 1, 2 + ch("oom-rate", 60), -1); break;
    case 3: fault_set(F_ALLOC, 1, 4 + ch("oom-rate", 10), 2 + (int)ch("oom-max", 4)); break;
    case 4: break;   /* persistent, from one point on */
    }
    sim_desc("threads=%d operations=%d oom=%d ", nth, n, how);
    if (mt) {
        if (how == 4) fault_set(F_ALLOC, 1, 1 + ch("oom-rate", 3), -1);
        int t[3]; for (int i = 0; i < nth; i++) t[i] = fiber_spawn(client, (void *)(long)n, "client"); for (int i = 0; i < nth; i++) fiber_join(t[i]);
    } else {
        int k = how == 4 ? (int)ch("good-ops", (uint32_t)n + 1) : n; client((void *)(long)k);
        if (how == 4) { fault_set(F_ALLOC, 1, 1, -1); client((void *)(long)(n - k + 1)); }
    }
    if (n > 4) sim_nontrivial();
}
SCN(C15, c15, "the process aborted with a message, or more than four operations were performed", "zt_malloc.c, zt_assert.c, zt_array.c, zt_ptr_array.c, zt_bstream.c, zt_format.c, zt_cstr.c, zt_base.c, zt_ez_mempool.c, zt_log*, zt_atexit.c, zt_uuid.c, zt_opts.c, zt_cfg", "allocator (with failures), stderr, syslog, client program (stub)")
