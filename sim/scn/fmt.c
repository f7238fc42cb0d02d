/* C37 formatted output: whatever it is formatted to (a caller's function, a stream, a buffer, a growing text),
 * the sink gets exactly the text that is directed, also beside other threads and when storage or memory fails.
 * C38 hex dumps: source and printer of the caller, or the standard output. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdint.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include <zt.h>
#include <libzt/zt_format.h>
#include <libzt/zt_cstr.h>

FILE *sim_fopen(const char *, const char *); int sim_fclose(FILE *); extern FILE *sim_stdout;

/* ============================ C37 =================================== */
#define MAXT 40000
#define MAXD 60
enum { S_CALL, S_STREAM, S_STDOUT, S_BUF, S_TEXT, S_TOO_SMALL, NS };
static const char *const SN[] = { "caller's function", "stream", "standard output", "buffer", "text", "buffer that is too small" };
typedef struct { int code, width, prec, val; unsigned char fl[256]; double dv; void *pv; char text[40]; } rcall;    /* one expected call of a registered conversion */
typedef struct { char exp[MAXT + 4]; size_t n; char fmt[4 * 1024]; size_t fn; uint64_t slot[4 * MAXD]; int ns; uint64_t gp[8]; int ngp; double fp[8]; int nfp; rcall R[MAXD]; int nr, ri; char *str[MAXD]; int nstr; char *got; size_t ngot; char tail[20]; } fjob;
static fjob *FJ[4]; static fjob *cur[64]; static int shut, soft, expect_stop; static char regd[256]; /* 0 built in or none, else kind of our conversion */

static void mkap(va_list ap, uint64_t *slots) { struct { unsigned g, f; void *o, *r; } *t = (void *)ap; t->g = 48; t->f = 304; t->o = slots; t->r = NULL; }
static int vs(char *o, size_t n, const char *f, uint64_t *slots) { va_list ap; mkap(ap, slots); return vsnprintf(o, n, f, ap); }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
/* our conversions: they check how they are called and hand a text to one of the library's own helpers */
static size_t conv(int code, void *v, zt_fmt_put_f put, void *cl, unsigned char fl[256], ssize_t w, ssize_t p) {
    fjob *j = cur[fiber_self() & 63]; CHECK(j && j->ri < j->nr, "extra-call", "a registered conversion is called without a directive for it"); rcall *r = &j->R[j->ri++];
    CHECK(code == r->code, "wrong-conversion", "conversion '%c' was called with code '%c'", r->code, code);
    CHECK(!memcmp(fl, r->fl, 256), "wrong-flags", "the conversion for '%c' was given other flags than the directive has", code); CHECK(w == r->width && p == r->prec, "wrong-width", "the conversion for '%c' was given width %zd and precision %zd, the directive has %d and %d", code, w, p, r->width, r->prec);
    switch (regd[code]) { case 'd': CHECK(!memcmp(v, &r->dv, 8), "wrong-value", "a conversion got another number than was passed"); break; case 'p': case 's': CHECK(*(void **)v == r->pv, "wrong-value", "a conversion got another pointer than was passed"); break; default: CHECK(*(int *)v == r->val, "wrong-value", "a conversion got %d, %d was passed", *(int *)v, r->val); }
    probe("registered-conversion"); return regd[code] == 'i' ? zt_fmt_putd(r->text, strlen(r->text), put, cl, fl, w, p) : zt_fmt_puts(r->text, strlen(r->text), put, cl, fl, w, p);
}
static size_t conv2(int code, void *v, zt_fmt_put_f put, void *cl, unsigned char fl[256], ssize_t w, ssize_t p) { return conv(code, v, put, cl, fl, w, p); }
static void arg_i(fjob *j, int v) { j->slot[j->ns++] = (uint32_t)v; if (j->ngp < 8) j->gp[j->ngp] = (uint32_t)v; j->ngp++; }
static void arg_p(fjob *j, const void *v) { j->slot[j->ns++] = (uintptr_t)v; if (j->ngp < 8) j->gp[j->ngp] = (uintptr_t)v; j->ngp++; }
static void arg_d(fjob *j, double v) { j->slot[j->ns++] = dbits(v); if (j->nfp < 8) j->fp[j->nfp] = v; j->nfp++; }
static void fput(fjob *j, const char *s) { size_t n = strlen(s); memcpy(j->fmt + j->fn, s, n + 1); j->fn += n; }
static int any_int(void) { static const int v[] = { 0, 1, -1, 7, -42, 100, 65535, INT_MAX, INT_MIN, INT_MAX - 1, 8, -2147483647, 1000000 }; uint32_t q = ch("int", 16); return q < 13 ? v[q] : (int)(ch("any-int", 0x7ffffffe) * (q == 15 ? -1 : 1)); }
static double any_dbl(int zero) { static const double v[] = { 0.0, 1.0, -1.5, 3.14159265358979, -0.0, 1e300, 1e-7, 123456789.125, 0.5, -DBL_MAX, DBL_MIN, 99999.95, 2.5, 1e22 }; uint32_t q = ch("double", 18); if (q == 17 && !zero) return ch("nonfinite", 2) ? INFINITY : ch("nan", 2) ? -INFINITY : NAN; return q < 14 ? v[q] : (double)(int)ch("num", 100000) / (1 + (int)ch("den", 999)) * (q == 15 ? -1 : 1); }
static void lit(fjob *j, char c) { if (j->n >= MAXT) return; j->fmt[j->fn++] = c; j->fmt[j->fn] = 0; j->exp[j->n++] = c; }
static void gen_f(fjob *j, int large, int regs_only) {
    j->n = j->fn = 0; j->ns = j->ngp = j->nfp = j->nr = j->ri = j->nstr = 0; j->fmt[0] = 0; int nd = (int)ch("directives", large ? 50 : 6), wmax = large ? 900 : 40;
    for (int k = 0; k <= nd; k++) {
        int nl = (int)ch("literal", 6); if (ch_p("long-literal", 1, 15)) nl = (int)ch("literal-length", 300); if (j->fn + (size_t)nl > sizeof j->fmt - 120) nl = 0;
        for (int i = 0; i < nl; i++) { char c = (char)(1 + ch("byte", ch("high", 4) ? 126 : 255)); if (c == '%' || c == '~') { j->fmt[j->fn++] = "%~"[ch("escape", 2)]; j->fmt[j->fn] = 0; } lit(j, c); }
        if (k == nd || j->fn > sizeof j->fmt - 120 || j->n > MAXT - 4000) break;
        static const char cc[] = "dsxufcgeopR"; char c = cc[ch("conversion", 11)]; char ref[60] = "%", one[5]; unsigned char fl[256]; memset(fl, 0, sizeof fl); int reg = 0;
        if (c == 'R') { int a = 0; for (int i = 'A'; i <= 'F'; i++) a += regd[i] != 0; if (!a) c = 'd'; else { int w = (int)ch("which", (uint32_t)a); for (int i = 'A'; i <= 'F'; i++) if (regd[i] && !w--) c = (char)i; } }
        if (regd[(unsigned char)c]) reg = 1;
        int use_w = (int)ch("width-form", 3), use_p = (int)ch("precision-form", 3), w = 0, p = 0, na = 1 + (use_w == 2) + (use_p == 2); const char *ok = reg ? "-+ 0#" : strchr("defg", c) ? "-+ 0" : strchr("ouxp", c) ? "-0" : c == 's' ? "-#" : "-"; if (c == 'c' || c == 'p') { na -= use_p == 2; if (!reg) use_p = 0; else na = 1 + (use_w == 2) + (use_p == 2); }
        if (regs_only && (j->ngp + na > regs_only || j->nfp >= 8)) break;
        j->fmt[j->fn++] = ch_p("tilde", 1, 5) ? '~' : '%'; j->fmt[j->fn] = 0;
        int nf = (int)ch("flags", 4); if (ch("no-flags", 2) == 0) nf = 0; for (int i = 0; i < nf; i++) { char f = ok[ch("flag", (uint32_t)strlen(ok))]; fl[(unsigned char)f]++; one[0] = f; one[1] = 0; fput(j, one); }
        int star_w = INT_MIN, star_p = INT_MIN; char num[16];
        if (use_w) { w = 1 + (int)ch("width", ch_p("wide", 1, 8) ? (uint32_t)wmax * 4 : 20); if (use_w == 1) { snprintf(num, 16, "%d", w); fput(j, num); } else { if (ch("negative", 3) == 1) w = -w; if (ch("zero-width", 8) == 7) w = 0; fput(j, "*"); star_w = w; arg_i(j, w); } }
        if (use_p) { uint32_t pm = reg ? 30 : strchr("efg", c) ? (ch_p("deep", 1, 5) ? 100 : 12) : ch_p("deep", 1, 8) ? (uint32_t)wmax : 12; p = (int)ch("precision", pm); if (use_p == 1) { snprintf(num, 16, ".%d", p); fput(j, num); } else { if (ch("negative", 4) == 1) p = -1 - p; fput(j, ".*"); star_p = p; arg_i(j, p); } }
        one[0] = c; one[1] = 0; fput(j, one); (void)star_w; (void)star_p;
        /* the reference: the C library's own conversion with the same flags */
        char rf[12]; int q = 0; for (const char *f = "-+ 0"; *f; f++) if (fl[(unsigned char)*f]) rf[q++] = *f; rf[q] = 0;
        uint64_t s[4]; int sn = 0; strcat(ref, rf); if (use_w) { strcat(ref, "*"); s[sn++] = (uint32_t)w; } if (use_p) { strcat(ref, ".*"); s[sn++] = (uint32_t)p; }
        size_t room = MAXT - j->n; int added = -1; char *o = j->exp + j->n;
        if (reg) {
            rcall *r = &j->R[j->nr++]; memset(r, 0, sizeof *r); r->code = c; r->width = use_w ? w : INT_MIN; r->prec = use_p ? p : INT_MIN; memcpy(r->fl, fl, 256);
            switch (regd[(unsigned char)c]) { case 'd': r->dv = any_dbl(0); arg_d(j, r->dv); break; case 'p': case 's': r->pv = &regd[ch("object", 200)]; arg_p(j, r->pv); break; default: r->val = any_int(); arg_i(j, r->val); }
            if (regd[(unsigned char)c] == 'i') { snprintf(r->text, 40, ch("plus", 3) == 1 && r->val >= 0 ? "+%d" : "%d", r->val); if (r->text[0] == '+' && !strchr(rf, '+')) { memmove(ref + 2, ref + 1, strlen(ref)); ref[1] = '+'; } strcat(ref, "d"); s[sn++] = (uint32_t)r->val; }
            else { int tl = (int)ch("text-length", 30); for (int i = 0; i < tl; i++) r->text[i] = (char)('a' + (i * 7 + k) % 26); strcpy(ref, fl['-'] ? "%-" : "%"); if (use_w) strcat(ref, "*"); if (use_p) strcat(ref, ".*"); strcat(ref, "s"); s[sn++] = (uintptr_t)r->text; }
            added = vs(o, room, ref, s);
        } else switch (c) {
        case 'd': case 'o': case 'u': case 'x': { int v = any_int(); arg_i(j, v); s[sn++] = (uint32_t)v; strcat(ref, one); added = vs(o, room, ref, s); break; }
        case 'c': { int v = (int)ch("char", 256); arg_i(j, v); s[sn++] = (uint32_t)v; strcat(ref, one); added = vs(o, room, ref, s); break; }
        case 'p': { void *v = ch("null", 4) ? (void *)((uintptr_t)ch("address", 0x7fffffff) << ch("shift", 33)) : NULL; arg_p(j, v); s[sn++] = (uintptr_t)v; strcat(ref, "lx"); added = vs(o, room, ref, s); break; }
        case 's': { size_t n = ch("string", 20); if (ch_p("long-string", 1, 8)) n = ch("string-length", large ? 3000 : 400); char *t = sim_alloc_nf(n + 1); for (size_t i = 0; i < n; i++) t[i] = (char)(1 + (i * 37 + (size_t)k * 11) % 255); t[n] = 0; j->str[j->nstr++] = t; arg_p(j, t); s[sn++] = (uintptr_t)t;
            if (fl['#']) { size_t skip = use_w ? (size_t)abs(w) : 0; if (skip >= n) skip = 0; size_t m = n - skip; if (use_p && p >= 0 && (size_t)p < m) m = (size_t)p; memcpy(o, t + skip, m); added = (int)m; probe("skip-flag"); } else { strcat(ref, "s"); added = vs(o, room, ref, s); } break; }
        default: { double v = any_dbl(fl['0']); arg_d(j, v); s[sn++] = dbits(v); strcat(ref, one); added = vs(o, room, ref, s); break; }
        }
        CHECK(added >= 0 && (size_t)added < room, "model", "the reference text is too long"); j->n += (size_t)added;
    }
    j->exp[j->n] = 0;
}
static int sink(int c, void *v) { fjob *j = v; CHECK(j->ngot < j->n, "extra-text", "more is printed than the %zu characters directed", j->n); j->got[j->ngot++] = (char)c; return 1; }
static void same(fjob *j, const char *t, size_t n, int s) {
    size_t i = 0; while (i < n && i < j->n && t[i] == j->exp[i]) i++;
    CHECK(i == n && n == j->n, "wrong-text", "formatting to a %s with format \"%.60s\" gives %zu characters, not %zu, and differs at %zu: \"%.20s\", not \"%.20s\"", SN[s], j->fmt, n, j->n, i, i < n ? t + i : "", j->exp + i);
}
#define FPS j->fp[0], j->fp[1], j->fp[2], j->fp[3], j->fp[4], j->fp[5], j->fp[6], j->fp[7]
static int sub(const char *a, size_t n, const char *b, size_t m) { size_t i = 0; for (size_t k = 0; k < m && i < n; k++) if (a[i] == b[k]) i++; return i == n; }
static void one_f(fjob *j, FILE *f, char *filed, size_t *nfiled, int s, int large) {
    /* the calls with an argument list of their own take their first values of each class from registers */
    int fixed = s == S_STDOUT || s == S_STREAM || ch("fixed", 2); gen_f(j, large && !fixed, fixed ? 3 : 0); va_list ap; size_t r; int me = fiber_self() & 63; cur[me] = j; mkap(ap, j->slot); j->ngot = 0;
    switch (s) {
    case S_CALL: j->got = sim_alloc_nf(j->n + 1); r = fixed ? zt_fmt_format(sink, j, j->fmt, j->gp[0], j->gp[1], j->gp[2], FPS) : zt_fmt_vformat(sink, j, j->fmt, ap); CHECK(r == j->n, "wrong-count", "%zu characters were printed and %zu reported", j->n, r); same(j, j->got, j->ngot, s); sim_free(j->got); break;
    case S_STREAM: case S_STDOUT: r = s == S_STREAM ? zt_fmt_fprintf(f, j->fmt, j->gp[0], j->gp[1], j->gp[2], 0, FPS) : zt_fmt_printf(j->fmt, j->gp[0], j->gp[1], j->gp[2], 0, FPS); if (shut) CHECK(r <= j->n, "wrong-count", "%zu characters were directed and %zu reported", j->n, r); else CHECK(r == j->n, "wrong-count", "%zu characters were printed and %zu reported", j->n, r); if (*nfiled + j->n < 4 * MAXT) { memcpy(filed + *nfiled, j->exp, j->n); *nfiled += j->n; } break;
    case S_BUF: case S_TOO_SMALL: { size_t sz = s == S_BUF ? j->n + 1 + (ch("exact", 2) ? 0 : ch("spare", 300)) : 1 + ch("size", (uint32_t)j->n + 1); if (s == S_TOO_SMALL && sz > j->n) sz = j->n; if (!sz) break; char *b = sim_alloc_nf(sz); memset(b, 'Z', sz); if (s == S_TOO_SMALL) expect_stop = 1; r = fixed ? zt_fmt_sprintf(b, sz, j->fmt, j->gp[0], j->gp[1], j->gp[2], FPS) : zt_fmt_vsprintf(b, sz, j->fmt, ap); CHECK(s == S_BUF, "not-stopped", "a text of %zu characters was printed to a buffer of %zu", j->n, sz); CHECK(r == j->n, "wrong-count", "%zu characters were printed and %zu reported", j->n, r); CHECK(!b[j->n], "unterminated", "the text in the buffer is not terminated"); same(j, b, j->n, s); for (size_t i = j->n + 1; i < sz; i++) CHECK(b[i] == 'Z', "extra-text", "the buffer is written beyond the text"); sim_free(b); break; }
    default: { char *t = fixed ? zt_fmt_strprintf(j->fmt, j->gp[0], j->gp[1], j->gp[2], 0, FPS) : zt_fmt_vstrprintf(j->fmt, ap); CHECK(t && heap_is_live(t, j->n + 1), "bad-memory", "the text is not in memory of its own"); CHECK(!t[j->n], "unterminated", "the text is not terminated"); same(j, t, j->n, s); sim_free(t); break; }
    }
    CHECK(j->ri == j->nr, "missing-call", "%d of %d registered conversions were not called", j->nr - j->ri, j->nr); cur[me] = NULL; while (j->nstr) sim_free(j->str[--j->nstr]); probe(SN[s]); if (j->n > 255) probe("long-text");
    sim_sig(j->n * 8 + (uint64_t)s);
}
static char filed[4][4 * MAXT], outd[4 * MAXT]; static size_t nfiled[4], noutd; static int multi, lg;
static void *fthread(void *v) {
    int w = (int)(intptr_t)v, calls = 1 + (int)ch("calls", 5); FILE *f = NULL; char path[20]; snprintf(path, sizeof path, "/tmp/out%d", w); 
    while (calls-- > 0) { int s = (int)ch("sink", 5); if (s == S_STDOUT && multi) s = S_BUF; if (s == S_STREAM && !f) { f = sim_fopen(path, "w"); if (!f) continue; } one_f(FJ[w], f, s == S_STDOUT ? outd : filed[w], s == S_STDOUT ? &noutd : &nfiled[w], s, lg); }
    if (f) { sim_fclose(f); static char back[4][4 * MAXT + 1]; ssize_t n = fs_get(path, back[w], 4 * MAXT); CHECK(n >= 0, "no-file", "the file is missing"); if (shut) CHECK(sub(back[w], (size_t)n, filed[w], nfiled[w]), "wrong-text", "the file holds something that was not printed"); else CHECK((size_t)n == nfiled[w] && !memcmp(back[w], filed[w], (size_t)n), "wrong-text", "%zu characters were printed to a stream and the file holds %zd, or others", nfiled[w], n); }
    return NULL;
}
static void f_stop(void) { CHECK(expect_stop || fault_fired(F_ALLOC), "aborted", "the process was stopped although the text fits and memory is available"); probe(expect_stop ? "stopped-instead-of-overflow" : "stopped-out-of-memory"); }
static void c37(void) {
    sim_step_limit(60000000, "hang"); sim_abort_cb = f_stop; zt_log_set_debug_info(NULL, 0, NULL); zt_log_printf(zt_log_err, "start\n"); size_t live = heap_live();
    int nt = 1 + (int)ch("threads", 3), regs = (int)ch("registrations", 5), id[4]; multi = nt > 1; lg = sim_large(); for (int w = 0; w < nt; w++) { FJ[w] = calloc(1, sizeof *FJ[w]); }
    zt_fmt_ty in[256]; memset(in, 0, sizeof in);
    while (regs-- > 0) { int c = 'A' + (int)ch("code", 6), t = "iudps"[ch("type", 5)]; zt_fmt_ty f = ch("variant", 2) ? conv2 : conv, o = zt_fmt_register(c, f, (unsigned char)t); CHECK(o == in[c], "wrong-conversion", "registering a conversion does not return the one that was there"); in[c] = f; regd[c] = (char)t; }
    if (ch_p("replace-built-in", 1, 6)) { zt_fmt_ty o = zt_fmt_register('u', conv, 'i'); CHECK(o && o != conv, "wrong-conversion", "registering a conversion does not return the one that was there"); regd['u'] = 'i'; if (ch("restore", 2)) { CHECK(zt_fmt_register('u', o, 'u') == conv, "wrong-conversion", "registering a conversion does not return the one that was there"); regd['u'] = 0; probe("restored"); } }
    int faults = (int)ch("faults", 4); if (faults == 1) { shut = 1; fault_set(F_WRITE_EIO, 1, 1 + ch("rate", 4), -1); fault_set(F_WRITE_ENOSPC, 1, 2 + ch("rate", 4), -1); } if (faults == 2) { soft = 1; fault_set(F_WRITE_SHORT, 1, 1 + ch("rate", 3), -1); } if (faults == 3 && ch("oom", 2)) fault_set(F_ALLOC, 1, 2 + ch("rate", 40), 1);
    sim_desc("threads=%d faults=%d%s ", nt, faults, lg ? " large" : ""); sim_nontrivial();
    for (int w = 0; w < nt; w++) id[w] = fiber_spawn(fthread, (void *)(intptr_t)w, "printer"); for (int w = 0; w < nt; w++) fiber_join(id[w]);
    int stop = nt == 1 && ch_p("too-small", 1, 6); size_t n; const char *t = stdout_text(&n); fault_off(); t = stdout_text(&n);
    if (noutd) { if (shut) CHECK(sub(t, n, outd, noutd), "wrong-text", "the standard output holds something that was not printed"); else CHECK(n == noutd && !memcmp(t, outd, n), "wrong-text", "%zu characters were printed to the standard output and it holds %zu, or others", noutd, n); }
    CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
    if (stop) { one_f(FJ[0], NULL, NULL, NULL, S_TOO_SMALL, 0); }
}
SCN(C37, c37, "something was formatted", "zt_format.c, zt_malloc.c, zt_assert.c", "streams on simulated files, heap with failing allocations, threads, sinks and conversions of the program (stub)")

/* ============================ C38 =================================== */
#define MAXB 70000
typedef struct { unsigned char *b; size_t n, pos, lines; int kind, def, fail, failed, ended, past; } hjob;
static hjob HJ[4];
static int hsource(void *v) { hjob *j = v; if (j->pos >= j->n) { j->past++; CHECK(j->past < 40, "endless", "the source is asked again and again after its end"); return EOF; } return j->b[j->pos++]; }
static int printable(int c) { return c >= 32 && c < 127; }
static void line_of(hjob *j, size_t k, char *hex, char *txt) { size_t n = j->n - 16 * k; if (n > 16) n = 16; for (size_t i = 0; i < n; i++) { unsigned char c = j->b[16 * k + i]; sprintf(hex + 3 * i, "%02X ", c); txt[i] = printable(c) ? (char)c : '.'; } hex[3 * n] = 0; txt[n] = 0; }
static int hsink(void *v, size_t addr, char *hex, char *txt) {
    hjob *j = v; CHECK(!j->failed, "called-after-failure", "the printer is called again after it failed"); CHECK(!j->ended, "called-after-end", "the printer is called again after the end");
    if (!hex) { CHECK(!txt && j->lines * 16 >= j->n, "early-end", "the dump ends after %zu lines of %zu bytes", j->lines, j->n); j->ended = 1; return ch("end-answer", 2) ? 0 : -1; }
    CHECK(j->lines * 16 < j->n, "extra-line", "there are more lines than %zu bytes make", j->n); CHECK(addr == 16 * j->lines, "wrong-address", "line %zu has address %zu", j->lines, addr); char h[60], t[20]; line_of(j, j->lines, h, t);
    CHECK(!strcasecmp(hex, h), "wrong-line", "line %zu is '%s', not '%s'", j->lines, hex, h); CHECK(!strcmp(txt, t), "wrong-line", "the text of line %zu is '%s', not '%s'", j->lines, txt, t);
    if (j->fail == (int)j->lines++) { j->failed = 1; probe("printer-failed"); return -1; } return (int)ch("answer", 3);
}
static void *hthread(void *v) {
    hjob *j = v; zt_hexdump_output o = j->def ? (ch("null-printer", 2) ? NULL : zt_hexdump_default_printer) : hsink; unsigned char *c = malloc(j->n + 1); memcpy(c, j->b, j->n);
    size_t r = j->kind ? zt_hexdump(hsource, j, o, j) : zt_hexdump_str((char *)j->b, j->n, o, j);
    CHECK(!memcmp(c, j->b, j->n), "data-changed", "dumping data changed it"); free(c);
    if (j->failed) { CHECK(r == (size_t)-1, "failure-not-reported", "the printer failed and %zu is reported", r); return NULL; }
    CHECK(r == j->n, "wrong-count", "%zu bytes were dumped and %zu reported", j->n, r); if (!j->def) { CHECK(j->lines == (j->n + 15) / 16, "missing-line", "%zu bytes give %zu lines", j->n, j->lines); CHECK(j->ended, "no-end", "the end of the dump is not passed on"); }
    return NULL;
}
static void c38(void) {
    sim_step_limit(60000000, "hang"); int large = sim_large(), nt = 1 + (int)ch("threads", 3), id[4], def = nt == 1 && ch("default-printer", 3) == 1; size_t live = heap_live();
    for (int w = 0; w < nt; w++) { hjob *j = &HJ[w]; memset(j, 0, sizeof *j); j->n = ch("bytes", large ? MAXB : 70); int mode = (int)ch("content", 4); j->b = sim_alloc_nf(j->n ? j->n : 1); for (size_t i = 0; i < j->n; i++) j->b[i] = mode == 0 ? (unsigned char)(32 + i % 95) : mode == 1 ? (unsigned char)(i * 37 + 200) : mode == 2 ? 0xff : i < 3000 ? (unsigned char)ch("byte", 256) : (unsigned char)(i ^ i >> 8); j->kind = (int)ch("source", 2); j->def = def; j->fail = -1; if (!def && ch_p("fail", 1, 4)) j->fail = (int)ch("fail-at", (uint32_t)(j->n / 16 + 2)); sim_sig(j->n * 4 + (uint64_t)mode); if (j->n % 16 == 15) probe("last-line-one-short"); if (!j->n) probe("nothing-to-dump"); }
    int faults = def && ch_p("faults", 1, 3); if (faults) { fault_set(F_WRITE_SHORT, 1, 2, -1); }
    sim_desc("threads=%d %s ", nt, def ? "standard output" : "own printer"); sim_nontrivial(); for (int w = 0; w < nt; w++) id[w] = fiber_spawn(hthread, &HJ[w], "dumper"); for (int w = 0; w < nt; w++) fiber_join(id[w]); if (nt > 1) probe("concurrent-dumps");
    if (def) { /* every line shows its address, its bytes in hexadecimal and its text */
        size_t n, k = 0; const char *t = stdout_text(&n); fault_off(); hjob *j = &HJ[0]; char *o = malloc(n + 1), *p = o; memcpy(o, t, n); o[n] = 0; probe("standard-output");
        for (; k * 16 < j->n; k++) { char *e = strchr(p, '\n'), h[60], x[20], got[80]; CHECK(e, "missing-line", "line %zu is missing from the output", k); *e = 0; line_of(j, k, h, x); char *q; unsigned long a = strtoul(p, &q, 16); CHECK(q > p && a == 16 * k, "wrong-address", "line %zu starts '%.20s'", k, p); size_t tl = strlen(x), g = 0; CHECK((size_t)(e - q) > tl + 2 && !strcmp(e - tl, x) && !strncmp(e - tl - 2, "| ", 2), "wrong-line", "line %zu ends '%.20s', not '| %s'", k, e - tl - 2 > q ? e - tl - 2 : q, x); for (char *s = q; s < e - tl - 2; s++) if (*s != ' ') { if (g < 70) got[g++] = *s; } got[g] = 0; char w[60]; size_t m = 0; for (char *s = h; *s; s++) if (*s != ' ') w[m++] = *s; w[m] = 0; CHECK(!strcasecmp(got, w), "wrong-line", "line %zu shows '%s', not '%s'", k, got, w); p = e + 1; }
        CHECK(!strcmp(p, "\n"), "extra-line", "the output goes on with '%.20s'", p); free(o);
    }
    for (int w = 0; w < nt; w++) sim_free(HJ[w].b); CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
}
SCN(C38, c38, "a dump was made", "zt_cstr.c (hex dump)", "standard output on a simulated file, threads, sources and printers of the program (stub)")
