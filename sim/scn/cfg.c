/* C16/C17: ini configuration files: loading through a simulated stream and disk, and histories of
 * set/get checked against a map. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <zt.h>
#include <libzt/zt_cfg.h>
#include <libzt/zt_log.h>

enum { T_BOOL, T_INT, T_FLT, T_STR, T_REF, T_NONE };
static const char *const tname[] = { "boolean", "integer", "float", "string", "reference", "nothing" };
#define MAXE 640
static int big;
typedef struct { char blk[1100]; char var[260]; int type; int b; long i; double d; char *s; int ref; const char *held; } ent;
typedef struct { ent *e; int n; } model;
static void m_init(model *m) { m->e = calloc(MAXE, sizeof(ent)); m->n = 0; }
static void m_done(model *m) { for (int i = 0; i < m->n; i++) free(m->e[i].s); free(m->e); }
static int m_find(model *m, const char *b, const char *v) { for (int i = 0; i < m->n; i++) if (!strcmp(m->e[i].blk, b) && !strcmp(m->e[i].var, v)) return i; return -1; }
static ent *m_slot(model *m, const char *b, const char *v) {
    int i = m_find(m, b, v);
    if (i < 0) { i = m->n++; snprintf(m->e[i].blk, sizeof m->e[i].blk, "%s", b); snprintf(m->e[i].var, sizeof m->e[i].var, "%s", v); }
    ent *e = &m->e[i]; free(e->s); e->s = NULL; e->held = NULL; e->type = T_NONE; return e;
}
static int m_resolve(model *m, int i) { for (int k = 0; i >= 0 && m->e[i].type == T_REF; i = m->e[i].ref) if (++k > MAXE) return -1; return i; }

/* one generated value: the text as it stands in a file, and what it means */
typedef struct { char text[6000]; int type; int b; long i; double d; char s[6000]; char rb[1100], rv[260]; } val;
static void word(char *o, size_t l) { static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/ :,=[]()%+*\\\xe9"; size_t i; o[0] = 'w'; for (i = 1; i < l; i++) { o[i] = cs[(i * 31 + l * 7) % (sizeof cs - 1)]; } if (l > 1) o[l - 1] = 'z'; o[l] = 0; }
static void gen_val(val *v, model *m, size_t room) {
    static const uint32_t w[] = { 5, 3, 4, 5, 4, 5, 1 };
    size_t l;
    v->rb[0] = v->rv[0] = 0;
    switch (ch_w("value", 7, w)) {
    case 0: v->type = T_INT; { static const long ls[] = { 0, 1, -1, 7, 8, 42, 1000000, 2147483647L, -2147483648L, 4294967296L, 9223372036854775807L, -9223372036854775807L - 1 }; uint32_t q = ch("int", 16); v->i = q < 12 ? ls[q] : q == 12 ? (long)ch("ival", 70000) : q == 13 ? -(long)ch("ival", 70000) : (long)((uint64_t)ch("hi", 1u << 31) << 32 | ch("lo", 1u << 31)) * (q == 14 ? 1 : -1); }
        { int f = (int)ch("base", 4); if (f == 1 && v->i >= 0) snprintf(v->text, 40, "0x%lx", v->i); else if (f == 2 && v->i >= 0) snprintf(v->text, 40, "0%lo", v->i); else snprintf(v->text, 40, "%ld", v->i); } break;
    case 1: v->type = T_FLT; { static const char *const fs[] = { "1.5", "-0.25", "3.", "1e3", "6.02214076e23", "-1.0e-9", "99.999", "0.1", ".5" }; strcpy(v->text, fs[ch("float", 9)]); v->d = strtod(v->text, NULL); } break;
    case 2: v->type = T_BOOL; { static const char *const bs[] = { "yes", "no", "true", "false", "YES", "No", "True", "FALSE" }; uint32_t k = ch("bool", 8); strcpy(v->text, bs[k]); v->b = !(k & 1); } break;
    case 3: v->type = T_STR; l = 1 + ch("strlen", ch_p("long", 1, 6) ? (uint32_t)room : 24); word(v->s, l); strcpy(v->text, v->s); break;
    case 4: v->type = T_STR; l = ch("strlen", ch_p("long", 1, 6) ? (uint32_t)room - 2 : 24); v->s[0] = 0; if (ch("qnum", 4) == 0) snprintf(v->s, 30, "%u", ch("qval", 1000)); else if (l) word(v->s, l);
        { char q = ch("quote", 2) ? '"' : '\''; v->text[0] = q; strcpy(v->text + 1, v->s); size_t n = strlen(v->text); v->text[n] = q; v->text[n + 1] = 0; } break;
    case 5: if (m->n) { ent *t = &m->e[ch("target", (uint32_t)m->n)]; if (strlen(t->blk) + strlen(t->var) + 1 < room && !strchr(t->blk, '.')) { v->type = T_REF; strcpy(v->rb, t->blk); strcpy(v->rv, t->var); snprintf(v->text, sizeof v->text, "%s.%s", t->blk, t->var); break; } }
        /* FALLTHRU */
    default: v->type = T_REF; strcpy(v->rb, ch("dangle", 2) ? "wnob" : "Global"); strcpy(v->rv, "wnovar"); snprintf(v->text, sizeof v->text, "%s.%s", v->rb, v->rv); break;
    }
}
static void m_apply(model *m, const char *b, const char *var, val *v) {
    int t = -1; ent *e;
    e = m_slot(m, b, var);
    if (v->type == T_REF) { t = m_find(m, v->rb, v->rv); if (t >= 0) { e->type = T_REF; e->ref = t; } else { e->type = T_STR; e->s = strdup(v->text); } }
    else { e->type = v->type; e->b = v->b; e->i = v->i; e->d = v->d; if (v->type == T_STR) e->s = strdup(v->s); }
}
/* read one variable with one type */
static int rd(zt_cfg_ty *c, char *b, char *v, int t, int *ob, long *oi, double *od, char **os) {
    switch (t) { case T_BOOL: return zt_cfg_get(c, b, v, ob, zt_cfg_bool); case T_INT: return zt_cfg_get(c, b, v, oi, zt_cfg_int); case T_FLT: return zt_cfg_get(c, b, v, od, zt_cfg_float); default: return zt_cfg_get(c, b, v, os, zt_cfg_string); }
}
static void verify_one(zt_cfg_ty *c, model *m, int i, const char *when) {
    ent *e = &m->e[i]; int r = m_resolve(m, i);
    for (int t = 0; t < 4; t++) {
        static char mark[4]; int ob = 77; long oi = 777777; double od = 7.75; char *os = mark; ent *x = r >= 0 ? &m->e[r] : NULL;
        int g = rd(c, e->blk, e->var, t, &ob, &oi, &od, &os);
        if (!x || x->type != t) {
            CHECK(g < 0, "wrong-type-read", "%s: reading %.40s.%.40s, %s, as %s does not report failure", when, e->blk, e->var, x ? tname[x->type] : "a cycle of references", tname[t]);
            CHECK(ob == 77 && oi == 777777 && od == 7.75 && os == mark, "result-stored", "%s: a failing read of %.40s.%.40s stored a result", when, e->blk, e->var);
            if (!x) probe("cycle-reported");
            continue;
        }
        CHECK(g >= 0, "setting-lost", "%s: %.40s.%.40s cannot be read as %s", when, e->blk, e->var, tname[t]);
        if (e->type == T_REF) probe("through-reference");
        if (t == T_BOOL) CHECK(ob == x->b, "wrong-value", "%s: %.40s.%.40s reads %d, not %d", when, e->blk, e->var, ob, x->b);
        if (t == T_INT) CHECK(oi == x->i, "wrong-value", "%s: %.40s.%.40s reads %ld, not %ld", when, e->blk, e->var, oi, x->i);
        if (t == T_FLT) CHECK(od == x->d, "wrong-value", "%s: %.40s.%.40s reads %.17g, not %.17g", when, e->blk, e->var, od, x->d);
        if (t == T_STR) {
            CHECK(heap_is_live(os, strlen(x->s) + 1) && !strcmp(os, x->s), "wrong-value", "%s: %.40s.%.40s is not the string of %zu characters '%.60s'", when, e->blk, e->var, strlen(x->s), x->s);
            if (x->held) CHECK(x->held == os, "string-moved", "%s: the string of %.40s.%.40s moved although it was not set again", when, e->blk, e->var);
            x->held = os;
        }
    }
}
static void verify_missing(zt_cfg_ty *c, model *m) {
    static const char *const bs[] = { "Global", "nosuch", "wnob", "" }; int ob = 77;
    for (int k = 0; k < 4; k++) if (m_find(m, bs[k], "wnothing") < 0) CHECK(zt_cfg_get(c, (char *)bs[k], "wnothing", &ob, zt_cfg_bool) < 0 && ob == 77, "missing-read", "reading a missing variable of block '%s' does not fail", bs[k]);
}

/* ---------------- C16 ---------------- */
typedef struct { char *p; size_t n, cap; } fbuf;
static void fa(fbuf *f, const char *s, size_t n) { if (f->n + n + 1 > f->cap) { f->cap = (f->n + n + 1) * 2; f->p = realloc(f->p, f->cap); } memcpy(f->p + f->n, s, n); f->n += n; f->p[f->n] = 0; }
static void fs_(fbuf *f, const char *s) { fa(f, s, strlen(s)); }
static void sp(fbuf *f, int min) { int k = min + (int)ch("space", 3); while (k-- > 0) fs_(f, ch("tab", 4) == 3 ? "\t" : " "); }
static void mkname(char *o, uint32_t max, uint32_t k) { static const char *const n[] = { "a", "b", "size", "Name_2", "x1", "n", "w", "A", "Size", "siz", "name_2", "x10", "N" }; strcpy(o, n[k % 13]); if (ch_p("longname", 1, 12)) { uint32_t l = 1 + ch("namelen", max); for (uint32_t i = 0; i < l; i++) o[i] = "abcdefgh_XYZ0123"[(i * 5 + l) % 16]; o[0] = 'q'; o[l] = 0; } }

/* bytes nobody looks at: anything but the end of the line */
static void skipped(fbuf *f) { int n = (int)ch("skipped", 12); while (n-- > 0) { static const char cs[] = "\r\rx = 1[]=;#'\"\t\xff\x01\v\f.a0"; char c = cs[ch("skip", sizeof cs - 1)]; fa(f, &c, 1); } }
/* well-formed text; broken=1 puts one malformed line somewhere */
static void gen_file(fbuf *f, model *m, int broken, int who) {
    char blk[1100] = "Global", var[300]; static val v; int n = (int)ch("lines", big ? 300 : 14), bad = broken ? (int)ch("badline", (uint32_t)n + 1) : -1;
    for (int i = 0; i <= n; i++) {
        if (i == bad) switch (ch("bad", 4)) {
            case 0: fs_(f, "thisisnoassignment\n"); probe("bad-noassign"); break;
            case 1: fs_(f, "name =\n"); probe("bad-empty"); break;
            case 2: { size_t l = 1017 + ch("over", 3000); fs_(f, "name = "); while (l--) fs_(f, "w"); fs_(f, "\n"); probe("bad-longline"); break; }
            default: { size_t l = 1024 + ch("over", 3000); fs_(f, "["); while (l--) fs_(f, "b"); fs_(f, "]\n"); probe("bad-longblock"); break; }
        }
        if (i == n) break;
        int last = i == n - 1 && bad != n && ch("nonl", 2);
        switch (ch("line", 8)) {
        case 0: mkname(blk, 1000, ch("blk", 13)); if (!ch("dflt", 6)) strcpy(blk, "Global"); fs_(f, "["); fs_(f, blk); fs_(f, "]"); if (ch("tail", 4) == 0) { fs_(f, " trailing text = [x]"); skipped(f); } if (!last) fs_(f, "\n"); else probe("last-line-without-newline"); break;
        case 1: sp(f, 0); fs_(f, ch("c", 2) ? "; a comment = [no]" : "# another"); if (ch_p("longc", 1, 10)) for (int k = ch_p("longerc", 1, 10) ? 70000 : 2000; k--; ) fa(f, "c", 1); if (ch("odd", 2)) skipped(f); if (!last) fs_(f, "\n"); break;
        case 2: sp(f, 0); fs_(f, "\n"); break;
        default: {
            mkname(var, 200, ch("var", 13)); sp(f, 0); size_t st = f->n; fs_(f, var); sp(f, 0); fs_(f, "="); sp(f, 0);
            size_t used = f->n - st; gen_val(&v, m, 1018 - used); size_t lim = 1022;
            fs_(f, v.text); m_apply(m, blk, var, &v);
            if (f->n - st < lim - 40) { if (ch("trail", 3) == 0) sp(f, 1); if (ch("cmt", 4) == 0) { fs_(f, "; c = 'x'"); skipped(f); } else if (ch("cmt2", 5) == 0) { fs_(f, "# d"); skipped(f); } }
            if (f->n - st >= 1000) probe("near-line-limit");
            if (!last) fs_(f, "\n"); else probe("last-line-without-newline"); } }
    }
    (void)who;
}
static const char *const anyb[] = { "Global", "a", "b", "", "size", "x1" }; static const char *const anyv[] = { "a", "b", "size", "x1", "n", "", "name" };
static void gen_any(fbuf *f) {
    static const char *const frag[] = { "[", "]", "=", "\n", " ", "\t", ";", "#", "'", "\"", ".", "a", "b", "size", "x1", "a.b", "b.a", "a.a", "Global.a", "Global.b", "1", "0x", "1e", "yes", "name = 5\n", "[a]\n", "[b]\n", "b = a.b\n", "a = b.a\n", "a = a.a\n", "a = Global.a\n", "b = Global.b\n", "a = Global.b\n", "\r", "\xff", "-", "nan", "inf" };
    int n = (int)ch("frags", big ? 2000 : 60), tidy = (int)ch("tidy", 2);
    for (int i = 0; i < n; i++) {
        if (tidy && ch("lineok", 24)) { /* mostly lines that the parser takes */
            if (!ch("hdr", 5)) { fs_(f, "["); fs_(f, anyb[ch("ab", 6)]); fs_(f, ch("nb", 6) ? "]\n" : "\n"); continue; }
            sp(f, 0); fs_(f, anyv[ch("av", 7)]); fs_(f, ch("eq", 8) ? " = " : "=="); int k = 1 + (int)ch("pieces", 3); while (k--) fs_(f, frag[5 + ch("piece", sizeof frag / sizeof *frag - 5)]); fs_(f, "\n"); continue; }
        switch (ch("any", 12)) {
        default: fs_(f, frag[ch("frag", sizeof frag / sizeof *frag)]); break;
        case 9: fa(f, "\0", 1); probe("nul-byte"); break;
        case 10: { size_t l = ch("runlen", 2600); char c = "a[]= ;'.\n\t5"[ch("runc", 11)]; if (ch("edge", 3) == 0) l = 1015 + ch("edgelen", 20); while (l--) fa(f, &c, 1); break; }
        case 11: { char c = (char)ch("byte", 256); fa(f, &c, 1); break; }
        }
    }
}
static void no_leak(size_t live, int streams, int fds, const char *what) {
    CHECK(heap_live() == live, "leak", "%s: %zu allocations are left", what, heap_live() - live);
    CHECK(streams_open() == streams && fd_open_count() == fds, "file-left-open", "%s: the file is still open", what);
}
typedef struct { int bad, type; int b; long i; double d; char s[64]; size_t sl; } got;
static int dump_any(zt_cfg_ty *c, got *g) {
    int k = 0;
    for (int b = 0; b < 6; b++) for (int v = 0; v < 7; v++, k++) {
        got *o = &g[k]; memset(o, 0, sizeof *o); int n = 0;
        for (int t = 0; t < 4; t++) { char *s = NULL; int r = rd(c, (char *)anyb[b], (char *)anyv[v], t, &o->b, &o->i, &o->d, &s);
            if (r >= 0) { n++; o->type = t + 1; if (t == T_STR) { CHECK(s && heap_block_base(s), "bad-string", "a string setting is not in memory"); o->sl = strlen(s); CHECK(heap_is_live(s, o->sl + 1), "bad-string", "a string setting is not terminated in memory"); snprintf(o->s, sizeof o->s, "%s", s); } } }
        CHECK(n <= 1, "two-types", "one variable reads as %d types", n); if (n) probe("arbitrary-file-setting");
    }
    return k;
}
static void load_wf(int who, int broken, int faults) {
    fbuf f = { 0 }; model m; char path[40]; m_init(&m); snprintf(path, sizeof path, "/etc/app%d.ini", who);
    gen_file(&f, &m, broken, who); fs_put(path, f.p ? f.p : "", f.n); sim_sig(f.n * 131 + (uint64_t)m.n);
    int f0 = fault_fired(F_READ_EIO), f1 = fault_fired(F_READ_EINTR), f2 = fault_fired(F_OPEN) + fault_fired(F_OPEN_EINTR);
    zt_cfg_ty *c = zt_cfg_ini(path, 0);
    int eio = fault_fired(F_READ_EIO) > f0, eintr = fault_fired(F_READ_EINTR) > f1, op = fault_fired(F_OPEN) + fault_fired(F_OPEN_EINTR) > f2;
    if (fault_fired(F_READ_SHORT)) probe("short-reads");
    if (!faults && !eio && !eintr && !op) {
        if (broken) CHECK(!c, "bad-file-accepted", "a file with a malformed line was loaded");
        else CHECK(c, "good-file-rejected", "a well-formed file of %zu bytes was not loaded", f.n);
    }
    if (faults) {
        if (eio) { CHECK(!c, "read-error-ignored", "a read error was taken for the end of the file"); probe("read-error-reported"); }
        if (!eio && !eintr && !op && !broken) CHECK(c, "good-file-rejected", "a well-formed file was not loaded");
        if (broken) CHECK(!c, "bad-file-accepted", "a file with a malformed line was loaded");
    }
    if (c) { for (int i = 0; i < m.n; i++) verify_one(c, &m, i, "after load"); verify_missing(c, &m); if (m.n > 1) sim_nontrivial(); zt_cfg_close(c); } else { probe(broken ? "malformed-rejected" : "failed-load"); sim_nontrivial(); }
    m_done(&m); free(f.p);
}
static void *load_thread(void *a) { for (int i = 0; i < 2; i++) load_wf((int)(long)a, ch_p("broken", 1, 4), 0); return NULL; }
static void log_open(void) { zt_log_set_debug_info(NULL, 0, NULL); zt_log_printf(zt_log_err, "start\n"); }
static void c16(void) {
    static const uint32_t w[] = { 5, 2, 5, 3, 1, 3 };
    fs_mkdirp("/etc"); log_open(); sim_step_limit(30000000, "hang");
    size_t live = heap_live(); int st = streams_open(), fds = fd_open_count();
    big = sim_large(); int mode = (int)ch_w("mode", 6, w); sim_sig((uint64_t)mode);
    switch (mode) {
    case 0: case 1: sim_desc("%s file", mode ? "malformed" : "well-formed"); if (ch("short", 2)) fault_set(F_READ_SHORT, 1, 1 + ch("shortrate", 3), -1); load_wf(0, mode, 0); break;
    case 2: { /* any bytes: same outcome whatever the delivery; no crash; all released */
        fbuf f = { 0 }; gen_any(&f); if (ch("trunc", 4) == 0 && f.n) f.n = ch("at", (uint32_t)f.n); fs_put("/etc/any", f.p ? f.p : "", f.n); sim_sig(f.n); sim_desc("arbitrary bytes (%zu)", f.n);
        static got g1[64], g2[64]; zt_cfg_ty *c = zt_cfg_ini("/etc/any", 0); int ok = c != NULL, n = 0; if (c) { n = dump_any(c, g1); zt_cfg_close(c); probe("arbitrary-accepted"); } else probe("arbitrary-rejected");
        no_leak(live, st, fds, "after one load");
        fault_set(F_READ_SHORT, 1, 1 + ch("shortrate", 3), -1); c = zt_cfg_ini("/etc/any", 0);
        CHECK(ok == (c != NULL), "chunking-matters", "the same bytes are %s in one piece and %s in several", ok ? "accepted" : "rejected", c ? "accepted" : "rejected");
        if (c) { dump_any(c, g2); for (int i = 0; i < n; i++) CHECK(g1[i].type == g2[i].type && g1[i].b == g2[i].b && g1[i].i == g2[i].i && (g1[i].d == g2[i].d || g1[i].d != g1[i].d) && g1[i].sl == g2[i].sl && !strcmp(g1[i].s, g2[i].s), "chunking-matters", "a setting differs when the same bytes come in several pieces"); zt_cfg_close(c); }
        sim_nontrivial(); free(f.p); break; }
    case 3: sim_desc("read and open errors"); fault_set(F_READ_SHORT, 1, 2, -1); switch (ch("fault", 3)) { case 0: fault_set(F_READ_EIO, 1, 1 + ch("rate", 4), 1); break; case 1: fault_set(F_READ_EINTR, 1, 1 + ch("rate", 4), 1); break; default: fault_set(F_OPEN, 1, 2, 1); fault_set(F_OPEN_EINTR, 1, 2, 1); } load_wf(0, ch_p("broken", 1, 5), 1); break;
    case 4: { sim_desc("missing file or directory"); CHECK(!zt_cfg_ini(ch("dir", 2) ? "/etc" : "/etc/none", 0), "no-file-loaded", "a missing file or a directory was loaded"); sim_nontrivial(); break; }
    default: { int n = 2 + (int)ch("threads", 2), id[3]; sim_desc("%d threads load different files", n); if (ch("short", 2)) fault_set(F_READ_SHORT, 1, 2, -1); for (long i = 0; i < n; i++) id[i] = fiber_spawn(load_thread, (void *)i, "load"); for (int i = 0; i < n; i++) fiber_join(id[i]); probe("concurrent-loads"); }
    }
    fault_off(); zt_log_printf(zt_log_err, "end\n");
    no_leak(live, st, fds, "after closing");
}
SCN(C16, c16, "a file was loaded or rejected and its settings compared", "zt_cfg, cfg_ini, cfg_private, zt_log", "open/read/close and stdio buffering source, heap, threads")

/* ---------------- C17 ---------------- */
static void c17(void) {
    fs_mkdirp("/etc"); log_open(); sim_step_limit(30000000, "hang");
    size_t live = heap_live(); int st = streams_open(), fds = fd_open_count();
    static model m[2]; static zt_cfg_ty *c[2]; int nc = 1 + (int)ch_p("two", 1, 4); big = sim_large(); int ops = 1 + (int)ch("ops", big ? 600 : 40), over = 0, closed = 0; static val v;
    for (int k = 0; k < nc; k++) { fbuf f = { 0 }; char p[20]; snprintf(p, sizeof p, "/etc/c%d", k); m_init(&m[k]); if (ch("preload", 2)) gen_file(&f, &m[k], 0, k); fs_put(p, f.p ? f.p : "", f.n); free(f.p);
        c[k] = zt_cfg_ini(p, 0); CHECK(c[k], "good-file-rejected", "a well-formed file was not loaded"); }
    for (int o = 0; o < ops; o++) {
        int k = (int)ch("cfg", (uint32_t)nc); static const char *const bs[] = { "Global", "a", "b", "Db", "DB", "global", "ab", "a.b" }; static const char *const vs[] = { "a", "b", "x1", "size", "n", "A", "Size", "sizes", "N", "b.a", "a." };
        char blk[1100], var[260]; strcpy(blk, bs[ch("blk", 8)]); strcpy(var, vs[ch("var", 11)]); if (ch_p("long", big ? 6 : 1, 20)) { word(blk, 1 + ch("bl", 1050)); word(var, 1 + ch("vl", 250)); }
        if (m[k].n >= MAXE - 2) { int i = (int)ch("old", (uint32_t)m[k].n); strcpy(blk, m[k].e[i].blk); strcpy(var, m[k].e[i].var); }
        int i = m_find(&m[k], blk, var), r; char *s; size_t h0;
        if (m[k].n < MAXE - 70 && ch_p("chain", 1, 150)) { /* a long way to a value */
            int l = 2 + (int)ch("links", 60); strcpy(blk, "chain"); for (int j = 0; j < l; j++) { snprintf(var, sizeof var, "c%d", j); if (j) { v.type = T_REF; strcpy(v.rb, "chain"); snprintf(v.rv, sizeof v.rv, "c%d", j - 1); snprintf(v.text, sizeof v.text, "chain.c%d", j - 1); } else { v.type = T_INT; v.i = (long)ch("i", 1000); snprintf(v.text, sizeof v.text, "%ld", v.i); }
                s = v.text; r = zt_cfg_set(c[k], blk, var, &s, zt_cfg_string); CHECK(r > 0, "set-refused", "setting a string failed"); m_apply(&m[k], blk, var, &v); }
            i = m_find(&m[k], blk, var); verify_one(c[k], &m[k], i, "at the end of a chain"); probe("long-chain"); }
        switch (ch("op", 10)) {
        case 0: { long x = ch("set", 2) ? (long)ch("i", 100000) - 50000 : (long)((uint64_t)ch("hi", 1u << 31) << 32 | ch("lo", 1u << 31)); r = zt_cfg_set(c[k], blk, var, &x, zt_cfg_int); CHECK(r > 0, "set-refused", "setting an integer failed"); ent *e = m_slot(&m[k], blk, var); e->type = T_INT; e->i = x; over += i >= 0; break; }
        case 1: { static const double ds[] = { 0.1, 1.0, 100.0, -2.5, 1e-9, 123456789.123456789, 6.02214076e23, 1e300, 2.2250738585072014e-308, -0.0, 3.141592653589793, 1e21, 4.9e-324, 1.7976931348623157e308, 0.30000000000000004 }; uint32_t dq = ch("d", 17); double x = dq < 15 ? ds[dq] : ldexp((double)((uint64_t)ch("dhi", 1u << 21) << 32 | ch("dlo", 1u << 31)) * (dq == 15 ? 1 : -1), (int)ch("dexp", 200) - 150); r = zt_cfg_set(c[k], blk, var, &x, zt_cfg_float); CHECK(r > 0, "set-refused", "setting a float failed"); ent *e = m_slot(&m[k], blk, var); e->type = T_FLT; e->d = x; over += i >= 0; break; }
        case 2: { static char *const b[] = { "yes", "no", "TRUE", "false" }; uint32_t q = ch("b", 4); s = b[q]; r = zt_cfg_set(c[k], blk, var, &s, zt_cfg_bool); CHECK(r > 0, "set-refused", "setting a boolean failed"); ent *e = m_slot(&m[k], blk, var); e->type = T_BOOL; e->b = !(q & 1); over += i >= 0; break; }
        case 3: case 4: case 5: case 6: gen_val(&v, &m[k], ch("big", 4) ? 200 : 5000); s = sim_alloc_nf(strlen(v.text) + 1); strcpy(s, v.text); if (strlen(s) > 1023) probe("long-value"); if (v.type == T_REF) probe("set-reference");
            r = zt_cfg_set(c[k], blk, var, &s, zt_cfg_string); memset(s, '!', strlen(v.text)); sim_free(s); CHECK(r > 0, "set-refused", "setting a string failed"); m_apply(&m[k], blk, var, &v); over += i >= 0; break;
        case 7: { int one = (int)ch("one", 2); h0 = heap_live(); if (ch("kind", 2)) { r = zt_cfg_set(c[k], blk, var, &one, zt_cfg_bool); probe("bad-bool"); } else { s = "x"; r = zt_cfg_set(c[k], blk, var, &s, (zt_cfg_type)(5 + ch("t", 3))); probe("bad-type"); }
            CHECK(r <= 0, "bad-set-accepted", "a set with an invalid value or type reports success"); CHECK(heap_live() == h0, "leak", "a refused set leaves %zd allocations", heap_live() - h0); break; }
        case 8: if (i >= 0 && m[k].e[i].type == T_STR && !strchr(m[k].e[i].s, '.') && m[k].e[i].s[0] == 'w') { /* a string read from the configuration is set again */
                CHECK(zt_cfg_get(c[k], blk, var, &s, zt_cfg_string) >= 0, "setting-lost", "a string cannot be read"); r = zt_cfg_set(c[k], blk, var, &s, zt_cfg_string); CHECK(r > 0, "set-refused", "setting a string failed"); m[k].e[i].held = NULL; probe("set-to-itself"); } break;
        default: if (i >= 0) verify_one(c[k], &m[k], i, "during the history"); else { int ob = 5; CHECK(zt_cfg_get(c[k], blk, var, &ob, zt_cfg_bool) < 0 && ob == 5, "missing-read", "reading a missing variable does not fail"); } break;
        }
        i = m_find(&m[k], blk, var); if (i >= 0) { verify_one(c[k], &m[k], i, "after the operation"); sim_sig((uint64_t)m[k].e[i].type * 64 + (uint64_t)i); }
        if (nc == 2 && o == ops / 2 && ch_p("close-one", 1, 3)) { zt_cfg_close(c[0]); m_done(&m[0]); c[0] = c[1]; m[0] = m[1]; nc = 1; closed = 1; }
    }
    for (int k = 0; k < nc; k++) { for (int i = 0; i < m[k].n; i++) verify_one(c[k], &m[k], i, "at the end"); verify_missing(c[k], &m[k]); zt_cfg_close(c[k]); m_done(&m[k]); }
    if (over) { sim_nontrivial(); probe("overwrite"); } if (closed) probe("one-closed-early");
    sim_desc("%d operations, %d overwrites", ops, over);
    no_leak(live, st, fds, "after closing");
}
SCN(C17, c17, "a variable was overwritten", "zt_cfg, cfg_ini, cfg_private", "file system, heap")
