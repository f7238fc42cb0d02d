/* C39 option processing: callbacks, variables, the error function, the output of the help, the end of the process. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdint.h>
#include <inttypes.h>
#include <limits.h>
#include <errno.h>
#include <ctype.h>
#include <zt.h>
#include <libzt/zt_opts.h>

enum { FLAG, BOOL, LONG, IMAX, STR, ARR, NUL, UFLAG, UVAL, UTAKE, HELP, NTYPE };
static const char *const TN[] = { "flag", "boolean", "long", "intmax", "string", "string list", "null", "caller's flag", "caller's value", "caller's arguments", "help" };
#define MAXO 24
#define MAXA 700
#define MAXL 900
typedef struct { int type, take, iv, mi, nset, na, nodata; long lv, ml; intmax_t xv, mx; char *sv, **av; const char *ms, *ma[MAXL]; } opt;
typedef struct { int o, argn, err, neg; const char *val, *bad; } elem;     /* what one option of the vector is to do */
typedef struct { opt O[MAXO]; zt_opt_def_t *D; int no; char **av, *keep[MAXA]; int n; elem E[2 * MAXA]; int ne, done; int stop; void *junk[4 * MAXA]; int nj; int calls; char help[MAXO][600], name[MAXO][60], arg[MAXO][24]; int valerr, inval, exits; } job;
static job *J[4]; static job *cur[64]; static int oom;
static char *copy(job *j, const char *s) { char *p = sim_alloc_nf(strlen(s) + 1); strcpy(p, s); j->junk[j->nj++] = p; return p; }
static void state(job *j, const char *when) {
    for (int i = 0; i < j->no; i++) { opt *o = &j->O[i]; const char *n = j->D[i].lopt ? j->D[i].lopt : "?"; char sc = j->D[i].sopt > 0 ? j->D[i].sopt : ' ';
        switch (o->type) {
        case FLAG: case BOOL: CHECK(o->iv == o->mi, "wrong-value", "%s: the variable of the %s option -%c --%s is %d, not %d", when, TN[o->type], sc, n, o->iv, o->mi); break;
        case LONG: CHECK(o->lv == o->ml, "wrong-value", "%s: the variable of the long option -%c --%s is %ld, not %ld", when, sc, n, o->lv, o->ml); break;
        case IMAX: CHECK(o->xv == o->mx, "wrong-value", "%s: the variable of the intmax option -%c --%s is %jd, not %jd", when, sc, n, o->xv, o->mx); break;
        case STR: CHECK(!o->sv == !o->ms && (!o->sv || (heap_is_live(o->sv, strlen(o->ms) + 1) && !strcmp(o->sv, o->ms))), "wrong-value", "%s: the variable of the string option -%c --%s is '%.40s', not '%.40s'", when, sc, n, o->sv ? o->sv : "(none)", o->ms ? o->ms : "(none)"); break;
        case ARR: CHECK(!o->av == !o->na, "wrong-value", "%s: the list -%c --%s is %sthere", when, sc, n, o->av ? "" : "not "); if (o->av) { CHECK(heap_is_live(o->av, sizeof(char *) * ((size_t)o->na + 1)), "bad-memory", "%s: a list of %d is not in memory that holds it and its end", when, o->na); for (int k = 0; k < o->na; k++) CHECK(o->av[k] && heap_is_live(o->av[k], strlen(o->ma[k]) + 1) && !strcmp(o->av[k], o->ma[k]), "wrong-value", "%s: element %d of the list -%c --%s is '%.40s', not '%.40s'", when, k, sc, n, o->av[k] ? o->av[k] : "(none)", o->ma[k]); CHECK(!o->av[o->na], "wrong-value", "%s: the list -%c --%s does not end after %d elements", when, sc, n, o->na); } break;
        default: break; }
    }
}
static void apply(job *j, elem *e) {
    if (e->err || e->o < 0) return; opt *o = &j->O[e->o]; if (o->nodata) return;
    switch (o->type) {
    case FLAG: o->mi++; break;
    case BOOL: o->mi = strchr("tTyY", e->val[0]) != NULL; break;
    case LONG: o->ml = strtol(e->val, NULL, 0); break;
    case IMAX: o->mx = strtoimax(e->val, NULL, 0); break;
    case STR: o->ms = e->val; o->nset++; break;
    case ARR: o->ma[o->na++] = e->val; break;
    default: break; }
}
static int quiet; static int visible(job *j, elem *e) { if (quiet && (e->err || (e->o >= 0 && j->O[e->o].type == HELP))) return 0; if (e->err || e->o < 0) return 1; int t = j->O[e->o].type; return t == UFLAG || t == UVAL || t == UTAKE || t == HELP; }
static elem *next(job *j) { while (j->done < j->ne && !visible(j, &j->E[j->done])) apply(j, &j->E[j->done++]); state(j, "on a call"); return j->done < j->ne ? &j->E[j->done] : NULL; }
static int on_error(int code, char *fmt, ...) {
    job *j = cur[fiber_self() & 63]; CHECK(j, "extra-error", "an error is reported while nothing is processed"); char t[400] = ""; if (fmt) { va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap); if (!oom) { /* as a caller's error function does it */ char w[600]; va_start(ap, fmt); char *s = zt_opt_verror_str(code, fmt, ap); va_end(ap); snprintf(w, sizeof w, "error: { code: %d, string: \"%s: %s\" }", code, code ? sim_strerror(code) : "", t); CHECK(s && !strcmp(s, w), "wrong-error", "an error is described as '%.120s', not '%.120s'", s ? s : "", w); sim_free(s); } }
    if (j->inval) { CHECK(code == EINVAL, "wrong-error", "an invalid table is reported with code %d", code); j->valerr++; return 0; }
    elem *e = next(j); CHECK(e, "extra-error", "an error is reported (%d, '%.60s') after everything was processed", code, t);
    if (!e->err && e->o >= 0 && j->O[e->o].type == HELP) { CHECK(!code, "wrong-error", "the help ends with error %d", code); j->done++; return 0; }
    CHECK(e->err, "extra-error", "an error is reported (%d, '%.60s') where option %d is to be called for argument %d", code, t, e->o, e->argn); CHECK(code == e->err, "wrong-error", "the error for '%.30s' has code %d, not %d ('%.60s')", e->bad, code, e->err, t); CHECK(strstr(t, e->bad), "wrong-error", "the error for '%.30s' says '%.60s'", e->bad, t); j->done++; probe("error-function"); return (int)ch("answer", 3) * 17;
}
static elem *mine(job *j, int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, const char *what) {
    CHECK(j && argc && argv == j->av && def == j->D && defn >= 0 && defn < j->no, "wrong-call", "a callback gets other objects than were passed"); elem *e = next(j); CHECK(e, "extra-call", "%s: option %d is called for argument %d after everything was processed", what, defn, argn);
    CHECK(!e->err && e->o == defn && e->argn == argn, "wrong-call", "%s: option %d is called for argument %d '%.30s'; next is %s %d for argument %d", what, defn, argn, argn < j->n ? argv[argn] : "?", e->err ? "an error, option" : "option", e->o, e->argn); j->done++; return e;
}
static int uflag(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { (void)error; elem *e = mine(cur[fiber_self() & 63], argn, defn, argc, argv, def, "flag"); return e->neg; }
static int uval(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) {
    int used = 77; char *v = zt_opt_get_value(argn, defn, argv, def, &used, error); if (!v) { CHECK(used == 0 || used == 1, "wrong-value", "a missing value uses %d arguments", used); return 0; }
    elem *e = mine(cur[fiber_self() & 63], argn, defn, argc, argv, def, "value"); CHECK(!strcmp(v, e->val), "wrong-value", "the value in argument %d '%.30s' is given as '%.30s', not '%.30s'", argn, argv[argn], v, e->val); return e->neg ? e->neg : used;
}
static int utake(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { (void)error; job *j = cur[fiber_self() & 63]; elem *e = mine(j, argn, defn, argc, argv, def, "arguments"); return e->neg ? e->neg : j->O[defn].take; }
static int validated; static void own_validate(zt_opt_def_t *args, zt_opt_error error) { job *j = cur[fiber_self() & 63]; CHECK(j && args == j->D && error, "wrong-call", "the validation gets another table"); validated++; }
static const zt_opt_callback CB[] = { zt_opt_flag_int, zt_opt_bool_int, zt_opt_long, zt_opt_intmax, zt_opt_string, zt_opt_string_array, zt_opt_null, uflag, uval, utake, zt_opt_help_stdout };

static const char *const ln[] = { "long", "long2", "lon", "verbose", "verb", "a", "no-color", "x-y-z", "output", "out", "string", "z9", "help", "helper", "n", "-", "L" };
static void table(job *j, int large, int single) {
    j->no = 1 + (int)ch("options", large ? MAXO - 1 : 6); j->D = sim_alloc_nf(sizeof(zt_opt_def_t) * ((size_t)j->no + 1)); memset(j->D, 0, sizeof(zt_opt_def_t) * ((size_t)j->no + 1)); j->junk[j->nj++] = j->D;
    int at = (int)ch("first-name", 17), cc = (int)ch("first-letter", 62), step = 1 + (int)ch("letter-step", 3);
    for (int i = 0; i < j->no; i++) { opt *o = &j->O[i]; zt_opt_def_t *d = &j->D[i]; o->type = (int)ch("type", single ? NTYPE : NTYPE - 1); d->cb = CB[o->type]; o->take = (int)ch("take", 3); int names = (int)ch("names", 4);
        d->sopt = ZT_OPT_NSO; if (names != 1) d->sopt = "qvabncdefghijklmoprstuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[(cc + i * step) % 62];
        if (names != 2) { if (i < 17) snprintf(j->name[i], 60, "%s", ln[(at + i) % 17]); else snprintf(j->name[i], 60, "option-with-a-long-name-%d", i); d->lopt = j->name[i]; }
        if (ch("arg", 3) == 1) { snprintf(j->arg[i], 24, "%.*s", (int)ch("arg-length", 20), "VALUEABCDEFGHIJKLMNOP"); d->arg = j->arg[i]; }
        o->nodata = (o->type <= IMAX && ch("no-variable", 12) == 11); o->iv = o->mi = o->type == FLAG ? (int)ch("start", 5) : (int)ch("start", 2); o->lv = o->ml = -3; o->xv = o->mx = -4;
        switch (o->type) { case FLAG: case BOOL: d->cb_data = &o->iv; break; case LONG: d->cb_data = &o->lv; break; case IMAX: d->cb_data = &o->xv; break; case STR: d->cb_data = &o->sv; break; case ARR: d->cb_data = &o->av; break; case HELP: d->cb_data = ch("help-text", 2) ? "[options] FILE" : NULL; break; default: d->cb_data = o; } if (o->nodata) d->cb_data = NULL;
        int hl = (int)ch("help-length", ch_p("long-help", 1, 3) ? 550 : 60), words = 1 + (int)ch("word", ch_p("long-words", 1, 6) ? 120 : 12); for (int k = 0; k < hl; k++) j->help[i][k] = k % (words + 1) == words ? ' ' : (char)('a' + (k * 7 + i) % 26); d->help = copy(j, j->help[i]); if (d->lopt) d->lopt = copy(j, d->lopt); if (d->arg) d->arg = copy(j, d->arg); }
}
static const char *num(job *j, int ok, int *err) {
    static const char *const v[] = { "0", "1", "-1", "42", "0x1F", "017", "-0x8", "9223372036854775807", "-9223372036854775808", " 7", "+5", "2147483648" }; static const char *const b[] = { "x", "12x", "1 2", "0x", "-", "--4", "1.5", "nine" }; char t[32];
    if (ok) { uint32_t q = ch("number", 14); if (q < 12) return v[q]; snprintf(t, 32, "%ld", (long)ch("any", 1u << 31) * (q == 13 ? -77777 : 1)); return copy(j, t); }
    if (ch("overflow", 3) == 1) { *err = ERANGE; return ch("negative", 2) ? "-9223372036854775809" : "99999999999999999999999"; } *err = EINVAL; return b[ch("bad", 8)];
}
static const char *value(job *j, int type, int *err, int force, int ok) {
    static const char *const t[] = { "t", "T", "y", "Y", "true", "TRUE", "yes", "Yes", "f", "F", "n", "N", "false", "no", "No", "FALSE" }; static const char *const b[] = { "x", "1", "maybe", "tru", "truee", "yes!", "o" };
    switch (type) { case BOOL: if (ok) return t[ch("true", 16)]; *err = EINVAL; return b[ch("bad", 7)];
    case LONG: case IMAX: return num(j, ok, err);
    default: { char s[600]; int n = (int)ch("value-length", ch_p("long-value", 1, 15) ? 500 : 8) + force; for (int k = 0; k < n; k++) s[k] = "qvabn-cdefL xyz01289/._="[ch("value-byte", k < 40 ? 24 : 2)]; s[n] = 0; return copy(j, s); } }
}
static void push(job *j, const char *s) { j->av[j->n++] = copy(j, s); j->av[j->n] = NULL; }
static elem *el(job *j, int o, int argn) { elem *e = &j->E[j->ne++]; memset(e, 0, sizeof *e); e->o = o; e->argn = argn; return e; }
static int flaglike(int t) { return t == FLAG || t == NUL || t == UFLAG; } static int valued(int t) { return (t >= BOOL && t <= ARR) || t == UVAL; }
static int eq_in(const char *s) { return strchr(s, '=') != NULL; }
static void vector(job *j, int large, int bad) {
    j->av = sim_alloc_nf(sizeof(char *) * MAXA); j->junk[j->nj++] = j->av; j->n = j->ne = j->done = j->stop = 0; push(j, "/bin/prog"); int n = (int)ch("arguments", large ? 200 : 9); char b[1300];
    while (n-- > 0 && j->n < MAXA - 30 && !j->stop) {
        int o = (int)ch("option", (uint32_t)j->no), t = j->O[o].type, argn = j->n; zt_opt_def_t *d = &j->D[o]; int how = (int)ch("how", 4), isbad = bad && ch_p("bad", 1, 6); if (j->nj > 4 * MAXA - 60 || (t == ARR && j->O[o].na > MAXL - 300)) break;
        if (isbad && ch("unknown", 2)) { /* an option that is not in the table */
            if (ch("long", 2)) { const char *u = "--unknown-option"; const char *w[] = { "--unknown-option", "--lo", "--longer", "--verbos", "--x" }; u = w[ch("which", 5)]; int known = 0; for (int i = 0; i < j->no; i++) known |= d && j->D[i].lopt && !strcmp(j->D[i].lopt, u + 2); if (known) continue; int v = ch("with-value", 3) == 1; snprintf(b, sizeof b, v ? "%s=v" : "%s", u); push(j, b); elem *e = el(j, -1, argn); e->err = EINVAL; e->bad = u + 2; probe("unknown-option"); continue; }
            char c = "#%,;@!"[ch("letter", 6)]; size_t k = 0; b[k++] = '-'; int fl = (int)ch("after-flags", 4); for (int i = 0; i < j->no && fl > 0; i++) if (flaglike(j->O[i].type) && j->D[i].sopt > 0) { b[k++] = j->D[i].sopt; el(j, i, argn); fl--; } b[k++] = c; b[k] = 0; push(j, b); elem *e = el(j, -1, argn); e->err = EINVAL; static char one[256][2]; one[(unsigned char)c][0] = c; e->bad = one[(unsigned char)c]; probe(k > 2 ? "unknown-after-flags" : "unknown-option"); continue; }
        if (flaglike(t) || t == HELP || t == UTAKE) {
            if (d->sopt > 0 && (!d->lopt || how < 2)) { size_t k = 0; b[k++] = '-'; if (t != UTAKE || ch("cluster", 2)) { int m = (int)ch("together", 5); while (m-- > 0) { int q = (int)ch("flag", (uint32_t)j->no); if (flaglike(j->O[q].type) && j->D[q].sopt > 0) { b[k++] = j->D[q].sopt; elem *e = el(j, q, argn); if (j->O[q].type == UFLAG && bad && ch("fail", 12) == 11) { e->neg = -1 - (int)ch("code", 9); j->stop = 1; break; } } } } if (!j->stop) { b[k++] = d->sopt; elem *e = el(j, o, argn); if (t == UTAKE && bad && ch("fail", 8) == 7) { e->neg = -4; j->stop = 1; } } b[k] = 0; if (k > 2) probe("options-together"); push(j, b); }
            else if (d->lopt) { int v = flaglike(t) && ch("flag-with-value", 8) == 7; snprintf(b, sizeof b, v ? "--%s=%s" : "--%s", d->lopt, "1"); push(j, b); el(j, o, argn); } else continue;
            if (t == UTAKE && !j->stop) for (int i = 0; i < j->O[o].take; i++) push(j, ch("like-option", 2) ? "--long" : "word");
            continue;
        }
        if (!valued(t)) continue;
        int err = 0, last = 0; const char *v;
        if (isbad && ch("missing", 3) == 1) { last = 1; v = NULL; } else v = value(j, t, &err, d->sopt > 0 && how < 2 && how == 0, !(isbad && t < STR));
        if (d->sopt > 0 && (!d->lopt || how < 2 || ch("short", 2))) {
            size_t k = 0; b[k++] = '-'; int m = ch("before", 3) == 1 ? 1 + (int)ch("together", 4) : 0; while (m-- > 0) { int q = (int)ch("flag", (uint32_t)j->no); if ((j->O[q].type == FLAG || j->O[q].type == NUL) && j->D[q].sopt > 0) { b[k++] = j->D[q].sopt; el(j, q, argn); probe("value-after-flags"); } } b[k++] = d->sopt; b[k] = 0; elem *e = el(j, o, argn); e->val = v; e->err = err;
            int form = (int)ch("form", 3); if (last) form = 2; else if (form == 0 && (!*v || eq_in(v))) form = 1; if (form == 0) { strcpy(b + k, v); if (d->lopt && !strcmp(b + 1, d->lopt)) form = 2, b[k] = 0; else if (k > 2 && d->lopt && !strcmp(b + 1, d->lopt)) form = 2, b[k] = 0; } if (form == 1) { b[k] = '='; strcpy(b + k + 1, v); } push(j, b); if (form == 2 && v) push(j, v); if (form == 0) probe("value-inside");
            if (d->lopt && form == 2 && strcmp(b + 1, d->lopt) == 0 && k > 2) { /* the flags spell the long name */ probe("spells-long-name"); }
            e->bad = last ? b : v; if (last) { e->err = EINVAL; e->bad = j->av[argn]; j->stop = 2; probe("missing-value"); }
        } else { elem *e = el(j, o, argn); e->val = v; e->err = err; e->bad = v; snprintf(b, sizeof b, last || how & 1 ? "--%s" : "--%s=%s", d->lopt, v); push(j, b); if (last) { e->err = EINVAL; e->bad = j->av[argn]; j->stop = 2; probe("missing-value"); } else if (how & 1) push(j, v); }
        if (err && t == BOOL) j->E[j->ne - 1].bad = ""; if (err) probe("bad-value");
    }
    j->exits = j->n; if (!j->stop && ch("rest", 2)) { push(j, ch("empty", 6) == 5 ? "" : "command"); int m = (int)ch("more", 4); while (m-- > 0) push(j, ch("dash", 2) ? "--long=3" : "-q"); }
    for (int i = 0; i < j->n; i++) { j->keep[i] = j->av[i]; }
}
/* --- help text --- */
static const char *word_eq(const char *p, const char *w, const char *what, int opt_) { for (; *w; w++) { if (*w == ' ') { while (*p == ' ' || *p == '\n') p++; continue; } if (*p != *w) { const char *q = p; while (*q == ' ' || *q == '\n') q++; if (w[-1] == ' ' || q == p) p = q; } CHECK(*p == *w, "wrong-help", "the help of option %d shows '%.30s' where the %s '%.30s' is due", opt_, p, what, w); p++; } return p; }
static const char *skip(const char *p) { while (*p == ' ') p++; return p; }
static void help_check(const char *p, const char *name, const char *help, job *j) {
    char h[200]; snprintf(h, sizeof h, "Usage: %s %s\nOptions:\n", name, help ? help : ""); CHECK(!strncmp(p, h, strlen(h)), "wrong-help", "the help begins '%.60s'", p); p += strlen(h);
    for (int i = 0; i < j->no; i++) { zt_opt_def_t *d = &j->D[i]; char t[100]; p = skip(p); if (d->sopt > 0) { t[0] = '-'; t[1] = d->sopt; t[2] = 0; p = word_eq(p, t, "short name", i); if (d->lopt) { CHECK(*p == ',', "wrong-help", "no comma between the names"); p++; } } if (d->lopt) { p = skip(p); snprintf(t, sizeof t, "--%s", d->lopt); p = word_eq(p, t, "long name", i); } if (d->arg) { p = skip(p); p = word_eq(p, d->arg, "argument", i); }
        const char *w = d->help; while (*w) { while (*w == ' ') w++; if (!*w) break; char one[600]; size_t n = strcspn(w, " "); memcpy(one, w, n); one[n] = 0; while (*p == ' ' || *p == '\n') p++; p = word_eq(p, one, "word", i); w += n; }
        while (*p == ' ') p++; CHECK(*p == '\n', "wrong-help", "the help of option %d goes on with '%.30s'", i, p); while (*p == '\n' || (*p == ' ' && strspn(p, " ") < 80 && p[strspn(p, " ")] == '\n')) p++; }
    CHECK(!*p, "wrong-help", "the help goes on with '%.30s'", p);
}
static size_t out0; static char *outcopy(size_t *n) { const char *t = stdout_text(n); char *c = malloc(*n - out0 + 1); memcpy(c, t + out0, *n - out0); c[*n - out0] = 0; return c; }
static int defmode, expected_exit = -99999; static job *exitjob; static elem *exitel;
static void finish(job *j, int r, int argc) {
    elem *neg = j->stop == 1 ? &j->E[j->ne - 1] : NULL;
    CHECK(next(j) == NULL, "missing-call", "%d of %d effects of the vector did not happen; next is %s %d for argument %d '%.30s'", j->ne - j->done, j->ne, j->E[j->done].err ? "an error for option" : "option", j->E[j->done].o, j->E[j->done].argn, j->av[j->E[j->done].argn]); state(j, "at the end");
    if (neg && neg->neg) { CHECK(r == neg->neg, "wrong-result", "a callback returned %d and the result is %d", neg->neg, r); CHECK(argc == j->n, "wrong-count", "the count was changed although a callback stopped the processing"); probe("callback-stopped"); }
    else { CHECK(r == 0, "wrong-result", "the result is %d", r); CHECK(argc == j->exits, "wrong-count", "the first argument that is no option is %d, not %d", argc, j->exits); }
    for (int i = 0; i < j->n; i++) CHECK(j->av[i] == j->keep[i], "vector-changed", "argument %d was replaced", i); CHECK(!j->av[j->n], "vector-changed", "the end of the vector was replaced");
}
static void ended(int code) {
    if (expected_exit == -1) return; if (oom && fault_fired(F_ALLOC)) { probe("stopped-out-of-memory"); return; } job *j = exitjob; CHECK(defmode && j, "ended", "the process ended with %d", code); elem *e = next(j); CHECK(e, "ended", "the process ended with %d although everything is in order", code);
    size_t n; if (!e->err) { CHECK(e->o >= 0 && j->O[e->o].type == HELP, "ended", "the process ended with %d where option %d is due", code, e->o); char *t = outcopy(&n); help_check(t, j->av[0], j->D[e->o].cb_data, j); free(t); probe("help-ended-process"); return; }
    CHECK((code & 255) == (e->err & 255), "wrong-error", "the process ended with %d for error %d", code, e->err); const char *t = stderr_text(&n); char w[60]; snprintf(w, sizeof w, "error: { code: %d, string: \"", e->err); int at = -1; for (size_t i = 0; i + strlen(w) <= n; i++) if (!memcmp(t + i, w, strlen(w))) { at = (int)i; break; } CHECK(at >= 0, "wrong-error", "the error is not on the standard error"); CHECK(memmem(t + at, n - (size_t)at, e->bad, strlen(e->bad)) && memmem(t + at, n - (size_t)at, sim_strerror(e->err), strlen(sim_strerror(e->err))), "wrong-error", "the message for '%.30s' is '%.80s'", e->bad, t + at); probe("error-ended-process");
}
static void messages(job *j, size_t from) { /* what the returning error function of the library wrote: one line per error, in order */
    size_t n; const char *t = stderr_text(&n); char *c = malloc(n - from + 1), *p = c; memcpy(c, t + from, n - from); c[n - from] = 0;
    for (int i = 0; i < j->ne; i++) if (j->E[i].err) { elem *e = &j->E[i]; char w[100]; snprintf(w, sizeof w, "error: { code: %d, string: \"%s: ", e->err, sim_strerror(e->err)); CHECK(!strncmp(p, w, strlen(w)), "wrong-error", "the error for '%.30s' is shown as '%.60s'", e->bad, p); char *q = strchr(p, '\n'); CHECK(q, "wrong-error", "the message for '%.30s' does not end", e->bad); *q = 0; CHECK(strstr(p + strlen(w), e->bad) && q - p > 3 && !strcmp(q - 3, "\" }"), "wrong-error", "the error for '%.30s' is shown as '%.80s'", e->bad, p); p = q + 1; probe("error-shown"); }
    CHECK(!*p, "extra-error", "an error is shown that did not happen: '%.60s'", p); free(c);
}
static int lgo, nbad, single;
static void release(job *j, size_t *lost) { for (int i = 0; i < j->no; i++) { opt *o = &j->O[i]; if (o->sv) { sim_free(o->sv); *lost += (size_t)o->nset - 1; } if (o->av) { for (int k = 0; k < o->na; k++) sim_free(o->av[k]); sim_free(o->av); } o->sv = NULL; o->av = NULL; } while (j->nj) sim_free(j->junk[--j->nj]); }
static void *worker(void *v) {
    int w = (int)(intptr_t)v; job *j = J[w]; cur[fiber_self() & 63] = j; table(j, lgo, single); int rounds = 1 + (int)ch("rounds", 3); int custom = !single ? 1 : !defmode;
    for (int k = 0; k < rounds; k++) { vector(j, lgo && k == 0, nbad); int argc = j->n, ov = ch("own-validation", 4) == 1; validated = single ? 0 : validated; int before = validated; errno = (int)ch("errno", 40); if (defmode) exitjob = j; size_t n; if (single) { stdout_text(&n); out0 = n; stderr_reset(); }
        size_t e0 = 0; if (quiet) stderr_text(&e0); int r = zt_opt_process_args(&argc, j->av, j->D, ov ? own_validate : NULL, quiet ? zt_opt_error_default : custom ? on_error : NULL);
        if (quiet && !fault_fired(F_ALLOC)) messages(j, e0);
        if (single) CHECK(validated == before + ov, "wrong-call", "the validation was called %d times", validated - before);
        if (defmode) { for (elem *e = next(j); e && !e->err && !(e->o >= 0 && j->O[e->o].type == HELP); e = next(j)) j->done++; CHECK(j->done == j->ne, "not-reported", "an error of argument %d '%.30s' did not end the process", j->E[j->done].argn, j->av[j->E[j->done].argn]); }
        finish(j, r, argc); sim_sig((uint64_t)j->n * 64 + (uint64_t)j->ne);
        if (single && !defmode) { /* every help that was printed */ int hs = 0; const char *hh = NULL; for (int i = 0; i < j->ne; i++) if (!j->E[i].err && j->E[i].o >= 0 && j->O[j->E[i].o].type == HELP) { hs++; hh = j->D[j->E[i].o].cb_data; } char *t = outcopy(&n); if (hs == 1) { help_check(t, j->av[0], hh, j); probe("help"); } else if (!hs) CHECK(!*t, "extra-output", "something is printed: '%.40s'", t); free(t); }
    }
    if (single) { size_t n; stdout_text(&n); out0 = n; const char *h = ch("usage-help", 2) ? "FILE..." : NULL; int r = zt_opt_usage("prog", h, j->D); CHECK(r == 0, "wrong-result", "the usage reports %d", r); char *t = outcopy(&n); help_check(t, "prog", h, j); free(t); }
    cur[fiber_self() & 63] = NULL; return NULL;
}
static int reject(job *j) { /* an invalid table is reported and nothing else */
    cur[fiber_self() & 63] = j; table(j, 0, 0); if (j->no < 2) { while (j->nj) sim_free(j->junk[--j->nj]); return 0; } int i = (int)ch("at", (uint32_t)j->no), k = (i + 1) % j->no;
    int how = (int)ch("defect", 5); switch (how) { case 0: j->D[i].sopt = ZT_OPT_NSO; j->D[i].lopt = NULL; break; case 1: j->D[i].help = NULL; break; case 2: j->D[i].sopt = j->D[k].sopt = 'Q'; break; case 3: j->D[i].lopt = "same"; j->D[k].lopt = copy(j, "same"); break; default: j->D[i].sopt = "-=/@[`{: "[ch("letter", 9)]; }
    char *av[] = { "p", NULL }; int argc = 1; j->inval = 1; j->valerr = 0; j->av = av; int r = zt_opt_process_args(&argc, av, j->D, NULL, on_error); CHECK(j->valerr > 0, "not-reported", "an invalid table is not reported"); CHECK(r == 0 && argc == 1, "wrong-result", "the result is %d with %d arguments", r, argc); probe("invalid-table"); if (how == 0) { j->D[i].help = "x"; CHECK(zt_opt_usage("p", NULL, j->D) < 0, "not-reported", "the usage of a table with an option that has no name succeeds"); } j->inval = 0; while (j->nj) sim_free(j->junk[--j->nj]); memset(j, 0, sizeof *j); return 1;
}
static void o_stop(void) { CHECK(oom && fault_fired(F_ALLOC), "aborted", "the process was stopped although memory is available"); probe("stopped-out-of-memory"); }
static void c39(void) {
    sim_step_limit(60000000, "hang"); sim_abort_cb = o_stop; sim_exit_cb = ended; zt_log_set_debug_info(NULL, 0, NULL); zt_log_printf(zt_log_err, "start\n"); lgo = sim_large(); int nt = ch("several", 3) == 1 ? 2 + (int)ch("threads", 2) : 1, id[4]; single = nt == 1; nbad = (int)ch("errors", 2); defmode = single && ch("default-error", 3) == 1; quiet = single && !defmode && ch("returning-error", 3) == 1; for (int w = 0; w < nt; w++) J[w] = calloc(1, sizeof *J[w]);
    size_t live = heap_live(), lost = 0; if (ch_p("invalid-table", 1, 10)) reject(J[0]);
    { int code = 1 + (int)ch("code", 40); char t[300], w[400]; int n = (int)ch("message", 280); for (int i = 0; i < n; i++) t[i] = (char)('A' + i % 50); t[n] = 0; char *s = zt_opt_error_str(code, "%s/%d", t, n); snprintf(w, sizeof w, "error: { code: %d, string: \"%s: %s/%d\" }", code, sim_strerror(code), t, n); CHECK(s && !strcmp(s, w), "wrong-error", "an error is described as '%.80s', not '%.80s'", s ? s : "", w); sim_free(s); }
    CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
    if (single && ch("short-writes", 3) == 1) fault_set(F_WRITE_SHORT, 1, 2, -1); if (ch_p("oom", 1, 10)) { oom = 1; fault_set(F_ALLOC, 1, 1 + ch("rate", 30), 1); }
    sim_desc("threads=%d%s%s ", nt, defmode ? " default-error" : "", lgo ? " large" : ""); sim_nontrivial();
    if (single) worker(0); else { for (int w = 0; w < nt; w++) id[w] = fiber_spawn(worker, (void *)(intptr_t)w, "processor"); for (int w = 0; w < nt; w++) fiber_join(id[w]); probe("several-threads"); }
    fault_off(); for (int w = 0; w < nt; w++) release(J[w], &lost); CHECK(heap_live() == live + lost, "leak", "%zd allocations left, not %zu", heap_live() - live, lost); expected_exit = -1; 
}
SCN(C39, c39, "a vector was processed", "zt_opts.c, zt_malloc.c", "standard streams on simulated files, heap with failing allocations, threads, the program's callbacks and error function (stub)")
