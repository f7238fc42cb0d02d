/* C07..C10: logging.  Clients are simulated threads, sinks are the simulated
 * stderr, files and syslog; every record found there is matched against the
 * ledger of calls. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <syslog.h>
#include <zt.h>
#include <libzt/zt_log.h>
#include <libzt/zt_progname.h>

#define MAXR 700
static int big7;
#define MAXL 4
enum { S_STDERR, S_FILE, S_SYSLOG };
typedef struct { zt_log_ty *l; int sink, opts, level; char path[32]; int nlev; long lt[32]; int lv[32]; } logger;
static logger LG[MAXL]; static int nlg;
typedef struct {
    int thr, seq, lg, level, has_loc, line, must, mustnot, found; long tb, te; int64_t w0, w1;
    char *msg; size_t n; const char *file, *func; int order; int via_default; char prog[16], host[64]; int pid;
} rec;
static rec RR[MAXR]; static int nr;
static long tick;
static int clock_steps, host_fails;
static const char *prog;
static const char *const LV[] = { "Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug" };
static const char *const files[] = { "src/a.c", "b%s.c", "/x/y/c%dc.c", "d.c", "%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%", "" };
static const char *const funcs[] = { "main", "op%n", "f", "operator%", "%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%", "" };
static int sl_pid, sl_fac; static size_t live7;

static void vcall(zt_log_ty *l, zt_log_level lev, const char *fmt, ...) { va_list ap; va_start(ap, fmt); zt_log_lvprintf(l, lev, fmt, ap); va_end(ap); }
static char *filler(size_t n) { char *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = "abcdefghij klmno%pq:r"[(i * 7 + n) % 21]; b[n] = 0; return b; }
/* performs one log call for record r and remembers what the record must look like */
static void do_log(rec *r, logger *g, zt_log_ty *l, int plain) {
    int kind = plain ? (int)ch("call", 4) : (int)ch("call", 8), big = ch_p("long", 1, 8);
    char tag[32]; snprintf(tag, sizeof tag, "m%d.%d.", r->thr, r->seq);
    char *s = filler(big ? ch("len", 6000) : ch("len", 60));
    size_t cap = strlen(s) * 2 + 400; r->msg = malloc(cap);
    int e = 0, num = (int)ch("num", 1000) - 500;
    snprintf(r->prog, sizeof r->prog, "%s", prog); snprintf(r->host, sizeof r->host, "%s", sim_hostname); r->pid = proc.pid;
    r->tb = ++tick; r->w0 = sim_wall_ns();
    zt_log_level v = (zt_log_level)r->level;
    switch (kind) {
    case 0: snprintf(r->msg, cap, "%sx", tag); zt_log_lprintf(l, v, "m%d.%d.x", r->thr, r->seq); break;
    case 1: snprintf(r->msg, cap, "%s%s", tag, s); zt_log_lprintf(l, v, "m%d.%d.%s", r->thr, r->seq, s); break;
    case 2: snprintf(r->msg, cap, "%s%s|%d", tag, s, num); vcall(l, v, "%s%s|%d", tag, s, num); break;
    case 3: { static const int en[] = { 2, 13, 28, 0, 11, 4, 99999, -5, 9001, 9002, 9003 }; e = en[ch("errnum", 11)]; snprintf(r->msg, cap, "%s%s: %s", tag, s, sim_strerror(e)); zt_log_lstrerror(l, v, e, "m%d.%d.%s", r->thr, r->seq, s); break; }
    case 4: snprintf(r->msg, cap, "%s", tag); zt_log_lprintf(l, v, "%s", tag); break;
    case 5: snprintf(r->msg, cap, "%s100%% %5d %-4s|%c", tag, num, "ab", 'z'); zt_log_lprintf(l, v, "%s100%% %5d %-4s|%c", tag, num, "ab", 'z'); break;
    case 6: { char f[128]; snprintf(f, sizeof f, "m%d.%d. literal text only", r->thr, r->seq); snprintf(r->msg, cap, "%s", f); vcall(l, v, f); break; }
    default: snprintf(r->msg, cap, "%s%s%s", tag, s, s); zt_log_lprintf(l, v, "m%d.%d.%s%s", r->thr, r->seq, s, s); break;
    }
    r->te = ++tick; r->w1 = sim_wall_ns();
    r->n = strlen(r->msg);
    free(s);
    (void)g;
}
static int sep;     /* how many separating characters were skipped */
static const char *skip(const char *p) { sep = 0; while (*p == ' ' || *p == ':') p++, sep++; return p; }
static int starts(const char **p, const char *w) { size_t n = strlen(w); if (strncmp(*p, w, n)) return 0; *p += n; return 1; }
/* does this line consist of the enabled prefixes, the message and the location? */
static const char *match(const char *p, const rec *r, int opts) {
    p = skip(p);
    if (opts & ZT_LOG_WITH_DATE) {
        int ok = 0; char b[64];
        if (!clock_steps) for (time_t t = (time_t)(r->w0 / 1000000000LL); t <= (time_t)(r->w1 / 1000000000LL) && !ok; t++) {
            struct tm tm; gmtime_r(&t, &tm); strftime(b, sizeof b, "%b %d %H:%M:%S", &tm); ok = !strncmp(p, b, strlen(b));
        } else { struct tm tm; memset(&tm, 0, sizeof tm); ok = strptime(p, "%b %d %H:%M:%S", &tm) == p + 15; }
        if (!ok) return "the date prefix is not a time during the call";
        p += 15; p = skip(p);
    }
    if (opts & ZT_LOG_WITH_SYSNAME) {
        char h[256]; snprintf(h, sizeof h, "%s", r->host); char *d = strchr(h, '.'); if (d) *d = 0;
        if (!starts(&p, h) && !(host_fails && starts(&p, "*hostname*"))) return "the system name prefix is wrong";
        p = skip(p); if (!sep && (opts & ZT_LOG_WITH_PROGNAME)) return "no separator follows the system name";
    }
    if (opts & ZT_LOG_WITH_PROGNAME) { if (!starts(&p, r->prog)) return "the program name prefix is wrong"; p = skip(p); if (!sep && (opts & ZT_LOG_WITH_LEVEL) && !(opts & ZT_LOG_WITH_PID)) return "no separator follows the program name"; }
    if (opts & ZT_LOG_WITH_PID) { char b[32]; snprintf(b, sizeof b, "[%d]", r->pid); if (!starts(&p, b)) return "the process id prefix is wrong"; p = skip(p); }
    if ((opts & ZT_LOG_WITH_LEVEL) && r->level < 8) { if (!starts(&p, LV[r->level])) return "the level prefix is wrong"; p = skip(p); }
    if ((opts & 31) && !sep) return "no separator precedes the message";
    if (strncmp(p, r->msg, r->n)) return "the message text differs";
    p += r->n;
    if (r->has_loc) {
        char b[256]; snprintf(b, sizeof b, ": in %s at (%s:%d)", r->func, r->file, r->line);
        if (!starts(&p, b)) return *p ? "the source location is wrong" : "the source location is missing";
    }
    if (*p) return r->has_loc ? "text follows the source location" : "text follows the message";
    return NULL;
}
static int order_no;
static void take_line(const char *s, int sink, const char *path, int prio) {
    const char *t = NULL; int th, sq, n = 0;
    for (const char *q = s; *q && !t; q++) if (*q == 'm' && sscanf(q, "m%d.%d.%n", &th, &sq, &n) == 2 && n > 0) t = q;
    CHECK(t, "broken-record", "a record no call made appears: \"%.120s\"", s);
    for (int i = 0; i < nr; i++) if (RR[i].thr == th && RR[i].seq == sq) {
        rec *r = &RR[i]; logger *g = &LG[r->lg];
        CHECK(g->sink == sink && (sink != S_FILE || !strcmp(g->path, path)), "wrong-sink", "record %d.%d appears in another sink", th, sq);
        CHECK(!r->mustnot, "filtered-record-appears", "call %d.%d at level %d below the configured severity produced a record", th, sq, r->level);
        CHECK(!r->found++, "duplicate-record", "call %d.%d produced two records", th, sq);
        int o = sink == S_SYSLOG ? g->opts & ZT_LOG_WITH_LEVEL : g->opts;
        const char *e = match(s, r, o);
        CHECK(!e, "broken-record", "%s: \"%.200s\" for message \"%.100s\" (options %#x, location %s)", e, s, r->msg, o, r->has_loc ? r->func : "none");
        if (sink == S_SYSLOG) CHECK((prio & 7) == (r->level < 8 ? r->level : LOG_ERR), "wrong-priority", "a call at level %d was given to syslog with priority %d", r->level, prio & 7);
        r->order = ++order_no;
        return;
    }
    sim_fail("broken-record", "a record of an unknown call appears: \"%.120s\"", s);
}
static void take_text(const char *txt, size_t n, int sink, const char *path) {
    CHECK(n == 0 || txt[n - 1] == '\n', "broken-record", "the last record is not terminated by a newline: \"...%.60s\"", txt + (n > 60 ? n - 60 : 0));
    CHECK(memchr(txt, 0, n) == NULL, "broken-record", "a zero byte in the log");
    char *c = malloc(n + 1); memcpy(c, txt, n); c[n] = 0;
    for (char *p = c, *q; *p; p = q + 1) { q = strchr(p, '\n'); *q = 0; take_line(p, sink, path, 0); }
    free(c);
}
static void collect(void) {
    size_t n; const char *t = stderr_text(&n);
    take_text(t, n, S_STDERR, NULL);
    for (int i = 0; i < nlg; i++) if (LG[i].sink == S_FILE) {
        static char b[1 << 20]; ssize_t k = fs_get(LG[i].path, b, sizeof b);
        CHECK(k >= 0 && k <= (ssize_t)sizeof b, "lost-record", "log file %s does not exist", LG[i].path);
        take_text(b, (size_t)k, S_FILE, LG[i].path);
    }
    for (int i = 0; i < syslog_count(); i++) {
        const syslog_rec *r = syslog_get(i); static char b[20001]; snprintf(b, sizeof b, "%s", r->text);
        size_t l = strlen(b); if (l && b[l - 1] == '\n') b[--l] = 0;
        CHECK(!strchr(b, '\n'), "broken-record", "a syslog record of several lines");
        take_line(b, S_SYSLOG, NULL, r->prio);
        CHECK(!strcmp(r->ident, prog), "wrong-prefix", "syslog records carry the identity \"%s\", the program is \"%s\"", r->ident, prog);
        CHECK(!!(r->opt & LOG_PID) == sl_pid, "wrong-prefix", "the process id %s syslog records", sl_pid ? "was asked for but is not in" : "is in"); CHECK(r->fac == sl_fac, "wrong-sink", "records go to syslog facility %#x, not %#x", r->fac, sl_fac);
    }
    for (int i = 0; i < nr; i++) {
        rec *r = &RR[i];
        if (r->must) CHECK(r->found, "lost-record", "call %d.%d at level %d produced no record", r->thr, r->seq, r->level);
        for (int j = 0; j < nr; j++) if (RR[j].thr == r->thr && RR[j].lg == r->lg && RR[j].seq < r->seq && r->found && RR[j].found)
            CHECK(RR[j].order < r->order, "record-order", "thread %d logged call %d before call %d but the records are in the other order", r->thr, RR[j].seq, r->seq);
    }
}
static void set_level(logger *g, int v, int use_default) {
    g->lt[g->nlev] = ++tick; g->lv[g->nlev] = v; g->nlev++;
    zt_log_set_level(use_default ? NULL : g->l, (zt_log_level)v);
    g->lt[g->nlev] = ++tick; g->lv[g->nlev] = v; g->nlev++;     /* from here on it is in force */
    g->level = v;
}
/* levels possibly in force during [tb,te] */
static void judge(rec *r) {
    logger *g = &LG[r->lg]; int all = 1, none = 1, in_force = zt_log_max, pend = 0, pv = 0;
    for (int i = 0; i < g->nlev && g->lt[i] <= r->te; i++) {
        if (i % 2 == 0) { if (g->lt[i + 1] < r->tb) { in_force = g->lv[i]; i++; continue; }
            if (r->level <= g->lv[i]) none = 0; else all = 0; pend = 1; pv = g->lv[i]; }
    }
    (void)pend; (void)pv;
    if (r->level <= in_force) none = 0; else all = 0;
    r->must = all; r->mustnot = none;
}
static int nthr;
static int pc_default = -1;         /* index of the logger installed as default, -1: auto-created */
static void choose_loc(rec *r) {
    r->has_loc = ch_p("location", 1, 2);
    if (r->has_loc) { r->file = files[ch("file", 6)]; r->func = funcs[ch("func", 6)]; r->line = (int)ch("line", 3) == 0 ? 0 : ch_p("huge-line", 1, 6) ? 2147483647 : (int)ch("line", 100000); zt_log_set_debug_info(r->file, r->line, r->func); }
}
static void *logging(void *a) {
    int th = (int)(long)a, n = 1 + (int)ch("calls", big7 ? 120 : 6);
    for (int k = 0; k < n && nr < MAXR; k++) {
        rec *r = &RR[nr++]; r->thr = th; r->seq = k; r->level = ch_p("no-level", 1, 20) ? 8 : (int)ch("level", 8);
        r->via_default = pc_default >= 0 && ch_p("default", 1, 3);
        r->lg = r->via_default ? pc_default : (int)ch("logger", (uint32_t)nlg);
        choose_loc(r);
        do_log(r, &LG[r->lg], r->via_default || !LG[r->lg].l ? NULL : LG[r->lg].l, 0);
        if (ch_p("pause", 1, 4)) sim_idle((int)ch("pause-len", 5));
    }
    return NULL;
}
static void *tuner(void *a) {
    int n = (int)ch("tunings", 5);
    while (n-- > 0) { logger *g = &LG[ch("logger", (uint32_t)nlg)]; if (g->nlev < 30) set_level(g, (int)ch("level", 9), !g->l); sim_idle((int)ch("pause-len", 12)); }
    return NULL;
}
static void names(void) {
    static const char *const pn[] = { "prog", "my prog", "100%d", "p%s%s", "%n" }, *const hn[] = { "simhost", "host.example.org", "h%sx", "n%d.lan", "%" };
    prog = pn[ch("progname", 5)]; zt_progname(prog, 0);
    snprintf(sim_hostname, 64, "%s", hn[ch("hostname", 5)]);
    if (ch_p("hostname-fails", 1, 6)) { host_fails = 1; fault_set(F_HOSTNAME, 1, 2, -1); }
}
static void open_logger(int i) {
    logger *g = &LG[i]; g->opts = (int)ch("opts", 32); g->level = zt_log_max;
    g->sink = (int)ch("sink", 3);
    if (g->sink == S_SYSLOG) for (int j = 0; j < i; j++) if (LG[j].sink == S_SYSLOG) g->sink = S_STDERR;
    if (g->sink == S_STDERR) g->l = zt_log_stderr((unsigned)g->opts);
    else if (g->sink == S_FILE) { snprintf(g->path, sizeof g->path, "/tmp/log%d", i); g->l = zt_log_file(g->path, ch("mode", 2) ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, g->opts); }
    else { static const int fac[] = { LOG_DAEMON, LOG_LOCAL3, LOG_USER }; int how = (int)ch("syslog-call", 3); sl_fac = LOG_USER; sl_pid = 1; if (how == 1) { sl_fac = fac[ch("facility", 3)]; sl_pid = (int)ch("syslog-pid", 2); } g->l = how != 1 ? zt_log_syslog() : zt_log_syslog2(sl_pid ? ZT_LOG_WITH_PID : 0, sl_fac); CHECK(syslog_is_open(), "setup", "the connection to syslog was not opened"); zt_log_set_opts(g->l, (unsigned)g->opts); }
    CHECK(g->l, "setup", "logger");
    CHECK((int)zt_log_get_opts(g->l) == g->opts, "options", "a logger opened with options %#x has %#x", g->opts, zt_log_get_opts(g->l));
}
static void wall_near_boundary(void) { if (ch_p("near-boundary", 1, 3)) sim_wall_set(1700002799LL * 1000000000LL + 999000000LL + (int64_t)ch("boundary", 1000) * 1000); }
static void c07(void) {
    sim_step_limit(4000000, "stuck"); sim_deadlock_kind("stuck");
    names(); wall_near_boundary(); big7 = sim_large();
    if (ch_p("clock-steps", 1, 8)) { clock_steps = 1; fault_set(F_CLOCKSTEP, 1, 50, -1); }
    zt_log_set_debug_info(NULL, 0, NULL); live7 = heap_live();
    nlg = 1 + (int)ch("loggers", 3);
    int automatic = ch_p("auto-default", 1, 5);
    if (automatic) { LG[0].l = NULL; LG[0].sink = S_STDERR; LG[0].opts = ZT_LOG_WITH_LEVEL; LG[0].level = zt_log_max; pc_default = 0; }
    for (int i = automatic; i < nlg; i++) open_logger(i);
    if (!automatic && ch_p("install", 1, 2)) { pc_default = (int)ch("logger", (uint32_t)nlg); zt_log_logger(LG[pc_default].l); }
    for (int i = 0; i < nlg; i++) if (LG[i].l && ch_p("limit", 1, 3)) { LG[i].nlev = 0; set_level(&LG[i], (int)ch("level", 9), 0); }
    for (int i = 0; i < nlg; i++) if (LG[i].l) { /* what was in force is handed back, the default logger's by NULL as well */
        logger *g = &LG[i]; zt_log_ty *p = pc_default == i && ch("as-default", 2) ? NULL : g->l; int o = (int)ch("new-opts", 32);
        CHECK((int)zt_log_get_level(p) == g->level, "level", "a logger at level %d says it is at %d", g->level, zt_log_get_level(p));
        if (ch_p("reset-level", 1, 4)) { int was = (int)zt_log_set_level(p, (zt_log_level)3); CHECK(was == g->level && zt_log_get_level(p) == 3, "level", "changing level %d to 3 gives back %d and leaves %d", g->level, was, zt_log_get_level(p)); was = (int)zt_log_set_level(p, (zt_log_level)g->level); CHECK(was == 3 && (int)zt_log_get_level(p) == g->level, "level", "changing level 3 to %d gives back %d", g->level, was); }
        if (ch_p("reset-opts", 1, 4)) { int was = (int)zt_log_set_opts(p, (unsigned)o); CHECK(was == g->opts && (int)zt_log_get_opts(p) == o, "options", "changing options %#x to %#x gives back %#x and leaves %#x", g->opts, o, was, zt_log_get_opts(p)); g->opts = o; probe("options-changed"); } }
    nthr = 1 + (int)ch("threads", 4);
    sim_desc("threads=%d loggers=%d default=%d ", nthr, nlg, pc_default);
    int id[8];
    if (ch_p("stall-on", 1, 3)) fault_set(F_STALL, 1, 60, -1);
    for (int t = 0; t < nthr; t++) id[t] = fiber_spawn(logging, (void *)(long)t, "logging");
    int tid = -1; if (ch_p("tuner", 1, 3)) tid = fiber_spawn(tuner, NULL, "tuner");
    for (int t = 0; t < nthr; t++) fiber_join(id[t]);
    if (tid >= 0) fiber_join(tid);
    if (ch_p("renamed", 1, 3)) { /* the prefixes are those at the time of each call: another host name, another program name, another process */
        int sl = 0; for (int i = 0; i < nlg; i++) sl |= LG[i].sink == S_SYSLOG;
        if (!sl && ch("new-program", 2)) { prog = ch("which", 2) ? "renamed" : "q%d"; zt_progname(prog, 0); }
        if (ch("new-host", 2)) snprintf(sim_hostname, 64, "%s", ch("which", 2) ? "a.much.longer.name.of.a.host.example.org" : "b");
        if (ch("new-process", 2)) { proc.ppid = proc.pid; proc.pid += 1 + (int)ch("pid", 100000); }
        nthr++; if (ch("new-thread", 2)) fiber_join(fiber_spawn(logging, (void *)(long)(nthr - 1), "logging")); else logging((void *)(long)(nthr - 1)); probe("renamed");
    }
    if (nr > 2) sim_nontrivial();
    fault_off();
    if (pc_default >= 0 && !automatic) { zt_log_ty *p = zt_log_logger(NULL); CHECK(p == LG[pc_default].l, "default-logger", "the installed logger is not handed back"); }
    for (int i = automatic; i < nlg; i++) { zt_log_close(LG[i].l); }
    if (!automatic && heap_live() != live7) { heap_dump_since(0); sim_fail("leak", "%ld blocks remain after all loggers were closed", (long)(heap_live() - live7)); }
    CHECK(!syslog_is_open(), "leak", "the connection to syslog is open although its logger was closed");
    for (int i = 0; i < nr; i++) judge(&RR[i]);
    int sure = 0; for (int i = 0; i < nr; i++) sure += RR[i].mustnot; if (sure) probe("filtered-calls");
    collect();
    for (int i = 0; i < nlg; i++) probe(LG[i].sink == S_STDERR ? "sink-stderr" : LG[i].sink == S_FILE ? "sink-file" : "sink-syslog");
}
SCN(C07, c07, "three or more log calls", "zt_log.c, zt_log/*.c, zt_progname.c", "stdio streams, files, syslog, hostname, clock, malloc, pthread, scheduler")

/* ------------------------------------------------------------------ C08 */
static int threads_gone;
static void *locating(void *a) {
    int th = (int)(long)a, n = 2 + (int)ch("ops", big7 ? 150 : 10), seq = 0;
    const char *f = NULL, *fn = NULL; int line = 0, set = 0;
    for (int k = 0; k < n && nr < MAXR; k++) {
        switch (ch("op", 4)) {
        case 0: case 1: {
            rec *r = &RR[nr++]; r->thr = th; r->seq = seq++; r->lg = (int)ch("logger", (uint32_t)nlg); r->level = (int)ch("level", 8);
            r->has_loc = set && f && fn && line > -1; r->file = f; r->func = fn; r->line = line;
            int lim = LG[r->lg].level; r->must = r->level <= lim; r->mustnot = !r->must;
            int dfl = pc_default == r->lg && ch_p("default", 1, 2);
            do_log(r, &LG[r->lg], dfl ? NULL : LG[r->lg].l, 1);
            if (r->mustnot) probe("location-with-filtered-call"); else if (r->has_loc) probe("location-emitted");
            f = fn = NULL; line = 0; set = 0;
            break; }
        case 2:
            if (ch_p("partial", 1, 8)) { f = ch("no-file", 2) ? NULL : files[0]; fn = f ? NULL : funcs[0]; line = 3; }
            else { f = files[ch("file", 4)]; fn = funcs[ch("func", 4)]; line = ch_p("far-line", 1, 8) ? (ch("far-line-at", 2) ? 2147483647 : 32000 + (int)ch("line", 70000)) : (int)ch("line", 1000); }
            set = 1; zt_log_set_debug_info(f, line, fn);
            break;
        default: {
            const char *gf = (char *)1, *gfn = (char *)1; int gl = -77;
            zt_log_get_debug_info(&gf, &gl, &gfn);
            CHECK(gf == f && gfn == fn, "wrong-location", "T%d reads back location \"%s\" in \"%s\" but last set \"%s\" in \"%s\"", th, gf ? gf : "-", gfn ? gfn : "-", f ? f : "-", fn ? fn : "-");
            if (set) CHECK(gl == line, "wrong-location", "T%d reads back line %d but last set %d", th, gl, line);
            probe("location-read-back"); }
        }
        if (ch_p("pause", 1, 4)) sim_idle((int)ch("pause-len", 5));
    }
    threads_gone++;
    return NULL;
}
static void c08(void) {
    sim_step_limit(4000000, "stuck"); sim_deadlock_kind("stuck");
    prog = "prog"; zt_progname(prog, 0);
    nlg = 1 + (int)ch("loggers", 2);
    for (int i = 0; i < nlg; i++) { open_logger(i); zt_log_set_opts(LG[i].l, ZT_LOG_RAW); LG[i].opts = 0; LG[i].level = (int)ch("level", 9); zt_log_set_level(LG[i].l, (zt_log_level)LG[i].level); }
    if (ch_p("install", 1, 2)) { pc_default = 0; zt_log_logger(LG[0].l); }
    big7 = sim_large(); nthr = 1 + (int)ch("threads", big7 ? 28 : 5);
    int waves = 1 + (int)ch("waves", 2), th = 0;
    sim_desc("threads=%d waves=%d loggers=%d ", nthr, waves, nlg);
    if (ch_p("stall-on", 1, 3)) fault_set(F_STALL, 1, 60, -1);
    size_t h0 = heap_live();
    for (int w = 0; w < waves; w++) {
        int id[32];
        for (int t = 0; t < nthr; t++) id[t] = fiber_spawn(locating, (void *)(long)th++, "locating");
        for (int t = 0; t < nthr; t++) fiber_join(id[t]);
        CHECK(heap_live() == h0, "leak", "%ld blocks remain after all logging threads ended", (long)(heap_live() - h0));
    }
    if (nthr > 1) sim_nontrivial();
    zt_log_logger(LG[0].l);
    for (int i = 0; i < nlg; i++) zt_log_close(LG[i].l);
    collect();
}
SCN(C08, c08, "two or more threads set locations and log", "zt_log.c, zt_log/*.c", "thread-specific data, stdio, files, syslog, malloc, scheduler")

/* ------------------------------------------------------------------ C09 */
enum { O_INSTALL, O_NULL, O_USE, O_CLOSE, O_LEVEL };
#define MAXO 24
typedef struct { int op, arg; zt_log_ty *ret; int sink; long b, e; int thr; } hop;
static hop H[MAXO]; static int nh;
static zt_log_ty *mine[8]; static int nmine, mine_closed[8];
static int phase_use;      /* logging happens: nobody closes what may be in use */
static int id_of(zt_log_ty *p) { for (int i = 0; i < nmine; i++) if (mine[i] == p && mine_closed[i] != 1) return i; return -1; }
static int closer[8];      /* which thread closes this logger */
static void *installing(void *a) {
    int th = (int)(long)a, n = 1 + (int)ch("ops", 3);
    for (int k = 0; k < n && nh < MAXO; k++) {
        hop *h = &H[nh++]; h->thr = th;
        int c = (int)ch("op", 4);
        h->sink = -1;
        if (c == 0 || c == 1) {
            int pick = -1; for (int i = 0; i < nmine; i++) if (closer[i] == th && !mine_closed[i]) pick = i;
            if (pick >= 0) {
                h->op = O_INSTALL; h->arg = pick; closer[pick] = 100 + th;    /* installed once */
                h->b = ++tick; h->ret = zt_log_logger(mine[pick]); h->e = ++tick;
                ev("T%ld installs logger %ld", th, pick, 0);
            } else { h->op = O_NULL; h->b = ++tick; h->ret = zt_log_logger(NULL); h->e = ++tick; ev("T%ld logger(NULL)", th, 0, 0); }
        } else if (c == 2 && !phase_use) {
            int pick = -1; for (int i = 0; i < nmine; i++) if (closer[i] == 100 + th && !mine_closed[i]) pick = i;
            if (pick >= 0) { h->op = O_CLOSE; h->arg = pick; mine_closed[pick] = 2; h->b = ++tick; zt_log_close(mine[pick]); h->e = ++tick; mine_closed[pick] = 2; ev("T%ld closes logger %ld", th, pick, 0); probe("close"); }
            else { h->op = O_NULL; h->b = ++tick; h->ret = zt_log_logger(NULL); h->e = ++tick; }
        } else if (phase_use) {
            h->op = O_USE; h->arg = nh - 1;
            h->b = ++tick; zt_log_printf(zt_log_err, "use%d.", h->arg); h->e = ++tick;
        } else { h->op = O_NULL; h->b = ++tick; h->ret = zt_log_logger(NULL); h->e = ++tick; }
        if (ch_p("pause", 1, 4)) sim_idle((int)ch("pause-len", 5));
    }
    return NULL;
}
/* linearizability of the recorded history against the obvious sequential object.
 * state: 0 none, 1+i custom logger i, 100+k the k-th automatically created one */
static zt_log_ty *bind[MAXO]; static int nauto;
static long lin_budget;
static int lin(unsigned done, int cur) {
    if (--lin_budget < 0) return 1;
    if (done == (1u << nh) - 1) return 1;
    long mine_e = 0; for (int i = 0; i < nh; i++) if (!(done >> i & 1) && (!mine_e || H[i].e < mine_e)) mine_e = H[i].e;
    for (int i = 0; i < nh; i++) {
        if (done >> i & 1 || H[i].b > mine_e) continue;     /* somebody else finished before this one began */
        hop *h = &H[i]; int na = nauto, nx = cur, ok = 1, bound = -1;
        switch (h->op) {
        case O_INSTALL: case O_NULL:
            if (h->op == O_NULL && cur == 0) { nx = 100 + nauto; bind[nauto] = h->ret; ok = h->ret != NULL; for (int k = 0; k < nauto; k++) if (bind[k] == h->ret) ok = 0; if (id_of(h->ret) >= 0) ok = 0; nauto++; }
            else {
                if (cur == 0) ok = h->ret == NULL;
                else if (cur < 100) ok = h->ret == mine[cur - 1];
                else { if (!bind[cur - 100]) { bind[cur - 100] = h->ret; bound = cur - 100; ok = h->ret && id_of(h->ret) < 0; for (int k = 0; k < nauto; k++) if (k != cur - 100 && bind[k] == h->ret) ok = 0; } else ok = bind[cur - 100] == h->ret; }
                nx = h->op == O_NULL ? 0 : 1 + h->arg;
            }
            break;
        case O_USE:
            if (cur == 0) { nx = 100 + nauto; bind[nauto] = NULL; nauto++; ok = h->sink == 100; }
            else ok = cur < 100 ? h->sink == cur : h->sink == 100;
            break;
        case O_CLOSE: if (cur == 1 + h->arg) nx = 0; break;
        }
        if (ok && lin(done | 1u << i, nx)) return 1;
        nauto = na; if (bound >= 0) bind[bound] = NULL;
    }
    return 0;
}
static size_t base_live;
/* an exit callback of the program that runs after the one that releases automatic defaults, and logs */
static int late_how; static long late_ran;
static void late(void *a) {
    late_ran++;
    if (late_how != 2) { size_t n0; stderr_text(&n0); zt_log_printf(zt_log_err, "late record"); size_t n; const char *t = stderr_text(&n); CHECK(n > n0 && n - n0 < 200 && memmem(t + n0, n - n0, "late record", 11), "lost-record", "a call to the default logger during exit produced no record"); }
    if (late_how != 1) { zt_log_ty *p = zt_log_logger(NULL); CHECK(p, "default-logger", "no default logger during exit"); if (late_how == 3) zt_log_close(p); }
    probe("logging-during-exit");
}
static void at_exit_check(int code) {
    CHECK(late_ran == (late_how != 0), "exit-callback", "an exit callback ran %ld times", late_ran);
    CHECK(code == 0, "exit-code", "exit code %d", code);
    if (heap_live() != base_live) { heap_dump_since(0); sim_fail("leak", "%ld blocks remain after exit released the default loggers", (long)(heap_live() - base_live)); }
}
static void *first_use(void *a) {
    switch (ch("first", 4)) {
    case 0: CHECK(zt_log_get_level(NULL) == zt_log_max, "default-logger", "a fresh default logger has level %d", zt_log_get_level(NULL)); break;
    case 1: zt_log_printf(zt_log_err, "first%ld.", (long)a); break;
    case 2: zt_log_set_level(NULL, zt_log_max); break;
    default: CHECK(zt_log_get_opts(NULL) == ZT_LOG_WITH_LEVEL, "default-logger", "a fresh default logger has options %#x", zt_log_get_opts(NULL));
    }
    return NULL;
}
static void run_first_use(int n) {
    int id[32];
    for (int i = 0; i < n; i++) id[i] = fiber_spawn(first_use, (void *)(long)i, "first-user");
    for (int i = 0; i < n; i++) fiber_join(id[i]);
}
static void c09_stampede(int n) {
    /* what one creation costs, measured twice on one thread, then by a stampede */
    long cost[3]; int more = big7 ? (int)ch("more-defaults", 300) : 0;
    for (int round = 0; round < 3; round++) {
        size_t h = heap_live();
        run_first_use(round < 2 ? 1 : n);
        cost[round] = (long)heap_live() - (long)h;
        zt_log_ty *p = zt_log_logger(NULL);
        CHECK(p, "default-logger", "no default logger after its first use");
        int how = (int)ch("dispose", 3);
        if (how == 0) { zt_log_close(p); probe("closed-automatic-logger"); }
        else if (how == 1) { CHECK(zt_log_logger(p) == NULL, "default-logger", "the default was not taken out"); zt_log_close(p); probe("closed-automatic-default"); }
        if (round == 2) break;
    }
    CHECK(cost[2] == cost[1], "several-defaults", "the first use by %d threads at once creates %ld blocks, by one thread %ld", n, cost[2], cost[1]);
    for (long first = 0, k, warm = 0; more-- > 0; ) { size_t h = heap_live(); zt_log_printf(zt_log_err, "again %d", more); k = (long)(heap_live() - h); if (first) CHECK(k == first, "several-defaults", "a first use costs %ld blocks, the one before cost %ld", k, first); zt_log_ty *p = zt_log_logger(NULL); CHECK(p, "default-logger", "no default logger after its first use"); if (ch("dispose", 2)) zt_log_close(p); first = warm ? k : 0; warm = 1; }
    if (ch_p("leave-one", 1, 2)) run_first_use(1);
}
static void c09(void) {
    sim_step_limit(4000000, "stuck"); sim_deadlock_kind("stuck");
    zt_progname("prog", 0);
    if (ch_p("late-user", 1, 4)) { late_how = 1 + (int)ch("late-how", 3); zt_log_set_debug_info(NULL, -1, NULL); }   /* the main thread keeps its location record */
    if ((big7 = sim_large())) zt_log_set_debug_info(NULL, -1, NULL);
    base_live = heap_live();
    sim_exit_cb = at_exit_check;
    int n = 2 + (int)ch("threads", 3);
    if (late_how) zt_atexit(late, NULL);
    if (ch_p("stall-on", 1, 3)) fault_set(F_STALL, 1, 60, -1);
    if (ch_p("stampede", 1, 3)) { if (big7) n = 2 + (int)ch("threads", 28); sim_desc("first use by %d threads ", n); sim_nontrivial(); c09_stampede(n); sim_exit(0); }
    phase_use = (int)ch("with-logging", 2);
    nmine = 1 + (int)ch("own-loggers", 4);
    for (int i = 0; i < nmine; i++) { char p[32]; snprintf(p, sizeof p, "/tmp/own%d", i); mine[i] = zt_log_file(p, ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); closer[i] = (int)ch("owner", (uint32_t)n); }
    sim_desc("threads=%d own-loggers=%d %s ", n, nmine, phase_use ? "use" : "close"); sim_nontrivial();
    int id[8];
    for (int t = 0; t < n; t++) id[t] = fiber_spawn(installing, (void *)(long)t, "installing");
    for (int t = 0; t < n; t++) fiber_join(id[t]);
    if (nh < MAXO) { hop *h = &H[nh++]; h->op = O_NULL; h->b = ++tick; h->ret = zt_log_logger(NULL); h->e = ++tick; h->thr = 99; }
    for (int i = 0; i < nmine; i++) if (!mine_closed[i]) { zt_log_close(mine[i]); }
    /* which sink took the record of each use? */
    for (int i = 0; i < nmine; i++) {
        char p[32], b[4096]; snprintf(p, sizeof p, "/tmp/own%d", i);
        ssize_t k = fs_get(p, b, sizeof b - 1); if (k < 0) k = 0;
        b[k] = 0;
        for (int j = 0; j < nh; j++) if (H[j].op == O_USE) { char t[32]; snprintf(t, sizeof t, "use%d.", j); if (strstr(b, t)) { CHECK(H[j].sink < 0, "duplicate-record", "one call appears in two sinks"); H[j].sink = 1 + i; } }
    }
    size_t en; const char *et = stderr_text(&en);
    for (int j = 0; j < nh; j++) if (H[j].op == O_USE) {
        char t[32]; snprintf(t, sizeof t, "use%d.", j);
        char *c = malloc(en + 1); memcpy(c, et, en); c[en] = 0;
        if (strstr(c, t)) { CHECK(H[j].sink < 0, "duplicate-record", "one call appears in two sinks"); H[j].sink = 100; }
        free(c);
        CHECK(H[j].sink >= 0, "lost-record", "a call to the default logger produced no record");
    }
    memset(mine_closed, 0, sizeof mine_closed);
    lin_budget = 3000000;
    if (nh <= 20 && !lin(0, 0)) {
        char b[900]; size_t o = 0; b[0] = 0;
        for (int i = 0; i < nh && o + 70 < sizeof b; i++) o += (size_t)snprintf(b + o, sizeof b - o, "[%ld-%ld T%d %s%s%d -> %d] ", H[i].b, H[i].e, H[i].thr, H[i].op == O_INSTALL ? "install " : H[i].op == O_NULL ? "logger(NULL)" : H[i].op == O_USE ? "log " : "close ", "", H[i].arg, H[i].op == O_USE ? H[i].sink : id_of(H[i].ret) >= 0 ? 1 + id_of(H[i].ret) : H[i].ret ? 100 : 0);
        sim_fail("not-linearizable", "no order of the calls explains what they returned: %s", b);
    }
    if (lin_budget < 0) probe("linearization-budget-exhausted");
    sim_exit(0);
}
SCN(C09, c09, "two or more threads use or install the default logger", "zt_log.c, zt_log/*.c, zt_atexit.c", "pthread mutex/once/key, process exit, stdio, malloc, scheduler")

/* ------------------------------------------------------------------ C10 */
static char model[1 << 20]; static size_t model_n;
static int nrec;
static const char *const P10 = "/tmp/app.log";
static int cnt_lines(const char *b, size_t n) { int c = 0; for (size_t i = 0; i < n; i++) c += b[i] == '\n'; return c; }
typedef struct { char *t; size_t n; int certain; } frec; static frec FR[512];
static char other10[1 << 19]; static size_t other10_n;
static void c10(void) {
    sim_step_limit(8000000, "stuck"); sim_deadlock_kind("stuck");
    zt_progname("prog", 0);
    static char content[1 << 20];
    zt_log_set_debug_info(NULL, 0, NULL);       /* this thread's location record exists from here on */
    int faults = (int)ch("faults", 5);       /* 0 none, 1 open, 2 write errors, 3 disk full, 4 short writes/close errors */
    int sessions = 1 + (int)ch("sessions", 4), big = sim_large();
    sim_desc("sessions=%d faults=%s ", sessions, faults == 0 ? "none" : faults == 1 ? "open" : faults == 2 ? "write" : faults == 3 ? "disk-full" : "short+close");
    if (ch_p("preexisting", 1, 2)) { model_n = ch("old-size", 3000); for (size_t i = 0; i < model_n; i++) model[i] = i % 37 == 36 ? '\n' : (char)('A' + i % 26); if (model_n) model[model_n - 1] = '\n'; fs_put(P10, model, model_n); }
    int exists = model_n > 0;
    for (int s = 0; s < sessions; s++) {
        size_t h0 = heap_live(); int f0 = fd_open_count(), st0 = streams_open();
        int append = (int)ch("append", 2), raw = (int)ch("raw", 2);
        char path[64]; snprintf(path, sizeof path, "%s", P10);
        int bad = 0;
        if (ch_p("bad-path", 1, 8)) { snprintf(path, sizeof path, "%s", ch("which-bad", 2) ? "/no/such/dir/app.log" : "/tmp"); bad = 1; }
        int of = fault_fired(F_OPEN) + fault_fired(F_ALLOC);
        if (faults == 1) { fault_set(F_OPEN, 1, 2, -1); if (ch_p("few-descriptors", 1, 4)) fd_set_limit((uint64_t)f0); }
        int slots = fd_free_slots();
        /* sometimes a second file logger is in use at the same time */
        const char *P2 = "/tmp/second.log"; zt_log_ty *l2 = NULL; int o2 = (int)ch("other-opened", 3), a2 = 1; size_t fds2 = 0; if (faults == 0 && o2 == 1 && ch_p("other-logger", 1, 2)) { a2 = ch("other-append", 2); l2 = zt_log_file(P2, a2 ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); CHECK(l2, "open-failed", "a second log file could be opened but no logger was returned"); }
        zt_log_ty *l = zt_log_file(path, append ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, raw ? ZT_LOG_RAW : ZT_LOG_WITH_LEVEL);
        fault_set(F_OPEN, 0, 1, 0); fd_set_limit(1024);
        if (bad || slots == 0 || fault_fired(F_OPEN) + fault_fired(F_ALLOC) > of) {
            if (l2) { zt_log_close(l2); l2 = NULL; if (!a2) other10_n = 0; }
            CHECK(l == NULL, "failure-not-reported", "the log file could not be opened but a logger was returned");
            CHECK(heap_live() == h0, "leak", "a failed open leaves %ld blocks allocated", (long)(heap_live() - h0));
            CHECK(fd_open_count() == f0 && streams_open() == st0, "fd-leak", "a failed open leaves a descriptor or stream open");
            probe("open-failure"); sim_nontrivial();
            if (exists) { ssize_t k = fs_get(P10, content, sizeof content); CHECK(k == (ssize_t)model_n && !memcmp(content, model, model_n), "content-changed", "a failed open changed the file"); }
            stderr_reset();
            continue;
        }
        CHECK(l, "open-failed", "the log file could be opened but no logger was returned");
        exists = 1;
        if (faults == 0 && !l2 && o2 == 2 && ch_p("other-logger", 1, 2)) { a2 = ch("other-append", 2); l2 = zt_log_file(P2, a2 ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW); CHECK(l2, "open-failed", "a second log file could be opened but no logger was returned"); } if (!a2) other10_n = 0; (void)fds2;
        if (!append) model_n = 0;
        if (faults == 2) fault_set(ch("which-error", 2) ? F_WRITE_EIO : F_WRITE_ENOSPC, 1, 2, -1);
        if (faults == 3 && ch_p("disk-limit", 2, 3)) fs_set_cap((long)ch("disk-left", 12000));
        if (faults == 4) { fault_set(F_WRITE_SHORT, 1, 2, -1); fault_set(F_CLOSE_EIO, 1, 2, -1); }
        int w0 = fault_fired(F_WRITE_EIO) + fault_fired(F_WRITE_ENOSPC), n = (int)ch("records", big ? 400 : 12), nf = 0, died = 0;
        size_t base = model_n; int heal = faults >= 2 && n && ch("storage-recovers", 2) ? (int)ch("recovers-at", (uint32_t)n) : n;
        for (int i = 0; i < n; i++) {
            if (i == heal) { fault_set(F_WRITE_EIO, 0, 1, 0); fault_set(F_WRITE_ENOSPC, 0, 1, 0); fs_set_cap(-1); }
            int lev = (int)ch("level", 8); size_t len = ch_p("long", 1, big ? 40 : 3) ? ch("len", 9000) : ch("len", 200);
            char *t = malloc(len + 64); int h = snprintf(t, 64, "%s%s#%d:", raw ? "" : LV[lev], raw ? "" : ": ", nrec);
            for (size_t k = 0; k < len; k++) t[h + k] = (char)('a' + (nrec + k) % 26);
            t[h + len] = '\n';
            FR[nf].t = t; FR[nf].n = (size_t)h + len + 1; nf++; nrec++;
            char save = t[h + len]; t[h + len] = 0;
            zt_log_lprintf(l, (zt_log_level)lev, "%s", t + (raw ? 0 : strlen(LV[lev]) + 2));
            t[h + len] = save;
            if (l2 && ch("other-record", 2) && other10_n < sizeof other10 - 600) { char q[520]; size_t m = ch("other-length", 500); memset(q, 'A' + nrec % 26, m); q[m] = 0; zt_log_lprintf(l2, zt_log_emerg, "%s", q); q[m] = '\n'; memcpy(other10 + other10_n, q, m + 1); other10_n += m + 1; probe("two-file-loggers"); if (ch_p("other-closed-first", 1, 10)) { zt_log_close(l2); l2 = NULL; } }
            if (!(fault_fired(F_WRITE_EIO) + fault_fired(F_WRITE_ENOSPC) - w0) && ch("look", 2)) {    /* what a crash here would leave: the records so far, perhaps without the last bytes */
                ssize_t k = fs_get(P10, content, sizeof content); size_t o = base; CHECK(k >= (ssize_t)base && !memcmp(content, model, base), "content-lost", "earlier content of the log file changed");
                for (int j = 0; j < nf && o < (size_t)k; j++) { size_t m = (size_t)k - o < FR[j].n ? (size_t)k - o : FR[j].n; CHECK(!memcmp(content + o, FR[j].t, m), "out-of-order", "while the logger is open the file holds something other than the records in order (record %d)", j); o += m; }
                CHECK(o == (size_t)k, "foreign-bytes", "the log file holds bytes nobody logged"); if (o > base) probe("seen-while-open");
                if (ch_p("process-dies", 1, 6)) { died = 1; break; }
            }
        }
        if (died) { /* the process dies with the logger open: nothing is flushed, the next session finds what was stored */
            fault_set(F_WRITE_EIO, 0, 1, 0); fault_set(F_WRITE_ENOSPC, 0, 1, 0); fs_set_cap(-1); probe("process-died"); sim_nontrivial(); { ssize_t k2 = fs_get(P2, other10, sizeof other10); other10_n = k2 > 0 ? (size_t)k2 : 0; }
            ssize_t k = fs_get(P10, content, sizeof content); memcpy(model, content, (size_t)k); model_n = (size_t)k; for (int i = 0; i < nf; i++) free(FR[i].t); stderr_reset();
            if (model_n > sizeof model / 2) break; continue;
        }
        int second = l2 && ch("other-closed-last", 2); if (l2 && !second) { zt_log_close(l2); l2 = NULL; }
        zt_log_close(l);
        if (l2) { zt_log_lprintf(l2, zt_log_emerg, "after"); memcpy(other10 + other10_n, "after\n", 6); other10_n += 6; zt_log_close(l2); l2 = NULL; }
        if (faults == 0) { ssize_t k2 = fs_get(P2, content, sizeof content); if (k2 >= 0 || other10_n) CHECK(k2 == (ssize_t)other10_n && !memcmp(content, other10, other10_n), "record-lost", "the file of a second logger holds %zd bytes, not the %zu logged to it", k2, other10_n); }
        fault_set(F_WRITE_EIO, 0, 1, 0); fault_set(F_WRITE_ENOSPC, 0, 1, 0); fs_set_cap(-1);
        int refused = fault_fired(F_WRITE_EIO) + fault_fired(F_WRITE_ENOSPC) - w0;
        CHECK(heap_live() == h0, "leak", "a closed file logger leaves %ld blocks allocated", (long)(heap_live() - h0));
        CHECK(fd_open_count() == f0 && streams_open() == st0, "fd-leak", "a closed file logger leaves a descriptor or stream open");
        ssize_t k = fs_get(P10, content, sizeof content);
        CHECK(k >= (ssize_t)base && (size_t)k <= sizeof content, "content-lost", "the log file is %zd bytes, %zu were there before", k, base);
        CHECK(!memcmp(content, model, base), "content-lost", "earlier content of the log file changed");
        if (!refused) {
            size_t o = base;
            for (int i = 0; i < nf; i++) { CHECK(o + FR[i].n <= (size_t)k && !memcmp(content + o, FR[i].t, FR[i].n), "record-lost", "record %d of %d is missing or damaged although no write was refused", i, nf); o += FR[i].n; }
            CHECK(o == (size_t)k, "foreign-bytes", "the log file holds bytes nobody logged");
            if (nf) sim_nontrivial();
        } else {
            probe("write-refused"); sim_nontrivial();
            /* what is stored is made of pieces of the records, in order; a refused write damages or drops records, no more than one piece per refusal */
            size_t o = base; int i = 0, whole = 0; size_t off = 0; int cuts = 0;
            while (o < (size_t)k) {
                /* longest continuation of record i from off */
                if (i < nf && off < FR[i].n && content[o] == FR[i].t[off]) { o++; off++; if (off == FR[i].n) { i++; off = 0; whole++; } continue; }
                /* a cut: find a later position (record, offset) that continues here, preferring the nearest */
                cuts++;
                int ok = 0;
                for (int j = i; j < nf && !ok; j++) for (size_t q = j == i ? off : 0; q < FR[j].n; q++) {
                    size_t m = (size_t)k - o < FR[j].n - q ? (size_t)k - o : FR[j].n - q; if (m > 24) m = 24;
                    if (!memcmp(content + o, FR[j].t + q, m)) { i = j; off = q; ok = 1; break; }
                }
                CHECK(ok, "foreign-bytes", "bytes in the log file belong to no record at this place (offset %zu)", o - base);
            }
            size_t healed = 0; for (int j = heal; j < nf; j++) healed += FR[j].n;
            if (healed) { probe("storage-recovered"); CHECK(base + healed <= (size_t)k, "record-lost", "records logged after the storage worked again are missing"); for (int j = heal; j < nf; healed -= FR[j++].n) CHECK(!memcmp(content + k - healed, FR[j].t, FR[j].n), "record-lost", "record %d of %d, logged after the storage worked again, is missing or damaged", j, nf); }
            CHECK(cuts <= refused, "record-lost", "%d pieces are missing in the middle although only %d writes were refused", cuts, refused);
        }
        memcpy(model, content, (size_t)k); model_n = (size_t)k;
        for (int i = 0; i < nf; i++) free(FR[i].t);
        stderr_reset();
        if (model_n > sizeof model / 2) break;
    }
    (void)cnt_lines;
}
SCN(C10, c10, "records are written, or an open or write is refused", "zt_log.c, zt_log/log_file.c, zt_log/log_private.c", "stdio on simulated files and disk, malloc")
