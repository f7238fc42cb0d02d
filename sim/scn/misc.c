/* C24 random identifiers from concurrent threads, C25 timing of a function. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <zt.h>
#include <libzt/zt_uuid.h>
#include <libzt/zt_random.h>
#include <libzt/zt_time.h>
#include <libzt/zt_log.h>

/* ============================ C24 =================================== */
#define NU 1400
static unsigned char U[NU][16]; static int nu, by[NU]; static int jitter, many;
static void c24_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory"); }
static void take(int who) {
    zt_uuid_t u; memset(&u, 0x5A, sizeof u); CHECK(zt_uuid4(&u) == 0, "refused", "no identifier was generated");
    unsigned char *b = u.data.bytes;
    CHECK(b[6] >> 4 == 4, "not-random-version", "an identifier carries version %d", b[6] >> 4);
    CHECK(b[8] >> 6 == 2, "not-random-version", "an identifier carries variant bits %d", b[8] >> 6);
    for (int i = 0; i < nu; i++) {
        CHECK(memcmp(U[i], b, 16), "collision", "thread %d generated the identifier that thread %d generated before (number %d of %d)", who, by[i], i, nu);
        /* two independent identifiers practically never agree in a whole 32-bit word at the same place; a shared word means a shared stream */
    }
    if (nu < NU) { memcpy(U[nu], b, 16); by[nu] = who; nu++; }
}
static int fork_among, level; static void fork_here(int same_pid);
static void *gen(void *a) {
    int who = (int)(long)a, n = 1 + (int)ch("identifiers", 8);
    if (many && ch_p("many", 1, 2)) { n = 150 + (int)ch("how-many", 180); probe("generator-reloaded"); }   /* beyond the words the generator makes at a time */
    while (n--) { take(who); if (ch_p("fork-here", 1, 40)) { if (fork_among && level < 2) { fork_here(0); probe("forked-among-threads"); } } if (jitter && ch_p("clock-step", 1, 3)) { sim_wall_step(-(int64_t)ch("back-s", 3) * 1000000000LL); fault_count(F_CLOCKSTEP); } }
    return NULL;
}
/* another process of the program: forked somewhere in this one's history, or started on its own (a copy of this one before it
 * generated anything) with another process id or at another time */
static struct oth { int n, busy; unsigned char u[400][16]; } *other[40]; static int ancestor[4]; static int64_t wall0; static struct { int n, reused; int pid[64]; } *used;
static void other_process(void *a) {
    int n = 1 + (int)ch("identifiers", 6), in_thread = ch_p("in-a-thread", 1, 3), from = nu; struct oth *o = a; level++; if (level < 4) ancestor[level] = proc.pid;
    if (level < 3 && ch_p("grandchild-first", 1, 8)) {
        if (ch_p("id-of-an-ancestor", 1, 2)) fork_here(2); else fork_here(0);
        probe("grandchild");
    }
    if (in_thread) { int id = fiber_spawn(gen, (void *)(long)800, "generator"); fiber_join(id); } else while (n--) take(900);
    if (in_thread && ch("first-thread-too", 2)) take(900);
    if (level < 3 && ch_p("grandchild", 1, 6)) { int k = 1 + (int)ch("grandchildren", 2); while (k--) fork_here(0); probe("grandchild"); if (ch("child-goes-on", 2)) take(900); }
    for (int i = from; i < nu && o->n < 400; i++) memcpy(o->u[o->n++], U[i], 16);
}
/* a process id no earlier process of the run had: next to another one, or equal to it but for its upper bits */
static int fresh_pid(void) {
    static const int step[] = { 1, 1, 256, 4096, 32768, 65536, 1 << 20 }; if (!used) used = sim_shared(sizeof *used);
    int p = (used->n ? used->pid[ch("pid-like", (uint32_t)used->n)] : proc.pid), s = step[ch("pid-step", 7)]; if (used->n >= 64) sim_error("too many processes");
    for (int again = 1; again; ) { p += s; if (p > 4194304) { p = 300 + p % 200; s = 1; } again = p == 4242; for (int i = 0; i < used->n; i++) again |= used->pid[i] == p; }
    return used->pid[used->n++] = p;
}
static void fork_here(int same_pid) {
    int s = 0, reuse = 0; if (used && used->n >= 60) return; while (s < 40 && other[s] && other[s]->busy) s++; if (s == 40) sim_error("too many processes"); if (!other[s]) other[s] = sim_shared(sizeof *other[s]);
    struct oth *o = other[s]; o->n = 0; o->busy = 1; int64_t w = sim_wall_ns(); if (!used) used = sim_shared(sizeof *used);
    if (same_pid == 2) { int a = ancestor[ch("which-ancestor", (uint32_t)level)]; if (a == proc.pid) same_pid = 0; else reuse = a; }
    int pid = same_pid == 2 ? reuse : same_pid ? 0 : fresh_pid();
    /* an id comes back only when the process that had it is long gone: here it is a day or more later than there */
    if (same_pid == 2) { sim_wall_set(wall0 + ++used->reused * 86400000000000LL); probe("id-of-a-dead-ancestor"); same_pid = 0; }
    sim_process(pid, other_process, o); o->busy = 0;
    for (int i = 0; i < o->n; i++) { for (int j = 0; j < nu; j++) CHECK(memcmp(U[j], o->u[i], 16), "collision", "process %d generated the identifier that thread %d of another process generated", pid, by[j]); if (nu < NU) { memcpy(U[nu], o->u[i], 16); by[nu++] = 1000 + pid; } }
    probe(same_pid ? "process-id-reused" : "forked-process"); if (same_pid) sim_wall_set(w + 500000 + 1000 * (int64_t)ch("later-us", 3) * (int64_t)ch("later-by", 1000000));
}
static void c24(void) {
    sim_step_limit(30000000, "hang"); sim_abort_cb = c24_abort;
    int crowd = ch_p("crowd", 1, 25), rounds = crowd ? 6 + (int)ch("rounds", 5) : 1 + (int)ch("rounds", 3), total = 0; if (crowd) probe("many-threads"); jitter = ch_p("clock-steps", 1, 3); many = ch_p("long", 1, 30);
    if (ch_p("oom", 1, 10)) fault_set(F_ALLOC, 1, 4, 1);
    fork_among = !crowd && ch_p("forks-among-threads", 1, 3); ancestor[0] = proc.pid; wall0 = sim_wall_ns();
    if (ch_p("process-before", 1, 6)) { int k = 1 + (int)ch("processes", ch_p("many-processes", 1, 6) ? 9 : 2); while (k--) fork_here((int)ch("same-pid", 2)); sim_nontrivial(); }
    if (ch_p("main-first", 1, 3)) { take(0); probe("main-generated-first"); }
    size_t h0 = 0; int64_t wall = sim_wall_ns();
    sim_desc("rounds=%d clock-steps=%d ", rounds, jitter);
    for (int r = 0; r < rounds; r++) {
        int nt = 1 + (int)ch("threads", 4), id[4]; size_t h = heap_live(); int f0 = fault_fired(F_ALLOC);
        if (ch_p("same-second", 1, 2)) sim_wall_set(wall);   /* the threads of this round start with the clock at the same reading again */
        for (int i = 0; i < nt; i++) id[i] = fiber_spawn(gen, (void *)(long)++total, "generator");
        for (int i = 0; i < nt; i++) fiber_join(id[i]);
        if (nt > 1) { probe("concurrent-generators"); sim_nontrivial(); } if (r) probe("later-threads");
        if (ch_p("process-after", 1, 6)) { if (nu) probe("forked-after-use"); int k = ch_p("siblings", 1, 3) ? 2 + (int)ch("how-many-siblings", 3) : 1; while (k--) fork_here(0); sim_nontrivial(); }
        CHECK(heap_live() == h || f0 != fault_fired(F_ALLOC), "leak", "%ld blocks stay allocated after the generating threads ended", (long)(heap_live() - h));
    }
    (void)h0; take(0); take(0);
}
SCN(C24, c24, "two or more threads generated identifiers concurrently", "zt_uuid.c, zt_random.c, zt_malloc.c", "thread scheduler, thread-specific data, clock, process id, allocator, generating threads (stub)")

/* ============================ C25 =================================== */
static int calls, timed_data; static int64_t spent_u, spent_s; static int nested; static long c_max_u, c_max_s;
static void *timed(void *d) {
    CHECK(d == &timed_data, "wrong-argument", "the timed function got other data");
    calls++; int64_t u = ch("user-us", (uint32_t)c_max_u + 1), s = ch("system-us", (uint32_t)c_max_s + 1); sim_ru_user_us += u; sim_ru_sys_us += s; spent_u += u; spent_s += s;
    if (ch_p("yield", 1, 8)) sim_idle(2);
    return (void *)(uintptr_t)(1000 + calls);
}
static int64_t us(struct timeval *t) { CHECK(t->tv_usec >= 0 && t->tv_usec < 1000000, "not-normalised", "a reported time has %ld microseconds", (long)t->tv_usec); return (int64_t)t->tv_sec * 1000000 + t->tv_usec; }
static struct timeval tvof(int64_t v) { struct timeval t = { v / 1000000, v % 1000000 }; if (t.tv_usec < 0) { t.tv_usec += 1000000; t.tv_sec--; } return t; }
static void c25(void) {
    sim_step_limit(5000000, "hang");
    static const long mx[] = { 0, 5, 999, 400000, 1000001, 30000000 }; int n = 1 + (int)ch("timings", 6), calibrated = 0; int64_t cal_u = 0, cal_s = 0;
    int64_t old = ch_p("old-process", 1, 4) ? 3000017 : 1; if (old > 1) probe("long-running-process"); sim_ru_user_us = ch("start-s", 100) * old * 1000000LL + ch("start-us", 1000000); sim_ru_sys_us = ch("start-s", 100) * old * 1000000LL + 990000 + ch("start-us", 10000);
    int overhead = ch_p("overhead", 1, 2);
    if (overhead) { sim_ru_cost_user = ch("cost", 5000); sim_ru_cost_sys = ch("cost", 5000); }
    sim_desc("timings=%d reading-cost=%ld+%ld ", n, (long)sim_ru_cost_user, (long)sim_ru_cost_sys);
    for (int k = 0; k < n; k++) {
        if (ch_p("calibrate", 1, 3)) {
            if (overhead && ch_p("cost-changes", 1, 2)) { sim_ru_cost_user = ch("cost", 5000); sim_ru_cost_sys = ch("cost", 5000); }
            zt_time_calibrate(); if (calibrated) probe("calibrated-again"); calibrated = 1; cal_u = sim_ru_cost_user; cal_s = sim_ru_cost_sys;
        }
        struct time_result r; memset(&r, 0x33, sizeof r);
        int cnt = ch_p("many-calls", 1, 60) ? 30000 + (int)ch("count", 40000) : (int)ch("count", 12), nul = cnt == 0 && ch("no-function", 2); c_max_u = mx[ch("user-class", 6)]; c_max_s = mx[ch("system-class", 6)]; calls = 0; spent_u = spent_s = 0; int64_t u0 = sim_ru_user_us % 1000000, s0 = sim_ru_sys_us % 1000000;
        void *v = zt_time(cnt, &r, nul ? NULL : timed, &timed_data); ev("timed %ld calls", cnt, 0, 0);
        CHECK(calls == cnt, "wrong-call-count", "the timed function was called %d times instead of %d", calls, cnt);
        CHECK(v == (cnt ? (void *)(uintptr_t)(1000 + cnt) : NULL), "wrong-result", "timing %d calls did not return the last result", cnt);
        int64_t u = us(&r.usr_time), s = us(&r.sys_time);
        if (u0 + spent_u >= 1000000 || s0 + spent_s >= 1000000) { probe("carry"); sim_nontrivial(); }
        /* what the timing itself costs is at most one reading per end; with calibration it is taken off exactly */
        if (calibrated) { int64_t eu = spent_u + sim_ru_cost_user - cal_u, es = spent_s + sim_ru_cost_sys - cal_s; CHECK(u == eu && s == es, "wrong-time", "reported %ld+%ld us after calibration, the calls consumed %ld+%ld", (long)u, (long)s, (long)eu, (long)es); probe("calibrated"); }
        else CHECK(u >= spent_u && u <= spent_u + 2 * sim_ru_cost_user && s >= spent_s && s <= spent_s + 2 * sim_ru_cost_sys, "wrong-time", "reported %ld+%ld us, the calls consumed %ld+%ld", (long)u, (long)s, (long)spent_u, (long)spent_s);
        float fu, fs, ft; zt_time_result_to_elapsed(&r, &fu, &fs, &ft);
        CHECK(fabs(fu - (double)u / 1e6) <= 1e-6 + fabs((double)u) / 1e6 * 1e-6 && fabs(fs - (double)s / 1e6) <= 1e-6 + fabs((double)s) / 1e6 * 1e-6 && fabs(ft - (double)(u + s) / 1e6) <= 2e-6 + fabs((double)(u + s)) / 1e6 * 2e-6, "wrong-time", "elapsed %g+%g=%g seconds for %ld+%ld us", fu, fs, ft, (long)u, (long)s);
        if (ch_p("arithmetic", 1, 3)) {
            int64_t far = ch_p("far", 1, 4) ? 1 + (int64_t)ch("far-by", 4000) * 1000003 : 1, a = (int64_t)(ch("a-s", 1000) * far) * 1000000LL + ch("a-us", 1000000), b = (int64_t)(ch("b-s", 1000) * far) * 1000000LL + (ch_p("whole-second", 1, 4) ? (1000000 - a % 1000000) % 1000000 : ch_p("same-us", 1, 4) ? a % 1000000 : ch("b-us", 1000000)); if (ch_p("negative-a", 1, 6)) a = -a; if (ch_p("negative-b", 1, 6)) b = -b; struct timeval x = tvof(a), y = tvof(b), o;
            CHECK(us(zt_add_time(&o, &x, &y)) == a + b, "wrong-arithmetic", "sum of %ld and %ld us", (long)a, (long)b);
            CHECK(us(zt_sub_time(&o, &x, &y)) == a - b, "wrong-arithmetic", "difference of %ld and %ld us", (long)a, (long)b);
            CHECK(us(zt_diff_time(&o, &x, &y)) == b - a, "wrong-arithmetic", "difference from %ld to %ld us", (long)a, (long)b);
            if (ch_p("report", 1, 3)) {   /* what is printed is what was measured */
                int times = ch_p("many-times", 1, 6) ? (int)ch("times", 2000000) : (int)ch("times", 5); char want[300]; size_t tn; stderr_reset(); const char *nm = ch("name", 2) ? "the function" : "100%s done"; zt_time_print_result(&r, (char *)nm, times); const char *got = stderr_text(&tn);
                if (times <= 1) snprintf(want, sizeof want, "%s took: %4.2fs user %4.2fs system %4.2fs total\n", nm, fu, fs, ft); else snprintf(want, sizeof want, "%d calls of %s took: %4.2fs user %4.2fs system %4.2fs total\n", times, nm, fu, fs, ft);
                size_t wn = strlen(want); CHECK(tn >= wn && !memcmp(got + tn - wn, want, wn) && !memchr(got, '\n', tn - wn), "wrong-report", "the printed result is \"%.200s\" instead of \"%.200s\"", got, want); probe("result-printed"); stderr_reset();
            }
            long c = zt_cmp_time(&x, &y); CHECK((c > 0) - (c < 0) == (a > b) - (a < b), "wrong-arithmetic", "comparison of %ld and %ld us", (long)a, (long)b);
        }
    }
    (void)nested;
}
SCN(C25, c25, "the processor time consumed carried over a second", "zt_time.c", "resource-usage clock, timed function (stub)")
