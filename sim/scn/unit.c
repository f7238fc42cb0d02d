/* C34 the unit-test framework: every test runs, failures are reported and stay where they are */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#define ZT_WITH_UNIT
#include <zt.h>

void c_unit_test(struct zt_unit_test *test, void *data); void cpp_unit_test(struct zt_unit_test *test, void *data); struct zt_unit_suite *cpp_unit_suite(struct zt_unit *, const char *, zt_unit_setup_fn, zt_unit_teardown_fn, void *); static int cpp_live; void c_unit_live(int n) { cpp_live += n; }
struct zt_unit_suite *c_unit_suite(struct zt_unit *, const char *, zt_unit_setup_fn, zt_unit_teardown_fn, void *);
int sim_fflush(void *f);
static void oom_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory"); }

#define NS 24
#define NT 60
#define NML 1200   /* the longest name and its end */
static struct { struct zt_unit_suite *s; char name[NML]; int setup, teardown, n, cpp; struct { struct zt_unit_test *t; char name[NML]; int pass, how, runs; } t[NT]; } S[NS]; static int ns;
static int cur_s, cur_t, left, stage;   /* the test that should be running: stage 0 none, 1 set up, 2 running, 3 ended */
static char expect[NML + 200]; static const char *const FILE_[] = { "unit.c:", "unit_cpp.cpp:" };
/* the run the model expects: a list of (suite, test) */
static struct { int s, t, last; } plan[6000]; static char gtxt[NML + 200];
static const char *line_of(const char *p, const char *name, const char *val) { /* one "name   : value" line follows p: its end */
    CHECK(*p == '\n', "report", "the report is cut off"); p++; while (*p == ' ') p++; size_t n = strlen(name); CHECK(!strncmp(p, name, n), "report", "\"%s\" does not follow where it belongs in the report: %.60s", name, p); p += n; while (*p == ' ') p++; CHECK(p[0] == ':' && p[1] == ' ', "report", "\"%s\" has no value in the report", name); p += 2; n = strlen(val); CHECK(!strncmp(p, val, n), "report", "the report gives \"%.*s\" for \"%s\", it is \"%s\"", (int)strcspn(p, "\n"), p, name, val); p += strcspn(p, "\n"); return p; }
static const char *num_line(const char *p, const char *name, long v) { char b[24]; int n = snprintf(b, sizeof b, "%ld", v); const char *e = line_of(p, name, b); CHECK(!memcmp(e - n - 2, ": ", 2), "report", "the report gives another number than %ld for \"%s\"", v, name); return e; }
static int np, at;
static void begin(int s, const char *what) { CHECK(at < np, "extra", "%s is run although every test was", what); CHECK(plan[at].s == s, "order", "%s runs for another suite than it should", what); cur_s = plan[at].s; cur_t = plan[at].t; }
static void setup(void *d) { int s = (int)(intptr_t)d - 1000; CHECK(s >= 0 && s < ns, "data", "the suite's data is not passed to its setup"); CHECK(stage == 0, "order", "setup runs while a test is under way"); begin(s, "a setup"); CHECK(S[s].setup, "extra", "a suite without a setup runs one"); stage = 1; }
static void teardown(void *d) { int s = (int)(intptr_t)d - 1000; CHECK(s >= 0 && s < ns, "data", "the suite's data is not passed to its teardown"); CHECK(stage == 3 && cur_s == s, "order", "teardown runs without its test"); CHECK(S[s].teardown, "extra", "a suite without a teardown runs one"); stage = 0; at++; }
static void over(void) { stage = 3; if (!S[cur_s].teardown) { stage = 0; at++; } }
int unit_next(struct zt_unit_test *test, void *data, const char **text) {
    int s = (int)(intptr_t)data - 1000; CHECK(s >= 0 && s < ns, "data", "the suite's data is not passed to its test");
    if (stage != 2) { if (stage == 0) { begin(s, "a test"); CHECK(!S[s].setup, "order", "a test runs without its setup"); } CHECK(cur_s == s, "order", "a test of another suite runs"); CHECK(S[s].t[cur_t].t == test, "order", "another test runs than the one that is due"); stage = 2; left = S[s].t[cur_t].pass; S[s].t[cur_t].runs++; ev("suite %ld test %ld runs, outcome %ld", s, cur_t, S[s].t[cur_t].how); }
    CHECK(S[s].t[cur_t].t == test, "order", "a test continues as another"); if (left-- > 0) return 1 + (int)ch("assertion", 3);
    int how = S[s].t[cur_t].how; *text = S[s].t[cur_t].name; over(); return how;
}
static const char *error_of(int s, int t) { switch (S[s].t[t].how) { case 4: return "test == NULL : "; case 5: return "(1 == 2) : "; case 6: return "(7 != 7) : "; case 7: return "documented failure : "; case 8: snprintf(expect, sizeof expect, "failed: %s", S[s].t[t].name); return expect; case 9: return "failed deep inside"; case 11: return "unhandled exception: of a kind"; case 12: case 13: return "unhandled exception: unknown"; case 14: return "unhandled exception: NULL"; default: return NULL; } }
static int longnames;   /* texts of any length and kind, but without the dot that separates suite and test on the command line */
static void stretch(char *n) { if (!longnames || !ch_p("long-name", 1, 3)) return; static const char a[] = "nmxyz_NM09 -:%s'\"/\\#\xc3\xa9"; size_t l = strlen(n), k = ch("name-kind", 4); size_t m = k == 0 ? ch("name-length", 40) : k == 1 ? 20 + ch("name-length", 120) : ch("name-length", NML - 40); n[l++] = '-'; int mixed = (int)ch("mixed", 2); for (size_t i = 0; i < m; i++) n[l++] = mixed && i < 60 ? a[ch("letter", sizeof a - 1)] : 'q'; n[l] = 0; if (m > 100) probe("long-name"); }
static long sassert[NS]; static int sempty[NS], sexc[NS];
static int fail_kind(int s) { return 4 + (int)ch("failure", S[s].cpp ? 11 : 7); }
static int nsuites, nsuite_tests, whole[NS], whole_fail[NS];
static void plan_suite(int s) { nsuites++; nsuite_tests += S[s].n; whole[s] += S[s].n; for (int t = 0; t < S[s].n; t++) whole_fail[s] += S[s].t[t].how != 0; for (int t = 0; t < S[s].n; t++) { plan[np].s = s; plan[np].last = t == S[s].n - 1; sassert[s] += S[s].t[t].pass; sempty[s] += !S[s].t[t].pass && S[s].t[t].how < 11; sexc[s] += S[s].t[t].how >= 11; plan[np++].t = t; } }
static void c34(void) {
    sim_step_limit(150000000, "hang"); sim_abort_cb = oom_abort; size_t live0 = heap_live(); int big = sim_large(); ns = (int)ch("suites", big ? NS + 1 : 5); int runs = 1 + (int)ch("runs", 3), dupnames = ch_p("duplicate-names", 1, 4), oom = ch_p("oom", 1, 6), wfail = ch_p("output-fails", 1, 4), io = 0; longnames = ch_p("long-names", 1, 3);
    fs_put("/out", "", 0); fd_install(1, "/out"); if (oom) fault_set(F_ALLOC, 1, 10 + ch("oom-rate", 60), -1);
    struct zt_unit *u = zt_unit_init(); CHECK(u, "refused", "no unit could be created"); stage = at = np = 0;
    for (int s = 0; s < ns; s++) { snprintf(S[s].name, sizeof S[s].name, dupnames ? "s%d" : "suite%d", dupnames ? (int)ch("suite-name", 2) : s); stretch(S[s].name); S[s].setup = (int)ch("setup", 2); S[s].teardown = (int)ch("teardown", 2); S[s].n = (int)ch("tests", big ? NT + 1 : 7); S[s].cpp = (int)ch("c++", 2); char *q = sim_alloc_nf(NML); strcpy(q, S[s].name); S[s].s = (S[s].cpp ? cpp_unit_suite : c_unit_suite)(u, q, S[s].setup ? setup : NULL, S[s].teardown ? teardown : NULL, (void *)(intptr_t)(1000 + s)); memset(q, 'Z', NML - 1); sim_free(q); CHECK(S[s].s, "refused", "no suite could be registered");
        for (int t = 0; t < S[s].n; t++) { snprintf(S[s].t[t].name, sizeof S[s].t[t].name, dupnames ? "t%d" : "test%d", dupnames ? (int)ch("test-name", 3) : t); stretch(S[s].t[t].name); S[s].t[t].pass = (int)ch("assertions", 4); if (ch_p("many-assertions", 1, 40)) { S[s].t[t].pass = 100 + (int)ch("how-many", big ? 40000 : 1200); probe("many-assertions"); } S[s].t[t].runs = 0; S[s].t[t].how = ch_p("fails", 2, 5) ? fail_kind(s) : 0; q = sim_alloc_nf(NML); strcpy(q, S[s].t[t].name); S[s].t[t].t = zt_unit_register_test(S[s].s, q, S[s].cpp ? cpp_unit_test : c_unit_test); memset(q, 'Z', NML - 1); sim_free(q); CHECK(S[s].t[t].t, "refused", "no test could be registered"); } }
    sim_desc("suites=%d runs=%d out-of-memory=%d output-fails=%d ", ns, runs, oom, wfail); sim_sig((uint64_t)ns);
    if (wfail) { fault_set(F_WRITE_EIO, 1, 2 + ch("eio-rate", 4), -1); fault_set(F_WRITE_ENOSPC, 1, 4, -1); }
    int failures = 0, total = 0; long gone_a = 0; int gone_e = 0, gone_x = 0; nsuites = nsuite_tests = 0; memset(whole, 0, sizeof whole); memset(sassert, 0, sizeof sassert); memset(sempty, 0, sizeof sempty); memset(sexc, 0, sizeof sexc); memset(whole_fail, 0, sizeof whole_fail);
    for (int r = 0; r < runs; r++) {
        while (r && ns && ch_p("release-test", 1, 8)) { int s = (int)ch("suite", (uint32_t)ns); if (!S[s].n) break; int t = (int)ch("test", (uint32_t)S[s].n); struct zt_unit_test *x = S[s].t[t].t; zt_unit_release_test(&x); memmove(&S[s].t[t], &S[s].t[t + 1], (size_t)(--S[s].n - t) * sizeof S[s].t[0]); probe("test-released"); }
        while (r && ns && ch_p("release-suite", 1, 12)) { zt_unit_release_suite(&S[--ns].s); gone_a += sassert[ns]; gone_e += sempty[ns]; gone_x += sexc[ns]; CHECK(!S[ns].s, "release", "releasing does not clear the caller's pointer"); probe("suite-released"); }
        if (r && ch("other-outcomes", 2)) { for (int s = 0; s < ns; s++) for (int t = 0; t < S[s].n; t++) if (ch_p("changes", 1, 3)) S[s].t[t].how = S[s].t[t].how ? 0 : fail_kind(s); probe("outcomes-changed"); }
        char *argv[5] = { "unit-test" }, abuf[4][2 * NML]; int argc = 1, exp = 0, badname = 0, mode = (int)ch("mode", 5); at = np = 0; stage = 0; size_t off0; static char out[3000000]; sim_fflush(NULL); ssize_t on = fs_get("/out", out, sizeof out); off0 = on > 0 ? (size_t)on : 0;
        if (mode == 4) { static const char *o[] = { "-h", "--help", "-l", "--list" }; argv[argc++] = (char *)o[ch("option", 4)]; probe("option"); }
        else if (mode >= 2) { int n = 1 + (int)ch("names", 3); for (int k = 0; k < n; k++) { char *b = abuf[k]; static const char *bad[] = { "", ".", "none", "none.test0", "a.b.c", "suite0.", ".test0", "suite0.none", "..", "suite0.test0.", "suite0..test0", ".suite0" }; int w = ch_p("bad-name", 1, 3); argv[argc++] = b;
                if (w || !ns) { strcpy(b, bad[ch("which-bad", 12)]); badname = 1; probe("unknown-name"); continue; }
                int s = (int)ch("suite", (uint32_t)ns); for (int x = 0; x < s; x++) if (!strcmp(S[x].name, S[s].name)) { s = x; break; } if (!S[s].n || ch("whole-suite", 2)) { strcpy(b, S[s].name); plan_suite(s); continue; }
                int t = (int)ch("test", (uint32_t)S[s].n); for (int x = 0; x < t; x++) if (!strcmp(S[s].t[x].name, S[s].t[t].name)) { t = x; break; } snprintf(b, sizeof abuf[0], "%s.%s", S[s].name, S[s].t[t].name); plan[np].s = s; plan[np].last = 0; plan[np++].t = t; probe("single-test"); } }
        else for (int s = 0; s < ns; s++) plan_suite(s);
        for (int k = 0; k < np; k++) if (S[plan[k].s].t[plan[k].t].how) failures++; total += np; exp = mode == 4 ? 0 : failures || badname ? -1 : 0;
        int rc = zt_unit_main(u, argc, argv); ev("main returns %ld", rc, 0, 0);
        CHECK(at == np && stage == 0, "missing", "%d of %d tests were run", at, np); CHECK((rc != 0) == (exp != 0), "result", "the run returned %d with %d failed tests%s", rc, failures, badname ? " and unknown names" : ""); CHECK((int)u->failures == failures, "count", "%d failures are counted, %d tests failed", (int)u->failures, failures);
        CHECK((int)u->successes == total - failures && (int)u->suite_count == nsuites && (int)u->tests == nsuite_tests, "count", "%d successes, %d suites and %d tests of suites are counted, there were %d, %d and %d", (int)u->successes, (int)u->suite_count, (int)u->tests, total - failures, nsuites, nsuite_tests);
        for (int s = 0; s < ns; s++) CHECK(S[s].s->failed == whole_fail[s] && S[s].s->succeeded == whole[s] - whole_fail[s], "count", "a suite counts %d failed and %d passed tests, there were %d and %d", S[s].s->failed, S[s].s->succeeded, whole_fail[s], whole[s] - whole_fail[s]);
        for (int k = 0; k < np; k++) { int s = plan[k].s, t = plan[k].t; struct zt_unit_test *x = S[s].t[t].t; CHECK((x->success == TRUE) == (S[s].t[t].how == 0), "verdict", "a test that %s is recorded as %s", S[s].t[t].how ? "failed" : "passed", x->success == TRUE ? "passed" : "failed"); const char *e = error_of(s, t); if (e && !fault_fired(F_ALLOC)) CHECK(x->error && !strncmp(x->error, e, strlen(e)), "error-text", "a failed test has the wrong error text"); if (e && !fault_fired(F_ALLOC) && S[s].t[t].how < 8) { const char *w = strstr(x->error, FILE_[S[s].cpp]); CHECK(w && atoi(strchr(w, ':') + 1) > 0, "error-text", "a failed assertion does not say where it is"); } if (!S[s].t[t].how) CHECK(!x->error, "error-text", "a test that passed has an error text"); CHECK(x->exceptions == (S[s].t[t].how >= 11), "count", "%ld unexpected exceptions are counted for a test", x->exceptions); CHECK(x->assertions == S[s].t[t].pass, "count", "%ld assertions are counted, %d held", x->assertions, S[s].t[t].pass); }
        CHECK(!cpp_live, "unwinding", "%d objects of tests that ended are left", cpp_live); long aa = gone_a; int ee = gone_e, xx = gone_x; for (int s = 0; s < ns; s++) { aa += sassert[s]; ee += sempty[s]; xx += sexc[s]; CHECK(S[s].s->assertions == sassert[s] && S[s].s->empty == sempty[s] && S[s].s->exceptions == sexc[s], "count", "a suite counts %d assertions and %d empty tests, there were %ld and %d", S[s].s->assertions, S[s].s->empty, sassert[s], sempty[s]); }
        CHECK(u->assertions == aa && (int)u->empty == ee && (int)u->exceptions == xx, "count", "%u assertions and %u empty tests are counted, there were %ld and %d", u->assertions, u->empty, aa, ee);
        if (np) sim_nontrivial(); if (failures) probe("a-test-failed");
        sim_fflush(NULL); io = fault_fired(F_WRITE_EIO) + fault_fired(F_WRITE_ENOSPC); on = fs_get("/out", out, sizeof out - 1); if (on < 0 || on >= (ssize_t)sizeof out - 1 || io) { if (io) probe("output-lost"); continue; } out[on] = 0;
        char *p = out + off0; if (mode == 4) { if (!strcmp(argv[1], "-l") || !strcmp(argv[1], "--list")) for (int s = 0; s < ns; s++) { char l[NML + 40]; snprintf(l, sizeof l, "\n  %s:\n", S[s].name); p = strstr(p, l); CHECK(p, "report", "a suite is missing from the list"); p += strlen(l) - 1; for (int t = 0; t < S[s].n; t++) { snprintf(l, sizeof l, "\n    - %s\n", S[s].t[t].name); CHECK(!strncmp(p, l, strlen(l)), "report", "a test is missing from the list"); p += strlen(l) - 1; } } continue; }
        if (badname) CHECK(strstr(p, "not found\n"), "report", "an unknown name is not reported");
        for (int k = 0; k < np; k++) { int s = plan[k].s, t = plan[k].t; char l[NML + 40]; snprintf(l, sizeof l, "\n    %s:\n", S[s].t[t].name); char *q = !strncmp(p, l + 1, strlen(l + 1)) ? p : strstr(p, l); CHECK(q, "report", "a test is missing from the report"); const char *e = strchr(q + 1, '\n'); e = num_line(e, "assertions", S[s].t[t].pass); if (S[s].t[t].how >= 11) { e = num_line(e, "unhandled_exceptions", 1); probe("exception-reported"); } e = line_of(e, "result", S[s].t[t].how ? "failure" : "success");
            int bad = 0; if (plan[k].last) for (int x = 0; x < S[s].n; x++) bad += S[s].t[x].how != 0;
            if (bad) { CHECK(!strncmp(e, "\n  Errors:\n", 11), "report", "the report of a suite with failures has no list of them"); e += 10; for (int x = 0; x < S[s].n; x++) if (S[s].t[x].how) { const char *et = error_of(s, x); snprintf(gtxt, sizeof gtxt, "'%s", et ? et : "No Error Text'"); e = line_of(e, S[s].t[x].name, fault_fired(F_ALLOC) ? "'" : gtxt); } probe("failures-listed"); }
            p = (char *)e; }
        if (argc == 1) { const char *e = strstr(p, "\nGlobal Stats:\n"); CHECK(e, "report", "the report has no totals"); e += 14; e = num_line(e, "suites", nsuites); e = num_line(e, "tests", nsuite_tests); e = num_line(e, "successes", total - failures); e = num_line(e, "exceptions", xx); e = num_line(e, "assertions", aa); e = num_line(e, "failures", failures);
            if (ee) { CHECK(!strncmp(e, "\n  empty tests:\n", 16), "report", "the report does not list the tests without assertions"); e += 15; for (int s = 0; s < ns; s++) for (int t = 0; t < S[s].n; t++) if (!S[s].t[t].pass && S[s].t[t].how < 11) { char l[NML + 40]; snprintf(l, sizeof l, "\n    - %s\n", S[s].t[t].name); CHECK(!strncmp(e, l, strlen(l)), "report", "a test without assertions is missing from the list of them"); e += strlen(l) - 1; } }
            CHECK(!strcmp(e, "\n"), "report", "something follows the totals: %.60s", e); }
    }
    fault_off(); for (int s = 0; s < ns; s++) { if (S[s].n && ch_p("release-test", 1, 8)) { struct zt_unit_test *x = S[s].t[ch("test", (uint32_t)S[s].n)].t; zt_unit_release_test(&x); } if (ch_p("release-suite", 1, 12)) { zt_unit_release_suite(&S[s].s); probe("suite-released"); } }
    zt_unit_release(&u); CHECK(!u, "release", "releasing does not clear the caller's pointer");
    if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after the unit was released", heap_live() - live0); }
}
SCN(C34, c34, "at least one test ran", "zt_unit.c, zt_unit_cpp.cpp, zt_unit.h (in a C and a C++ client), zt_malloc.c", "standard output on a simulated file with errors; heap; the C++ runtime is the real one")
