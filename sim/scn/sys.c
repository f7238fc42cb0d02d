/* C18 pid file, C19 daemonize, C20 directory creation, C21 exit callbacks, C26 base directory search */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/stat.h>
#include <zt.h>
#include <libzt/zt_daemon.h>
#include <libzt/zt_path.h>
#include <libzt/zt_atexit.h>
#include <libzt/zt_log.h>

int sim_chmod(const char *, mode_t);
static void log_open(void) { zt_log_set_debug_info(NULL, 0, NULL); zt_log_printf(zt_log_err, "start\n"); }

/* ---------------- C18 ---------------- */
static int other_fd[8], nother, stop_other, capped;
static void *opener(void *a) { (void)a; while (!stop_other && nother < 8) { sim_idle(1 + (int)ch("pause", 6)); int f = -1; for (int i = 3; i < 30; i++) if (!fd_is_open(i)) { f = i; break; } if (f < 0) break; fd_install(f, "/tmp/other"); fd_guard(f); other_fd[nother++] = f; } return NULL; }
static void pidfile_once(void) {
    static const char *const paths[] = { "/var/run/p.pid", "rel.pid", "/var/run/none/p.pid", "/var/run", "/var/run/ro/p.pid" };
    static char got[40000]; char path[2600], old[300], want[40]; int k = ch_p("odd-path", 1, 4) ? 2 + (int)ch("path", 3) : (int)ch("path", 2); strcpy(path, paths[k]);
    static const int pids[] = { 4242, 1, 2, 99999, 4194304, 2147483647 }; uint32_t pq = ch("pid", 8); proc.pid = pq < 6 ? pids[pq] : 1 + (int)ch("any-pid", pq == 6 ? 70000 : 2147483646);
    if (k < 2 && ch_p("long-path", 1, 8)) { char d[2500] = "/var/run"; size_t n = strlen(d), l = 300 + ch("path-length", 2000); while (n < l) { size_t c = 1 + ch("comp-length", 200); d[n++] = '/'; memset(d + n, 'r', c); n += c; } d[n] = 0; if (fs_mkdirp(d) >= 0) { snprintf(path, sizeof path, "%s/p.pid", d); probe("long-path"); } }
    if (ch("old", 2)) { size_t n = ch("oldlen", 290); for (size_t i = 0; i < n; i++) old[i] = "0123456789\nx"[i % 12]; if (k != 3) { if (ch_p("old-large", 1, 6)) { n = 4000 + ch("oldmore", 30000); memset(got, '7', n); if (fs_put(path, got, n) >= 0) probe("old-large"); } else if (fs_put(path, old, n) >= 0) probe("old-content"); } }
    int fds = fd_open_count(), foreign = fd_foreign_closed(), oth = nother, r, odd = k >= 2;
    int b[F_N]; for (int i = 0; i < F_N; i++) b[i] = fault_fired(i);
    r = zt_writepid(path);
    int d[F_N], any = 0, hard = 0; for (int i = 0; i < F_N; i++) { d[i] = fault_fired(i) - b[i]; if (i == F_PREEMPT || i == F_STALL) continue; any += d[i]; if (i != F_WRITE_EINTR) hard += d[i]; }
    snprintf(want, sizeof want, "%d\n", proc.pid); ssize_t n = fs_get(path, got, sizeof got - 1); if (n >= 0 && n < (ssize_t)sizeof got) got[n] = 0;
    if (r == 0) { CHECK(n == (ssize_t)strlen(want) && !memcmp(got, want, (size_t)n), "bad-pid-file", "success reported but the file holds %zd bytes '%.20s', not '%d'", n, n >= 0 ? got : "", proc.pid); if (any) probe("success-after-fault"); }
    else { CHECK(any || odd || capped, "pid-file-refused", "writing the pid file failed although nothing went wrong"); probe("failure-reported"); }
    if (!hard && any && !odd && !capped) { CHECK(r == 0, "not-retried", "an interrupted write was not retried"); probe("interrupted-write-retried"); }
    if (d[F_CLOSE_EIO]) { CHECK(r != 0, "close-error-ignored", "closing the file failed but success was reported"); probe("close-error-reported"); }
    CHECK(fd_foreign_closed() == foreign, "foreign-close", "the call closed a descriptor another thread had opened meanwhile");
    CHECK(fd_open_count() - (nother - oth) == fds, "descriptor-leak", "%d descriptors before the call, %d after", fds, fd_open_count() - (nother - oth));
    if (any || odd) sim_nontrivial(); sim_sig((uint64_t)(r == 0) * 7 + (uint64_t)any); sim_sig((uint64_t)k);
}
static void c18(void) {
    fs_mkdirp("/var/run/ro"); fs_set_readonly("/var/run/ro", 13); log_open(); sim_step_limit(400000, "hang");
    size_t live = heap_live(); int thr = (int)ch("thread", 2), id = -1;
    CHECK(zt_writepid(NULL) != 0, "null-path", "a missing path was accepted");
    sim_desc("pid file, other thread opens files: %d", thr);
    if (!thr && ch_p("std-closed", 1, 5)) for (int i = 0; i < 3; i++) if (ch("close-std", 2)) { sim_close(i); probe("standard-descriptor-closed"); }
    int mode = (int)ch("faults", 6);
    if (mode == 1 || mode == 5) fault_set(F_WRITE_EINTR, 1, 1 + ch("rate", 3), 1 + (int)ch("max", 20));
    if (mode == 2 || mode == 5) fault_set(F_WRITE_SHORT, 1, 1 + ch("rate", 4), -1);
    if (mode == 3 || mode == 5) { fault_set(F_CLOSE_EINTR, 1, 1 + ch("rate", 3), 3); fault_set(F_CLOSE_EIO, 1, 2 + ch("rate", 3), -1); }
    if (mode == 4 || mode == 5) { fault_set(F_OPEN, 1, 2 + ch("rate", 4), -1); fault_set(F_WRITE_EIO, 1, 2 + ch("rate", 4), -1); fault_set(F_WRITE_ENOSPC, 1, 2 + ch("rate", 4), -1); }
    if (ch_p("full", 1, 6)) { fs_set_cap((long)ch("space", 12)); capped = 1; probe("disk-nearly-full"); }
    if (thr) { fs_put("/tmp/other", "x", 1); id = fiber_spawn(opener, NULL, "opener"); }
    int n = 1 + (int)ch("calls", ch_p("many-calls", 1, 20) ? 60 : 4);
    for (int i = 0; i < n; i++) pidfile_once();
    fault_off(); stop_other = 1; if (thr) fiber_join(id);
    CHECK(fd_foreign_closed() == 0, "foreign-close", "a descriptor of another thread was closed");
    CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
}
SCN(C18, c18, "a fault fired or the path was unusable", "zt_daemon.c, zt_log", "file system, descriptors, process id, another thread of the program (stub)")

/* ---------------- C19 ---------------- */
static int nfork, follow[4], root_ok, called, returned; static char want_root[1200], cwd0[200]; static int sid0, pid0; static mode_t want_mask, mask0; static int fb[F_N]; static int high_fd;
static void forked(int f) { if (nfork < 4) follow[nfork] = f; nfork++; }
static void daemon_exit(int code) {
    if (!called || returned) return;
    int F = fault_fired(F_FORK), S = fault_fired(F_SETSID), L = fault_fired(F_RLIMIT), C = fault_fired(F_CHDIR);
    if (nfork == 0) { CHECK(F, "exit-without-reason", "the process exited before forking although fork did not fail"); CHECK(code != 0, "failure-exits-0", "fork failed but the exit status is %d", code); probe("first-fork-failed"); return; }
    if (!follow[0]) {
        CHECK(nfork == 1, "extra-fork", "the original process forked %d times", nfork); CHECK(code == 0, "parent-status", "the original process exits with %d", code);
        CHECK(proc.waited == 1, "not-waited", "the original process exited without having waited for its child (%d wait calls)", proc.wait_calls); probe("original-process"); if (fault_fired(F_WAIT_EINTR)) probe("wait-interrupted"); return; }
    if (nfork == 1) { CHECK(F || S || L, "exit-without-reason", "the intermediate process exited before its fork although nothing failed"); CHECK(code != 0, "failure-exits-0", "a failing step exits with status 0"); probe(F ? "second-fork-failed" : S ? "setsid-failed" : "rlimit-failed"); return; }
    CHECK(nfork == 2, "extra-fork", "forked %d times", nfork);
    if (!follow[1]) { CHECK(!S && !L, "failure-ignored", "the intermediate process went on after a failed step"); CHECK(code == 0, "parent-status", "the intermediate process exits with %d", code); probe("intermediate-process"); return; }
    CHECK(C || !root_ok, "exit-without-reason", "the daemon process exited although nothing failed"); CHECK(code != 0, "failure-exits-0", "the directory change failed but the exit status is 0"); probe("chdir-failed");
}
static void c19(void) {
    static const uint64_t lim[] = { 16, 64, 300, 1024, 3, ~0ULL, 1025, 2000, 4096 }; uint32_t lq = ch("limit", 11); uint64_t l = lq < 9 ? lim[lq] : 3 + ch("any-limit", lq == 9 ? 300 : 4093); int nfd = (int)ch("fds", 8), other;
    sim_step_limit(3000000, "hang"); log_open(); fd_set_rlimit(l, l == ~0ULL ? l : 4096); if (l == ~0ULL) probe("unlimited-descriptors");
    fs_mkdirp("/srv/d"); fs_put("/srv/f", "x", 1);
    for (int i = 0; i < nfd; i++) { int f = 3 + (int)ch("fd", 200), hi = (int)ch("fd-range", 4); if (hi == 1 && l > 8 && l <= 4096) f = (int)l - 1 - (int)ch("fd-top", 5); else if (hi == 2) f = 1000 + (int)ch("fd-high", 3000); if (f > 1023 && (uint64_t)f < l) probe("high-descriptor"); if ((uint64_t)f < l && !fd_is_open(f)) { fd_install(f, "/tmp/data"); } }
    if (l > 2) for (int i = 0; i < 3; i++) if (ch_p("std-closed", 1, 6)) { sim_close(i); probe("standard-descriptor-closed-before"); }
    proc.zombies = other = ch_p("other-child", 1, 3) ? 1 + (int)ch("zombies", 2) : 0; if (other) probe("other-children");
    static const char *const roots[] = { NULL, "/", "/srv/d", "/srv/none", "/srv/f", "." }; int r = (int)ch("root", 6); root_ok = r != 3 && r != 4; want_mask = (mode_t)ch("mask", 01000); mask0 = proc.umask_;
    if (ch("start-elsewhere", 2)) { fs_chdir("/srv"); } fs_cwd(cwd0, sizeof cwd0); int in_srv = !strcmp(cwd0, "/srv"); strcpy(want_root, r == 0 || r == 5 ? cwd0 : r == 1 ? "/" : "/srv/d"); const char *root = roots[r]; static char ldir[1200];
    if (r == 2) switch (ch("spelling", 8)) { case 1: root = in_srv ? "d" : "/srv/d/"; probe("relative-root"); break; case 2: root = in_srv ? "./d/." : "//srv/./d"; break; case 3: root = in_srv ? "d/../../srv/d" : "/srv/d/../d"; break; case 4: { strcpy(ldir, "/srv"); size_t n = 4; int parts = 1 + (int)ch("parts", 4); for (int i = 0; i < parts; i++) { size_t c = 1 + ch("part-length", 250); ldir[n++] = '/'; memset(ldir + n, 'q', c); n += c; } ldir[n] = 0; fs_mkdirp(ldir); strcpy(want_root, ldir); root = in_srv ? ldir + 5 : ldir; probe("long-root"); break; } case 5: fs_mkdirp("/srv/a b\xc3\xa9%s"); strcpy(want_root, "/srv/a b\xc3\xa9%s"); root = in_srv ? want_root + 5 : want_root; break; case 6: fs_mkdirp("/srv/..x"); strcpy(want_root, "/srv/..x"); root = in_srv ? "..x" : want_root; break; default: break; } 
    if (!root_ok) switch (ch("bad-root", 8)) { case 1: root = ""; probe("empty-root"); break; case 2: root = "/srv/d/none"; break; case 3: root = "/srv/f/"; break; case 4: root = "/srv/f/.."; break; case 5: root = "none"; break; case 6: { static char lr[6000]; size_t n = 4090 + ch("length", 20); if (n < PATH_MAX) break; strcpy(lr, "/srv"); memset(lr + 4, '/', n - 4); lr[n] = 0; root = lr; probe("too-long-root"); break; } default: break; }
    sid0 = proc.sid; pid0 = proc.pid;
    switch (ch("faults", 8)) { case 0: break; case 1: fault_set(F_FORK, 1, 2, 1); break; case 2: fault_set(F_SETSID, 1, 1, 1); break; case 3: fault_set(F_RLIMIT, 1, 1, 1); break; case 4: fault_set(F_CHDIR, 1, 1, 1); break;
        case 5: fault_set(F_WAIT_EINTR, 1, 1 + ch("rate", 3), 1 + (int)ch("max", 5)); break; case 6: fault_set(F_CLOSE_EINTR, 1, 3, -1); fault_set(F_CLOSE_EIO, 1, 3, -1); fault_set(F_SLEEP_EINTR, 1, 2, 2); break; case 7: fault_set(F_OPEN, 1, 2, 1); fault_set(F_DUP, 1, 3, 2); break; }
    sim_desc("daemonize limit=%ld descriptors=%d root=%d", (long)l, nfd, r);
    sim_fork_cb = forked; sim_exit_cb = daemon_exit; called = 1;
    int ret = zt_daemonize((char *)root, want_mask, 0);
    returned = 1; sim_sig((uint64_t)nfd * 8 + l); sim_nontrivial();
    CHECK(ret == 0, "not-success", "daemonize returned %d", ret);
    CHECK(nfork == 2 && follow[0] && follow[1], "wrong-process", "daemonize returned in a process that is not the grandchild (forks %d, followed %d %d)", nfork, follow[0], follow[1]);
    CHECK(!fault_fired(F_FORK) && !fault_fired(F_SETSID) && !fault_fired(F_RLIMIT) && !fault_fired(F_CHDIR) && root_ok, "failure-ignored", "daemonize returned although a step had failed");
    CHECK(proc.sid != sid0 && proc.sid != proc.pid && proc.sid != pid0, "session", "the daemon is in session %d (before: %d), its pid is %d", proc.sid, sid0, proc.pid);
    char c[1200]; fs_cwd(c, sizeof c); CHECK(!strcmp(c, want_root), "directory", "working directory is %s, not %s", c, want_root);
    CHECK(proc.umask_ == want_mask, "mask", "file mode creation mask is %o, not %o", proc.umask_, want_mask);
    int nulls = 0; char p[100];
    for (int i = 0; i < 4000; i++) if (fd_is_open(i)) { int k = fd_kind(i, p, sizeof p); CHECK(i < 3, "descriptor-left-open", "descriptor %d (%s) is open in the daemon", i, p); CHECK(k == N_NULL, "not-null-device", "descriptor %d refers to %s", i, p); nulls++; CHECK((fd_flags(i) & 3) == 2, "not-null-device", "descriptor %d is not open for reading and writing", i); }
    if (!fault_fired(F_OPEN) && !fault_fired(F_DUP)) CHECK(nulls == 3, "standard-descriptors", "%d of the 3 standard descriptors are open in the daemon", nulls); else probe("null-device-unavailable");
    probe("daemon-process");
}
SCN(C19, c19, "daemonize returned in the daemon", "zt_daemon.c, zt_log", "fork, sessions, descriptors, file system, limits, wait, sleep")

/* ---------------- C20 ---------------- */
static char pre[400][300]; static int npre; static char *norm_target; static char others[200][300]; static int noth; static int want_parents; static char bad_new[300]; static int files_before, files_now;
static void snap(const char *p, int t, mode_t m, void *a) { (void)a; (void)m; if (npre < 400) snprintf(pre[npre++], 300, "%.299s", p); files_before += t == N_FILE; }
static int in_list(char l[][300], int n, const char *p) { for (int i = 0; i < n; i++) if (!strcmp(l[i], p)) return 1; return 0; }
static char targets[3][1600]; static int ntg, parents_ok[3]; static const char *asked[3]; static void normalise(const char *path, char *o, size_t cap);
static void cmp_new(const char *p, int t, mode_t m, void *a) {
    (void)a; (void)m; files_now += t == N_FILE;
    if (in_list(pre, npre, p) || in_list(others, noth, p)) return;
    for (int i = 0; i < ntg; i++) { size_t n = strlen(p); if (!strcmp(targets[i], p)) return; if (parents_ok[i] && !strncmp(targets[i], p, n) && targets[i][n] == '/') return; if (!parents_ok[i] || !strstr(asked[i], "..")) continue;
        char b[6000], q[1600]; size_t l = strlen(asked[i]); for (size_t k = 1; k < l; k++) if (asked[i][k] == '/') { memcpy(b, asked[i], k); b[k] = 0; normalise(b, q, sizeof q); if (!strcmp(q, p)) return; } }
    snprintf(bad_new, sizeof bad_new, "%.299s", p);
}
static void normalise(const char *path, char *o, size_t cap) { /* textual; '..' only follows existing directories */
    char t[6000], c[300]; fs_cwd(c, sizeof c); if (path[0] == '/') snprintf(t, sizeof t, "%s", path); else snprintf(t, sizeof t, "%s/%s", c, path);
    size_t n = 0; char *sv; o[0] = 0;
    for (char *p = strtok_r(t, "/", &sv); p; p = strtok_r(NULL, "/", &sv)) { if (!strcmp(p, ".")) continue; if (!strcmp(p, "..")) { while (n && o[n - 1] != '/') n--; if (n) n--; o[n] = 0; continue; } size_t k = strlen(p); if (n + k + 2 > cap) { o[0] = 0; return; } o[n++] = '/'; memcpy(o + n, p, k + 1); n += k; }
    if (!n) strcpy(o, "/");
}
static const char *race_target; static int race_budget;
static void racer(const char *call, const char *path) {
    (void)call; (void)path;
    if (!race_budget || !race_target || !ch_p("other-creates", 1, 3)) return;
    /* another process creates the next missing prefix of the path, as a directory */
    char b[1600]; size_t l = strlen(race_target);
    for (size_t i = 1; i <= l; i++) if (race_target[i] == '/' || !race_target[i]) { memcpy(b, race_target, i); b[i] = 0; if (fs_type(b) == N_NONE) { if (fs_mkdirp(b) > 0) { race_budget--; fault_count(F_RACE_FS); if (noth < 200) snprintf(others[noth++], 300, "%.299s", b); evs("another process creates %s", b, 0); } return; } }
}
static void gen_path(char *o) {
    static const char *const comp[] = { "a", "b", "c", "d1", "x", "file", "longer-name", ".h", "..x", "...", "a b", "%s", "x.", "\xc3\xa9" }; static const char *const start[] = { "", "/", "/tmp/", "./", "../", "/tmp/../tmp/", "/ro/", "//tmp//", "/home/user/", "/dev/null/" };
    int n = (int)ch("depth", 7); strcpy(o, start[ch("start", ch_p("odd-start", 1, 10) ? 10 : 9)]);
    for (int i = 0; i < n; i++) { strcat(o, comp[ch_p("odd-comp", 1, 10) ? ch("comp", 14) : ch("comp", 7)]); if (ch_p("long-comp", 1, 40)) { size_t l = strlen(o), k = 200 + ch("complen", 80); memset(o + l, 'n', k); o[l + k] = 0; probe("long-component"); } if (i < n - 1) strcat(o, ch_p("double", 1, 10) ? "//" : "/"); if (i < n - 1 && ch_p("dot", 1, 14)) strcat(o, "./"); if (i < n - 1 && ch_p("dot-dot", 1, 25)) { strcat(o, "../"); probe("dot-dot"); } }
    if (n && ch_p("trailing-dots", 1, 25)) strcat(o, ch("dots", 2) ? "/.." : "/.");
    if (n && ch_p("trailing", 1, 5)) strcat(o, "/");
    if (ch_p("very-long", 1, 30)) { size_t l = strlen(o), want = 4050 + ch("plen", 200); while (l < want) { int k = 1 + (int)ch("plc", 40); memset(o + l, 'p', (size_t)k); l += (size_t)k; o[l++] = '/'; } o[l] = 0; probe("path-near-limit"); }
}
/* what must happen if nobody interferes: 1 success, 0 failure */
static int expect(const char *path, int parents) {
    char b[6000]; size_t l = strlen(path); if (!l || l >= PATH_MAX) return 0;
    char nm[1600]; normalise(path, nm, sizeof nm); if (!nm[0]) return -1;
    for (size_t i = 0; i < l;) { size_t n = strcspn(path + i, "/"); if (n > 255) return 0; i += n; while (path[i] == '/') i++; }
    /* component by component, with what is missing counted as created */
    char made[1600] = "", cur[6000], t[6000], *sv; if (path[0] == '/') strcpy(cur, "/"); else fs_cwd(cur, sizeof cur); strcpy(t, path);
    for (char *p = strtok_r(t, "/", &sv), *nx; p; p = nx) {
        nx = strtok_r(NULL, "/", &sv); if (!strcmp(p, ".")) continue;
        if (!strcmp(p, "..")) { char *s = strrchr(cur, '/'); s[s == cur] = 0; continue; }
        size_t n = strlen(cur); snprintf(cur + n, sizeof cur - n, "%s%s", n > 1 ? "/" : "", p); snprintf(b, sizeof b, "%s|", cur); if (strstr(made, b)) continue; int ty = fs_type(cur);
        if (ty != N_NONE && ty != N_DIR) return 0;
        if (ty == N_NONE) { if (!strncmp(cur, "/ro/", 4) && !strchr(cur + 4, '/')) return 0; if (nx && !parents) return 0; size_t m = strlen(made); if (m + strlen(b) + 1 > sizeof made) return -1; strcpy(made + m, b); }
    }
    return 1;
}
typedef struct { char path[6000]; int parents, r, f; mode_t mode; } mk;
static mk MK[3];
static void do_mk(mk *m) { uint64_t c0 = os_calls(); int f0 = fault_fired(F_MKDIR) + fault_fired(F_STAT); m->r = zt_mkdir(m->path, m->mode, m->parents ? zt_mkdir_create_parent : 0); m->f = fault_fired(F_MKDIR) + fault_fired(F_STAT) - f0; (void)c0; }
static void *mk_thread(void *a) { do_mk(a); return NULL; }
static void c20(void) {
    sim_step_limit(400000, "hang"); log_open(); size_t live = heap_live(); int fds = fd_open_count();
    fs_mkdirp("/ro"); fs_set_readonly("/ro", ch("erofs", 2) ? 30 : 13); fs_chdir("/home/user");
    int n = (int)ch("existing", 5); for (int i = 0; i < n; i++) { char p[6000], q[1600]; gen_path(p); normalise(p, q, sizeof q); if (!q[0] || strlen(q) > 250) continue; if (ch("as", 3)) fs_mkdirp(q); else { char *s = strrchr(q, '/'); if (s > q) { *s = 0; if (fs_mkdirp(q) < 0) continue; *s = '/'; } if (fs_type(q) == N_NONE) { fs_put(q, "data", 4); probe("file-in-the-tree"); } } if (ch_p("odd-mode", 1, 4)) { sim_chmod(q, (mode_t)ch("its-mode", 010000)); probe("existing-with-odd-mode"); } }
    if (ch_p("odd-umask", 1, 3)) proc.umask_ = (mode_t)ch("umask", 01000);
    int mode = (int)ch("mode", 4); /* 0 alone, 1 faults, 2 other processes, 3 threads */
    int k = mode == 3 ? 2 + (int)ch("threads", 2) : 1 + (int)ch("calls", 3), ids[3];
    for (int i = 0; i < k; i++) { gen_path(MK[i].path); asked[i] = MK[i].path; MK[i].mode = ch("mode-asked", 3) ? 0755 : (mode_t)ch("any-mode", 02000); MK[i].parents = (int)ch("parents", 3) != 0; if (mode == 3 && i && ch("same", 2)) strcpy(MK[i].path, MK[0].path); }
    if (mode == 1) { fault_set(F_MKDIR, 1, 1 + ch("rate", 5), ch("once", 2) ? 1 : -1); if (ch("statf", 2)) fault_set(F_STAT, 1, 1 + ch("rate", 4), ch("once", 2) ? 1 : -1); }
    npre = noth = files_before = 0; fs_list(snap, NULL);
    if (mode == 3) {
        int e[3]; for (int i = 0; i < k; i++) { e[i] = expect(MK[i].path, MK[i].parents); normalise(MK[i].path, targets[i], sizeof targets[i]); parents_ok[i] = MK[i].parents; } ntg = k;
        for (int i = 0; i < k; i++) ids[i] = fiber_spawn(mk_thread, &MK[i], "mkdir"); for (int i = 0; i < k; i++) fiber_join(ids[i]);
        for (int i = 0; i < k; i++) { if (MK[i].r == 0) CHECK(fs_type(MK[i].path) == N_DIR, "success-without-directory", "creating %.80s reports success but it is no directory", MK[i].path); else CHECK(e[i] != 1, "creation-refused", "creating %.80s (parents %d) failed although only other creators were in the way", MK[i].path, MK[i].parents); }
        sim_nontrivial(); probe("concurrent-creators");
    } else for (int i = 0; i < k; i++) {
        ntg = i + 1; normalise(MK[i].path, targets[i], sizeof targets[i]); parents_ok[i] = MK[i].parents; int e = expect(MK[i].path, MK[i].parents), was = fs_type(MK[i].path); uint64_t c0 = os_calls();
        if (mode == 2 && targets[i][0] && strncmp(targets[i], "/ro", 3)) { race_target = targets[i]; race_budget = (int)ch("budget", 8); fs_race_cb = racer; fs_race_enabled = 1; }
        int rc0 = noth; do_mk(&MK[i]); fs_race_enabled = 0; int t = fs_type(MK[i].path);
        CHECK(os_calls() - c0 <= 4 * strlen(MK[i].path) + 60, "too-many-calls", "creating a path of %zu characters took %ld system calls", strlen(MK[i].path), (long)(os_calls() - c0));
        if (MK[i].r == 0) CHECK(t == N_DIR, "success-without-directory", "creating %.80s reports success but it is no directory", MK[i].path);
        if (MK[i].r == 0 && was == N_NONE && noth == rc0 && !strstr(MK[i].path, "..")) CHECK(fs_mode(MK[i].path) == (MK[i].mode & ~proc.umask_ & 01777), "wrong-permissions", "%.80s was asked for with mode %o under mask %o and has %o", MK[i].path, (unsigned)MK[i].mode, (unsigned)proc.umask_, (unsigned)fs_mode(MK[i].path));
        if (!MK[i].f) { if (e == 1) CHECK(MK[i].r == 0, "creation-refused", "creating %.80s (parents %d) failed although nothing was in the way", MK[i].path, MK[i].parents);
            if (e == 0 && noth == rc0) CHECK(MK[i].r != 0, "impossible-success", "creating %.80s (parents %d) reports success although it cannot succeed", MK[i].path, MK[i].parents); }
        if (noth > rc0) { probe("raced"); sim_nontrivial(); }
        if (MK[i].r == 0 && was == N_NONE) { probe("created"); sim_nontrivial(); } if (MK[i].r) probe(MK[i].f ? "failed-under-fault" : "failed"); sim_sig(strlen(MK[i].path) * 16 + (uint64_t)MK[i].parents * 4 + (uint64_t)(MK[i].r == 0) * 2 + (uint64_t)(was == N_DIR));
    }
    fault_off(); bad_new[0] = 0; files_now = 0; fs_list(cmp_new, NULL);
    for (int i = 0; i < ntg; i++) if (!targets[i][0]) bad_new[0] = 0;
    CHECK(!bad_new[0], "stray-directory", "%.100s was created but is not part of what was asked for", bad_new); CHECK(files_now == files_before, "file-lost", "there were %d files and now %d", files_before, files_now);
    CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live); CHECK(fd_open_count() == fds, "descriptor-leak", "descriptors left open");
    sim_desc("mkdir mode=%d calls=%d", mode, k);
}
SCN(C20, c20, "a directory was created, or another creator interfered", "zt_path.c (zt_mkdir), zt_cstr.c, zt_log", "file system, concurrent processes (stub) and threads")

/* ---------------- C26 ---------------- */
static void toggler(const char *call, const char *path) { (void)call; if (race_budget && ch_p("toggle", 1, 4)) { race_budget--; fault_count(F_RACE_FS); if (fs_type(path) == N_NONE) fs_put(path, "some content", ch("size", 13)); else if (fs_type(path) == N_FILE) fs_rm(path); } }
static void c26(void) {
    sim_step_limit(40000000, "hang"); size_t live = heap_live(); log_open(); live = heap_live(); fs_chdir("/home/user");
    static const char *const trig[] = { ".git", "conf/x", "a", "b", "...", "a b%s", "x", "file", ".", "..", "d1/", "a//b", "" }; static char ltrig[300]; const char *tr = trig[ch("trigger", ch("odd-trigger", 3) ? 5 : 13)]; if (ch_p("long-trigger", 1, 12)) { size_t tl = 1 + ch("trigger-length", 299); memset(ltrig, 'g', tl); ltrig[tl] = 0; tr = ltrig; probe("long-trigger"); } char p[6000], q[7000]; 
    int n = (int)ch("existing", 5), deep = (int)ch("deep-tree", 2); gen_path(p); size_t l;
    for (int i = 0; i < n; i++) { snprintf(q, sizeof q, "%s", p); size_t cut = ch("cut", (uint32_t)strlen(q) + 1); while (cut && q[cut] != '/') cut--; q[cut] = 0; if (strlen(q) > (deep ? 4040 : 200)) continue; if (strlen(q) > 1000) probe("deep-base"); if (q[0]) fs_mkdirp(q[0] == '/' ? q : q); strcat(q, "/"); strcat(q, tr); char *s = strrchr(q, '/'); *s = 0; char nm[4400]; normalise(q[0] ? q : "/", nm, sizeof nm); if (!nm[0] || fs_mkdirp(nm) < 0) continue; *s = '/'; if (ch("kind", 2)) fs_put(q, "content", ch("size", 8)); else { normalise(q, nm, sizeof nm); fs_mkdirp(nm); } if (ch_p("odd-mode", 1, 4)) { sim_chmod(q, (mode_t)ch("its-mode", 010000)); probe("odd-mode"); } }
    int mode = (int)ch("mode", 3); if (mode == 1) fault_set(F_STAT, 1, 2 + ch("rate", 3), -1); if (mode == 2) { race_budget = 3; fs_race_cb = toggler; fs_race_enabled = 1; }
    if (mode != 2) for (int k = 0; k < 2; k++) { snprintf(q, sizeof q, k ? "%s/%s" : "%s", p, tr); int f0 = fault_fired(F_STAT), e = zt_path_exists(q) == 0, there = strlen(q) < PATH_MAX && fs_type(q) != N_NONE; CHECK(e == (there && fault_fired(F_STAT) == f0), "wrong-existence", "%.80s is said to %sexist", q, e ? "" : "not "); if (e) probe("exists"); }
    char *r = zt_find_basedir(p, tr); int f = fault_fired(F_STAT) + fault_fired(F_RACE_FS); fs_race_enabled = 0; fault_off();
    /* longest prefix (cut at separators) that contains the trigger */
    char c[6000], *want = NULL; static char w[6002]; strcpy(c, p); int is_cand = r == NULL;
    for (;;) { snprintf(q, sizeof q, "%s/%s", c, tr); char res[6002]; snprintf(res, sizeof res, "%s/", c); if (r && !strcmp(r, res)) is_cand = 1; if (strlen(q) < PATH_MAX && fs_type(q) != N_NONE) { if (!want) { strcpy(w, res); want = w; } } char *s = c[0] ? strrchr(c, '/') : NULL; if (!s) break; *s = 0; }
    CHECK(is_cand, "not-an-ancestor", "the result '%.80s' is not an ancestor of '%.80s'", r, p);
    if (!f) { CHECK(!r == !want, "wrong-base", "the search for %s from '%.80s' gives %.80s, not %.80s", tr, p, r ? r : "nothing", want ? want : "nothing"); if (r) CHECK(!strcmp(r, want), "wrong-base", "the search for %s from '%.80s' gives %.80s, not %.80s", tr, p, r, want); }
    else if (mode == 1 && r) { snprintf(q, sizeof q, "%s%s", r, tr); CHECK(fs_type(q) != N_NONE, "wrong-base", "%.80s does not contain %s", r, tr); }
    if (r) { CHECK(heap_is_live(r, strlen(r) + 1), "bad-memory", "result not terminated in memory"); sim_free(r); probe("found"); sim_nontrivial(); } else probe("not-found");
    if (f) probe("disturbed"); l = strlen(p); sim_sig(l * 4 + (uint64_t)mode + (r ? strlen(r) * 10007 : 0)); sim_desc("base directory of a path of %zu characters", l);
    CHECK(heap_live() == live, "leak", "%zd allocations left", heap_live() - live);
}
SCN(C26, c26, "a base directory was found", "zt_path.c (zt_find_basedir), zt_cstr.c", "file system with errors and concurrent changes")

/* ---------------- C21 ---------------- */
#define MAXCB 1500
static struct { int id, ran, t0, t1, grp, fn; } CB[MAXCB]; static int last_reg[64];   /* grp: the first of those registered with the same function and data */ static int ncb, nrun, clk; static size_t live0; static int exit_code;
static void reg(int during);
static void cb_run(void *d, int fn) {
    int *id = d; int i = (int)((size_t)(id - &CB[0].id) / (sizeof CB[0] / sizeof(int)));
    CHECK(i >= 0 && i < ncb && &CB[i].id == id, "wrong-data", "a callback got data it was not registered with");
    int g = i; CHECK(CB[g].grp == g && CB[g].fn == fn, "wrong-data", "callback %d's data went to another function", g);
    for (i = ncb - 1; i >= g && (CB[i].grp != g || CB[i].ran); i--);
    CHECK(i >= g, "ran-twice", "callback %d was called more often than it was registered", g);
    for (int k = 0; k < ncb; k++) CHECK(CB[k].ran || k == i || CB[k].t0 < CB[i].t1, "order", "callback %d was called before callback %d, which was registered after it", i, k);
    CB[i].ran = 1; nrun++; ev("callback %ld runs", i, 0, 0);
    if (ncb < MAXCB - 4 && ch_p("register-inside", 1, 5)) { int n = 1 + (int)ch("more", 3); while (n--) reg(1); probe("registered-during-exit"); }
}
static void cb_fn(void *d) { cb_run(d, 0); }
static void cb_fn2(void *d) { cb_run(d, 1); }
static void reg(int during) { int i = ncb++; CB[i].id = i; CB[i].t0 = ++clk; CB[i].t1 = 1 << 30; int *l = &last_reg[fiber_self()];
    if (*l && ch_p("same-again", 1, 6)) { CB[i].grp = CB[*l - 1].grp; CB[i].fn = CB[*l - 1].fn; probe("registered-twice"); } else { CB[i].grp = i; CB[i].fn = (int)ch("fn", 2); }
    *l = i + 1; ev("register %ld", i, during, 0); zt_atexit(CB[i].fn ? cb_fn2 : cb_fn, &CB[CB[i].grp].id); CB[i].t1 = ++clk; }
static void *registrar(void *a) { for (int n = 1 + (int)(long)a; n--;) reg(0); return NULL; }
static void exited(int code) {
    CHECK(nrun == ncb, "not-called", "%d of %d callbacks were not called at exit", ncb - nrun, ncb); CHECK(code == exit_code, "exit-status", "exit status %d became %d", exit_code, code);
    CHECK(heap_live() == live0, "leak", "%zd allocations of registrations left", heap_live() - live0);
}
static void no_room(void) { CHECK(fault_fired(F_ALLOC) > 0, "aborted", "the process was stopped although nothing failed"); probe("stopped-out-of-memory"); }
static void sys_handler(void) { probe("system-exit-handler"); if (ncb < MAXCB - 4 && ch_p("sys-registers", 1, 3)) { if (nrun == ncb && ncb) probe("registered-after-the-last-callback"); reg(1); } }
static void c21(void) {
    sim_step_limit(4000000, "hang"); live0 = heap_live(); sim_exit_cb = exited; int n = (int)ch("count", sim_large() ? 1200 : ch_p("many", 1, 6) ? 120 : 8);
    if (ch("sys", 3) == 0) { extern int sim_atexit(void (*)(void)); sim_atexit(sys_handler); }
    if (ch_p("oom", 1, 4)) { sim_abort_cb = no_room; fault_set(F_ALLOC, 1, 2 + ch("oom-rate", 60), 1 + (int)ch("oom-max", 3)); }
    for (int i = 0; i < n; i++) { reg(0); if (ch_p("sys2", 1, 12)) { extern int sim_atexit(void (*)(void)); sim_atexit(sys_handler); } }
    if (ch_p("threads", 1, 2)) { int t[4], nt = 2 + (int)ch("registrars", 3); for (int i = 0; i < nt; i++) t[i] = fiber_spawn(registrar, (void *)(long)ch("each", 4), "registrar"); for (int i = 0; i < nt; i++) fiber_join(t[i]); n += nt; probe("registered-by-several-threads"); }
    exit_code = (int)ch("code", ch("odd-code", 4) ? 3 : 256); sim_sig((uint64_t)n); if (n > 1) sim_nontrivial(); sim_desc("%d callbacks", n);
    sim_exit(exit_code);
}
SCN(C21, c21, "more than one callback was registered", "zt_atexit.c, zt_stack", "process exit, atexit table")
