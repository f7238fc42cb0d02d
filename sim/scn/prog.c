/* C33 program name and program path */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <zt.h>
#include <libzt/zt_progname.h>

static void oom_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory"); }
static char odd_dir[2][900], odd_name[260];   /* of any length and made of any characters, chosen for the run */
static const char *dirs[] = { "/usr/bin", "/bin", "/opt/a", "/opt/a/b", "/home/u", "/home/u/bin", "/x", odd_dir[0], odd_dir[1] };
#define ND 9
static const char *names[] = { "prog", "p", "tool-1", odd_name };
static void odd_text(char *o, size_t max) { static const char a[] = "abz09._- +%s~#\"'\xc3\xa9"; size_t n = 1 + ch("odd-length", (uint32_t)max), k = 0; *o++ = 'o'; int mixed = (int)ch("mixed", 2); while (++k < n) *o++ = mixed && k < 40 ? a[ch("letter", sizeof a - 1)] : 'w'; *o = 0; }
static int dir_index(const char *cwd, const char *rel) {   /* which of dirs[] the relative path rel names */
    char b[PATH_MAX + 400], o[PATH_MAX + 400], *sv = NULL; snprintf(b, sizeof b, "%s/%s", cwd, rel); size_t n = 0; o[0] = 0;
    for (char *p = strtok_r(b, "/", &sv); p; p = strtok_r(NULL, "/", &sv)) { if (!strcmp(p, ".")) continue; if (!strcmp(p, "..")) { if (n && !fs_mode(o)) return -1; while (n && o[n - 1] != '/') n--; if (n) n--; o[n] = 0; continue; } n += (size_t)sprintf(o + n, "/%s", p); }
    for (int i = 0; i < ND; i++) if (!strcmp(dirs[i], o)) return i; return -1; }
static char big[PATH_MAX + 3000];
static void squeeze(char *s) { char *o = s; for (char *p = s; *p; p++) if (!(*p == '/' && p[1] == '/')) *o++ = *p; while (o > s + 1 && o[-1] == '/') o--; *o = 0; }   /* "//" is "/" */
static void bounded(const char *r, const char *what) { CHECK(r, "missing", "%s yields nothing", what); size_t n = strnlen(r, PATH_MAX + 1); CHECK(n <= PATH_MAX, "overrun", "%s yields a text without an end", what); }
static void c33(void) {
    sim_step_limit(20000000, "hang"); sim_abort_cb = oom_abort; static char last[PATH_MAX + 3000], lastname[PATH_MAX + 3000]; int have[ND][4], known = 0, calls = 1 + (int)ch("calls", 8), faulty = ch_p("faulty", 1, 2); char cwd[PATH_MAX], *path; strcpy(lastname, "*UNKNOWN*"); int lastname_known = 1; strcpy(last, "*UNKNOWN*"); known = 1;
    int large = sim_large(), odd = ch_p("odd-names", 1, 3); strcpy(odd_name, "a.out"); strcpy(odd_dir[0], "/y"); strcpy(odd_dir[1], "/opt/z"); if (odd) { odd_text(odd_name, 254); if (ch("deep", 2)) { odd_dir[0][0] = '/'; odd_text(odd_dir[0] + 1, 250); strcat(odd_dir[0], "/"); odd_text(odd_dir[0] + strlen(odd_dir[0]), 250); } char *d1 = odd_dir[1] + sprintf(odd_dir[1], "/opt/a/"); odd_text(d1, 250); probe("odd-names"); }
    for (int d = 0; d < ND; d++) { fs_mkdirp(dirs[d]); for (int k = 0; k < 4; k++) if ((have[d][k] = ch_p("installed", 1, 4))) { char f[2000]; static char content[9000]; snprintf(f, sizeof f, "%s/%s", dirs[d], names[k]); if (ch_p("empty-program", 1, 4)) fs_put(f, "", 0); else fs_put(f, content, 1 + ch("size", 8000)); } else if (ch_p("directory-instead", 1, 8)) { char f[2000]; snprintf(f, sizeof f, "%s/%s", dirs[d], names[k]); fs_mkdirp(f); probe("directory-with-that-name"); } }
    static const int pids[] = { 4242, 1, 99999, 123456, 4194304, 2147483647 }; proc.pid = pids[ch("pid", 6)]; fs_put("/afile", "x", 1); sim_desc("calls=%d faults=%d ", calls, faulty); size_t live0 = 0;
    for (int c = 0; c < calls; c++) {
        int cd = (int)ch("cwd", ND + 1); fs_chdir(cd == ND ? "/" : dirs[cd]); fs_cwd(cwd, sizeof cwd);
        if (faulty) { fault_set(F_STAT, 1, 2 + ch("stat-rate", 6), -1); fault_set(F_CHDIR, 1, 2 + ch("getcwd-rate", 4), -1); if (ch_p("oom", 1, 4)) fault_set(F_ALLOC, 1, 5 + ch("oom-rate", 10), -1); }
        /* PATH: unset, or some of the directories, some missing ones, some empty entries */
        int ne = 0, ent[256]; const char *ent_rel[256]; path = NULL; static char pbuf[8][64000];
        if (!ch_p("no-path", 1, 6)) { path = pbuf[c & 7]; char *o = path; *o = 0; int n = (int)ch("entries", large ? 120 : 7); if (n > 60) probe("long-search-path"); for (int i = 0; i < n; i++) { if (i) *o++ = ':'; int e = (int)ch("entry", ND + 5); if (e == ND + 4) { static const char *const rels[] = { ".", "bin", "b", "..", "../u", "./b", "b/..", "../bin/." }; const char *q = rels[ch("relative-entry", 8)]; o += sprintf(o, "%s", q); probe("relative-entry"); int x = dir_index(cwd, q); if (x >= 0) { ent_rel[ne] = q; ent[ne++] = x; } continue; } if (e == ND + 3) { probe("entry-is-a-file"); o += sprintf(o, "/afile"); continue; } if (e == ND) { probe("empty-entry"); *o = 0; continue; } if (e > ND) { o += sprintf(o, "/missing/%d", e); continue; } ent_rel[ne] = NULL; ent[ne++] = e; o += sprintf(o, "%s%s", dirs[e], ch_p("slash", 1, 8) ? "/" : ""); } if (ch_p("ends-empty", 1, 8)) { *o++ = ':'; *o = 0; } }
        env_set("PATH", path); int xd = (int)ch("exe-dir", ND); char xp[2000]; snprintf(xp, sizeof xp, "%s/%s", dirs[xd], names[0]); os_exe_path(xp);
        int k = (int)ch("program", 4), f0 = fault_fired(F_STAT) + fault_fired(F_CHDIR) + fault_fired(F_ALLOC), g0 = fault_fired(F_CHDIR), s0 = fault_fired(F_STAT), how = (int)ch("how", 7); char arg[3000], exp[PATH_MAX + 400]; const char *r; exp[0] = 0; int strict = 1, search = 0;
        size_t h = heap_live(); if (!live0) live0 = h;
        if (how == 6) {   /* the name */
            const char *dir = dirs[ch("name-dir", ND)]; int strip = (int)ch("strip", 2), w = (int)ch("name-kind", 5); const char *give = arg; snprintf(arg, sizeof arg, "%s/%s", dir, names[k]); if (w == 1) snprintf(arg, sizeof arg, "%s", names[k]); if (w == 2) give = NULL; if (w == 3) arg[0] = 0; if (w == 4) { memset(big, 'n', sizeof big); size_t n = PATH_MAX - 5 + ch("name-length", 1000); big[n] = 0; if (ch("name-slash", 2)) big[n - ch("slash-at", 900) - 2] = '/'; give = big; }
            char *in = NULL; if (give) { in = sim_alloc_nf(strlen(give) + 1); strcpy(in, give); }
            r = zt_progname(in, strip ? STRIP_DIR : 0); if (in) { memset(in, 'Z', strlen(in)); sim_free(in); } bounded(r, "the program name");
            if (give && *give) { const char *b = strip && strrchr(give, '/') ? strrchr(give, '/') + 1 : give; snprintf(lastname, sizeof lastname, "%s", b); lastname_known = 1; if (w == 4) { CHECK(!strncmp(r, b, strlen(r)) && (strlen(r) == strlen(b) || strlen(r) >= PATH_MAX - 1), "wrong-name", "a long program name is not kept up to its limit"); strcpy(lastname, r); probe("long-name"); } }
            if (lastname_known) CHECK(!strcmp(r, lastname), "wrong-name", "the program name is \"%.80s\" instead of \"%.80s\"", r, lastname); sim_nontrivial(); continue;
        }
        if (how == 5) { r = zt_progpath(ch("empty", 2) ? "" : NULL); bounded(r, "the program path"); if (known) CHECK(!strcmp(r, last), "changed", "asking for the program path changed it"); continue; }
        if (how == 4) { char *o = zt_os_progpath(); int failed = fault_fired(F_STAT) > s0; if (!o) { CHECK(fault_fired(F_ALLOC), "missing", "the system's program path is missing although memory was available"); continue; } CHECK(!strcmp(o, failed ? "" : xp), "wrong-path", "the system's program path is \"%.80s\" instead of \"%s\"", o, xp); sim_free(o); if (failed) probe("system-path-unavailable"); else CHECK(heap_live() == h, "leak", "asking the system leaks"); continue; }
        if (how == 0) { search = 1; snprintf(arg, sizeof arg, "%s", names[k]); } else if (how == 1) { int d = (int)ch("in-dir", ND + 1); snprintf(arg, sizeof arg, "%s/%s", d == ND ? "" : dirs[d], names[k]); snprintf(exp, sizeof exp, "%s", d == ND ? "/" : dirs[d]); }
        else { static const char *rel[] = { ".", "./bin", "bin", "..", "../u/bin", "./b/../b", "a" }; const char *q = rel[ch("relative", 7)]; snprintf(arg, sizeof arg, "%s/%s", q, names[k]); snprintf(exp, sizeof exp, "%s/%s", cwd, !strncmp(q, "./", 2) ? q + 2 : q); if (!strcmp(q, ".")) snprintf(exp, sizeof exp, "%s", cwd); probe("relative"); }
        if (how == 3 && ch_p("long", 1, 3)) { memset(big, 'd', sizeof big); big[0] = ch("long-absolute", 2) ? '/' : 'd'; size_t n = PATH_MAX - 40 + ch("path-length", 2000); memcpy(big + n, "/prog", 6); char *in = sim_alloc_nf(strlen(big) + 1); strcpy(in, big); r = zt_progpath(in); sim_free(in); bounded(r, "a long program path"); probe("long-path"); known = 1; snprintf(last, sizeof last, "%s", r); continue; }
        char *in = sim_alloc_nf(strlen(arg) + 1); strcpy(in, arg); r = zt_progpath(in); memset(in, 'Z', strlen(in)); sim_free(in); bounded(r, "the program path"); snprintf(last, sizeof last, "%s", r); known = 1; char got[PATH_MAX + 10]; snprintf(got, sizeof got, "%s", r); squeeze(got); squeeze(exp); evs("program \"%s\" (how %ld)", arg, how); evs("  is in \"%s\"", got, 0);
        int nofault = fault_fired(F_STAT) + fault_fired(F_CHDIR) + fault_fired(F_ALLOC) == f0, cwdfail = fault_fired(F_CHDIR) > g0; (void)strict;
        if (search) {
            int found = -1; const char *found_rel = NULL; for (int i = 0; i < ne && found < 0; i++) if (have[ent[i]][k]) { found = ent[i]; found_rel = ent_rel[i]; }
            if (!path) { if (nofault) { snprintf(exp, sizeof exp, "%s", dirs[xd]); probe("asked-the-system"); } }
            else if (found >= 0) { snprintf(exp, sizeof exp, "%s", dirs[found]); probe(found == ent[ne - 1] ? "found-in-last-entry" : "found-in-path"); } else { snprintf(exp, sizeof exp, "%s", cwd); probe("not-in-path"); }
            if (nofault) CHECK(!strcmp(got, exp) || (path && found_rel && dir_index(cwd, got) == found), "wrong-path", "program %s with PATH=%s in %s: \"%.200s\" instead of \"%s\"", arg, path ? path : "(unset)", cwd, got, exp);
            else {  /* an entry that cannot be examined may be passed over; nothing that does not hold the program may be named */
                int ok = !strcmp(got, cwd) || !strcmp(got, ".") || (!path && !strcmp(got, dirs[xd])); for (int i = 0; i < ne; i++) ok |= have[ent[i]][k] && (!strcmp(got, dirs[ent[i]]) || (ent_rel[i] && got[0] != '/' && dir_index(cwd, got) == ent[i])); CHECK(ok, "wrong-path", "program %s with PATH=%s in %s and failing system calls: \"%.200s\" does not hold it", arg, path ? path : "(unset)", cwd, got); if (!strcmp(got, ".")) CHECK(cwdfail || !path || dir_index(cwd, ".") >= 0, "wrong-path", "program %s: the current directory could be determined", arg); probe("failures-survived");
            }
        } else if (!cwdfail || arg[0] == '/') CHECK(!strcmp(got, exp), "wrong-path", "program %s in %s: \"%.200s\" instead of \"%s\"", arg, cwd, got, exp);
        else probe("current-directory-unknown");
        if (nofault) CHECK(heap_live() == h, "leak", "finding the program path leaves %zd allocations", heap_live() - h);
        sim_nontrivial();
    }
}
SCN(C33, c33, "a program path or name was determined", "zt_progname.c, zt_cstr.c, zt_log.c", "file system, environment, working directory and /proc with errors; heap")
