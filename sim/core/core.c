/* choices, verdicts, faults, the run loop, the shrinker */
#include "core.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <time.h>

result_t *R;
int sim_active, sim_verbose;
uint64_t g_steps, g_step_limit = 4000000, g_points, gap_left, g_since_point;
static const char *step_kind = "no-progress";
const char *g_prop = "?";
static uint64_t rng[4];
static const uint32_t *replay; static uint32_t nreplay;
static int replaying;

const char *const fault_name[F_N] = {
    "alloc-failure", "preemption", "thread-stall", "spurious-wakeup", "clock-step", "timer-race", "thread-create-failure",
    "pipe-failure", "write-EIO", "write-ENOSPC", "write-EINTR", "short-write", "read-EIO", "read-EINTR", "short-read",
    "open-failure", "open-EINTR", "close-EIO", "close-EINTR", "mkdir-failure", "stat-failure", "concurrent-fs-actor", "fork-failure", "setsid-failure", "getrlimit-failure", "chdir-failure", "dup-failure", "wait-EINTR",
    "sleep-EINTR", "mutex-init-failure", "cond-init-failure", "gethostname-failure", "crash", "misc"
};

/* ---------------- PRNG ---------------- */
static uint64_t splitmix(uint64_t *x) { uint64_t z = (*x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd(void) {
    uint64_t r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3]; rng[2] ^= t; rng[3] = rotl(rng[3], 45);
    return r;
}
static void seed_rng(uint64_t seed, const char *prop, uint64_t run) {
    uint64_t x = seed * 0x2545F4914F6CDD1DULL + 12345;
    for (const char *p = prop; *p; p++) x = x * 1099511628211ULL + (unsigned char)*p;
    x += run * 0x9e3779b97f4a7c15ULL;
    for (int i = 0; i < 4; i++) rng[i] = splitmix(&x);
}

/* ---------------- log ---------------- */
void hash_mix(uint64_t v) { R->hash = (R->hash ^ v) * 0x100000001b3ULL; R->hash ^= R->hash >> 29; }
static void hash_str(const char *s) { for (; *s; s++) hash_mix((unsigned char)*s); }
static char *vbuf; static size_t vlen, vcap;
static void vput(const char *s) {
    size_t n = strlen(s);
    if (vlen + n + 1 > vcap) { if (vcap > (64u << 20)) return; vcap = (vcap + n + 65536) * 2; vbuf = realloc(vbuf, vcap); }
    memcpy(vbuf + vlen, s, n + 1); vlen += n;
}
void sim_trace(const char *fmt, ...) {
    if (!sim_verbose) return;
    char b[1600]; int o = snprintf(b, sizeof b, "[t=%llu.%06llu step=%llu T%d] ", (unsigned long long)(sim_now() / 1000000000ULL), (unsigned long long)(sim_now() / 1000 % 1000000), (unsigned long long)g_steps, fiber_self());
    va_list ap; va_start(ap, fmt); vsnprintf(b + o, sizeof b - o - 2, fmt, ap); va_end(ap);
    strcat(b, "\n"); vput(b);
}
static void vflush(void) { if (sim_verbose && vbuf) { size_t o = 0; while (o < vlen) { ssize_t w = write(1, vbuf + o, vlen - o); if (w <= 0) break; o += (size_t)w; } vlen = 0; } }
void ev(const char *fmt, long a, long b, long c) {
    hash_str(fmt); hash_mix((uint64_t)a); hash_mix((uint64_t)b); hash_mix((uint64_t)c);
    if (sim_verbose) { char x[256]; snprintf(x, sizeof x, fmt, a, b, c); sim_trace("%s", x); }
}
void evs(const char *fmt, const char *s, long a) {
    hash_str(fmt); hash_str(s); hash_mix((uint64_t)a);
    if (sim_verbose) { char x[512]; snprintf(x, sizeof x, fmt, s, a); sim_trace("%s", x); }
}
void sim_note(const char *fmt, ...) { if (!sim_verbose) return; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim_trace("%s", b); }

/* ---------------- verdicts ---------------- */
static void __attribute__((noreturn)) finish_common(int st) {
    sim_active = 0;
    R->steps = g_steps; R->simns = sim_now() - 1000000000ULL; R->allocs = heap_allocs(); R->heap = heap_used(); R->budget = g_steps * 1000 / g_step_limit;
    hash_mix(g_steps); hash_mix(sim_now()); hash_str(R->kind);
    R->status = st;
    vflush();
    _exit(0);
}
void sim_fail(const char *kind, const char *fmt, ...) {
    sim_active = 0;
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    for (char *c = R->msg; *c; c++) if ((unsigned char)*c < 32 || (unsigned char)*c > 126) *c = '?';
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    if (sim_verbose) sim_trace("VIOLATION %s: %s", kind, R->msg);
    finish_common(2);
}
void sim_finish(void) { R->kind[0] = 0; finish_common(1); }
void sim_error(const char *fmt, ...) {
    sim_active = 0;
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    snprintf(R->kind, sizeof R->kind, "machinery-error");
    finish_common(3);
}
void step_limit_hit(void) {
    char b[800]; blocked_report(b, sizeof b);
    sim_fail(step_kind, "no completion within %llu steps; threads: %s", (unsigned long long)g_step_limit, b);
}
void sim_step_limit(uint64_t n, const char *kind) { g_step_limit = g_steps + n; if (kind) step_kind = kind; }
uint64_t sim_steps(void) { return g_steps; }
void probe(const char *name) {
    for (uint32_t i = 0; i < R->nprobe; i++) if (R->probe[i] == name || !strcmp(R->probe[i], name)) return;
    if (R->nprobe < MAXPROBE) R->probe[R->nprobe++] = name;
}
int sim_large(void) {
    int b = (int)ch_p("large", 1, 50);
    if (b) { sim_desc("large "); probe("large"); }
    return b;
}
void sim_nontrivial(void) { R->nontrivial = 1; }
void sim_sig(uint64_t v) { R->sig = (R->sig ^ v) * 0x9E3779B97F4A7C15ULL; R->sig ^= R->sig >> 31; }
void sim_desc(const char *fmt, ...) {
    size_t l = strlen(R->desc); va_list ap; va_start(ap, fmt); vsnprintf(R->desc + l, sizeof R->desc - l, fmt, ap); va_end(ap);
}

/* ---------------- choices ---------------- */
static int tag_id(const char *t) {
    for (uint32_t i = 0; i < R->ntag; i++) if (!strcmp(R->tagname[i], t)) return (int)i;
    if (R->ntag >= 255) return 255;
    snprintf(R->tagname[R->ntag], sizeof R->tagname[0], "%s", t);
    return (int)R->ntag++;
}
static uint32_t record(const char *tag, uint32_t v) {
    if (R->nch < MAXCH) { R->tag[R->nch] = (uint8_t)tag_id(tag); R->ch[R->nch++] = v; }
    hash_mix(v + 0x51ULL);
    if (sim_verbose && v) sim_trace("choice #%u %s=%u", R->nch - 1, tag, v);
    return v;
}
uint32_t ch_q(const char *tag, uint32_t n) {
    uint32_t v;
    if (n <= 1) return 0;
    if (replaying) { v = R->nch < nreplay ? replay[R->nch] : 0; if (v >= n) v = n - 1; }
    else v = R->nch < MAXCH ? (uint32_t)(rnd() % n) : 0;
    return record(tag, v);
}
int ch_pq(const char *tag, uint32_t num, uint32_t den) {
    uint32_t v;
    if (num == 0) return 0;
    if (replaying) v = R->nch < nreplay ? (replay[R->nch] ? 1 : 0) : 0;
    else v = R->nch < MAXCH ? (rnd() % den < num) : 0;
    return (int)record(tag, v);
}
uint32_t ch_wq(const char *tag, uint32_t n, const uint32_t *w) {
    uint32_t v = 0, sum = 0;
    for (uint32_t i = 0; i < n; i++) sum += w[i];
    if (replaying) { v = R->nch < nreplay ? replay[R->nch] : 0; if (v >= n) v = n - 1; }
    else if (R->nch < MAXCH && sum) { uint32_t x = (uint32_t)(rnd() % sum); while (x >= w[v]) x -= w[v++]; }
    return record(tag, v);
}

/* the workload's own choices are part of a run's signature; the scheduler's are represented by the switches they cause */
uint32_t ch(const char *tag, uint32_t n) { uint32_t v = ch_q(tag, n); if (n > 1) sim_sig(v + 3); return v; }
int ch_p(const char *tag, uint32_t num, uint32_t den) { int v = ch_pq(tag, num, den); if (num) sim_sig((uint64_t)v + 1); return v; }
uint32_t ch_w(const char *tag, uint32_t n, const uint32_t *w) { uint32_t v = ch_wq(tag, n, w); sim_sig(v + 7); return v; }

/* ---------------- faults ---------------- */
static struct { uint32_t num, den; int max; } fl[F_N];
static int faults_off, g_running, by_fiber[F_N][128];
void fault_set(enum fault k, uint32_t num, uint32_t den, int max) { fl[k].num = num; fl[k].den = den; fl[k].max = max; }
void fault_off(void) { faults_off = 1; }
void fault_count(enum fault k) { R->fired[k]++; }
int fault_fired(enum fault k) { return (int)R->fired[k]; }
int fault_fired_by(enum fault k, int fiber) { return by_fiber[k][fiber & 127]; }
int fault(enum fault k) {
    if (!g_running || faults_off || !fl[k].num || fl[k].max == 0) return 0;
    if (!ch_pq(fault_name[k], fl[k].num, fl[k].den)) return 0;
    if (fl[k].max > 0) fl[k].max--;
    R->fired[k]++; by_fiber[k][fiber_self() & 127]++;
    sim_sig((uint64_t)k * 0x10001 + (os_calls() + heap_allocs()) * 64);
    if (sim_verbose) sim_trace("FAULT %s", fault_name[k]);
    return 1;
}

/* ---------------- one run in a child ---------------- */
extern const scn_t *const all_scn[];
static const scn_t *find_scn(const char *id) { for (int i = 0; all_scn[i]; i++) if (!strcmp(all_scn[i]->id, id)) return all_scn[i]; return NULL; }
static const scn_t *S;

static void on_sig(int sig, siginfo_t *si, void *uc) {
    static volatile int again;
    if (again) _exit(99);
    again = 1;
    sim_active = 0;
    snprintf(R->kind, sizeof R->kind, sig == SIGPROF ? "hang" : "crash");
    unsigned long pc = 0;
#if defined(__x86_64__)
    pc = (unsigned long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    if (sig == SIGPROF) snprintf(R->msg, sizeof R->msg, "a step used more processor time than any run may (pc %#lx)", pc);
    else snprintf(R->msg, sizeof R->msg, "signal %d at address %p, pc %#lx", sig, si->si_addr, pc);
    if (sim_verbose) sim_trace("VIOLATION %s: %s", R->kind, R->msg);
    finish_common(2);
}
static void child_setup(void) {
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGPROF, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
    struct itimerval it = { {0, 0}, {30, 0} };
    setitimer(ITIMER_PROF, &it, NULL);
}
static void scn_entry(void) { g_running = 1; errno = 0; S->run(); sim_finish(); }
static void reset_result(void) {
    uint32_t keep = 0; (void)keep;
    R->status = 0; R->kind[0] = 0; R->msg[0] = 0; R->hash = 0xcbf29ce484222325ULL; R->steps = R->simns = R->sig = R->switches = R->preempts = R->allocs = 0;
    R->nontrivial = 0; R->desc[0] = 0; memset(R->fired, 0, sizeof R->fired); R->nprobe = 0; R->nch = 0; R->ntag = 0;
}
static void run_child(void) {
    child_setup();
    heap_init(); os_init(); sched_init(); stdio_init();
    sched_run(scn_entry);
}
/* returns R->status */
static int run_forked(void) {
    reset_result();
    pid_t p = fork();
    if (p == 0) { run_child(); _exit(0); }
    if (p < 0) { R->status = 3; snprintf(R->msg, sizeof R->msg, "fork: %s", strerror(errno)); return 3; }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (R->status == 0) { R->status = 3; snprintf(R->kind, sizeof R->kind, "machinery-error"); snprintf(R->msg, sizeof R->msg, "run died without a verdict (wait status %#x)", st); }
    return R->status;
}

/* A second process of the program: fn runs in a copy of the whole simulated world, to its end, before this one goes on.
 * Its choices, faults, probes and verdict are part of the run; nothing else of it comes back but what it puts into memory from sim_shared. */
void *sim_shared(size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) sim_error("mmap: %s", strerror(errno)); return p; }
void sim_process(int pid, void (*fn)(void *), void *arg) {
    sim_active = 1; int nh = sched_fork_prepare(); sim_active = 0; vflush();
    pid_t p = fork();
    if (p < 0) sim_error("fork: %s", strerror(errno));
    if (p == 0) {
        struct itimerval it = { {0, 0}, {30, 0} }; setitimer(ITIMER_PROF, &it, NULL);
        for (int i = 0; i < 4; i++) rng[i] = rng[i] * 0x9E3779B97F4A7C15ULL + (uint64_t)i + 1;
        if (pid) { proc.ppid = proc.pid; proc.pid = pid; }
        ev("a process with pid %ld begins", proc.pid, 0, 0); sched_fork_lone(); sim_active = 1; sched_fork_child(nh); fn(arg); sim_active = 0; ev("it ends", 0, 0, 0); vflush(); _exit(77);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (R->status) _exit(0);    /* the run's verdict was reached in there */
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) sim_error("a simulated process died (wait status %#x)", st);
    sim_active = 1; sched_fork_parent(nh);
}

/* ---------------- shared statistics ---------------- */
#define SIGTAB (1u << 24)
typedef struct {
    volatile uint64_t max_heap, max_budget, next_run, runs, steps, simns, switches, preempts, allocs, nontrivial, distinct, distinct_nt, choices;
    volatile uint64_t fired[F_N], runs_with[F_N];
    volatile int stop, nsample, err;
    char sample[8][600];
    volatile int plock; volatile int nprobe; char probe[128][64]; volatile uint64_t probe_n[128];
    volatile uint64_t known_n[32];
    volatile int viol; volatile uint64_t viol_run;
    char errmsg[1600];
    volatile uint64_t tab[SIGTAB];
    uint64_t alldig;
} stats_t;
static stats_t *G;
unsigned char *cov_map; uint32_t cov_n;
static char *known[32]; static int nknown;

static int tab_insert(uint64_t v) {
    if (!v) v = 1;
    uint32_t i = (uint32_t)(v >> 20) & (SIGTAB - 1);
    for (uint32_t k = 0; k < 64; k++, i = (i + 1) & (SIGTAB - 1)) {
        uint64_t c = G->tab[i];
        if (c == v) return 0;
        if (c == 0) { if (__sync_bool_compare_and_swap(&G->tab[i], 0, v)) return 1; if (G->tab[i] == v) return 0; }
    }
    return 0;
}
static void add_stats(void) {
    __sync_fetch_and_add(&G->runs, 1); __sync_fetch_and_add(&G->steps, R->steps); __sync_fetch_and_add(&G->simns, R->simns);
    __sync_fetch_and_add(&G->switches, R->switches); __sync_fetch_and_add(&G->preempts, R->preempts); __sync_fetch_and_add(&G->allocs, R->allocs);
    __sync_fetch_and_add(&G->choices, R->nch);
    for (uint64_t m = G->max_heap; R->heap > m && !__sync_bool_compare_and_swap(&G->max_heap, m, R->heap); m = G->max_heap) ;
    for (uint64_t m = G->max_budget; R->budget > m && !__sync_bool_compare_and_swap(&G->max_budget, m, R->budget); m = G->max_budget) ;
    int fresh = tab_insert(R->sig ^ 0x5bd1e995);
    if (fresh) __sync_fetch_and_add(&G->distinct, 1);
    if (R->nontrivial) { __sync_fetch_and_add(&G->nontrivial, 1); if (fresh) __sync_fetch_and_add(&G->distinct_nt, 1); }
    for (int i = 0; i < F_N; i++) if (R->fired[i]) { __sync_fetch_and_add(&G->fired[i], R->fired[i]); __sync_fetch_and_add(&G->runs_with[i], 1); }
    for (uint32_t i = 0; i < R->nprobe; i++) {
        int k;
        for (k = 0; k < G->nprobe; k++) if (!strncmp(G->probe[k], R->probe[i], 63)) break;
        if (k == G->nprobe) {
            while (__sync_lock_test_and_set(&G->plock, 1)) ;
            for (k = 0; k < G->nprobe; k++) if (!strncmp(G->probe[k], R->probe[i], 63)) break;
            if (k == G->nprobe && k < 128) { snprintf(G->probe[k], 64, "%s", R->probe[i]); __sync_synchronize(); G->nprobe++; }
            __sync_lock_release(&G->plock);
        }
        if (k < 128) __sync_fetch_and_add(&G->probe_n[k], 1);
    }
    if (R->nontrivial && fresh && G->nsample < 6 && R->desc[0]) {
        int k = __sync_fetch_and_add(&G->nsample, 1);
        if (k < 6) snprintf(G->sample[k], 600, "%.560s [%s]", R->desc, R->status == 1 ? "held" : R->kind);
    }
}
static int is_known(const char *kind) { for (int i = 0; i < nknown; i++) if (!strcmp(known[i], kind)) return i; return -1; }
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static void *shmap(size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }

static int write_replay(const char *path, uint64_t seed, uint64_t run, const uint32_t *c, uint32_t n, uint32_t norig) {
    FILE *f = fopen(path, "w");
    if (!f) return -1;
    while (n && c[n - 1] == 0) n--;
    fprintf(f, "property %s\nkind %s\nseed %llu\nrun %llu\nhash %016llx\nchoices_before_minimising %u\n", g_prop, R->kind, (unsigned long long)seed, (unsigned long long)run, (unsigned long long)R->hash, norig);
    char m[1600]; snprintf(m, sizeof m, "%s", R->msg); for (char *p = m; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    fprintf(f, "message %s\n", m);
    snprintf(m, sizeof m, "%s", R->desc); for (char *p = m; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    fprintf(f, "run_description %s\n", m);
    fprintf(f, "choices %u\n", n);
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%u %s\n", c[i], i < R->nch ? R->tagname[R->tag[i]] : "-");
    fclose(f);
    return 0;
}

/* ---------------- shrinker ---------------- */
static char want_kind[64];
static int try_ch(const uint32_t *c, uint32_t n) {
    replay = c; nreplay = n; replaying = 1;
    return run_forked() == 2 && !strcmp(R->kind, want_kind);
}
static uint32_t shrink(uint32_t *c, uint32_t n, double budget) {
    double t0 = now_s();
    uint32_t *t = malloc(sizeof *t * (n + 1));
    int progress = 1;
    while (n && c[n - 1] == 0) n--;
    while (progress && now_s() - t0 < budget) {
        progress = 0;
        /* truncate tail */
        for (uint32_t k = n / 2; k >= 1 && now_s() - t0 < budget; k /= 2)
            while (n > k && now_s() - t0 < budget) { memcpy(t, c, n * 4); if (try_ch(t, n - k)) { n -= k; progress = 1; while (n && c[n - 1] == 0) n--; } else break; }
        /* delete chunks */
        for (uint32_t k = n / 2; k >= 1 && now_s() - t0 < budget; k /= 2)
            for (uint32_t i = 0; i + k <= n && now_s() - t0 < budget;) {
                memcpy(t, c, i * 4); memcpy(t + i, c + i + k, (n - i - k) * 4);
                if (try_ch(t, n - k)) { memcpy(c, t, (n - k) * 4); n -= k; progress = 1; } else i += k;
            }
        /* zero chunks */
        for (uint32_t k = n / 2; k >= 1 && now_s() - t0 < budget; k /= 2)
            for (uint32_t i = 0; i + k <= n && now_s() - t0 < budget; i += k) {
                int nz = 0; for (uint32_t j = 0; j < k; j++) nz |= c[i + j] != 0;
                if (!nz) continue;
                memcpy(t, c, n * 4); memset(t + i, 0, k * 4);
                if (try_ch(t, n)) { memcpy(c, t, n * 4); progress = 1; }
            }
        /* lower values */
        for (uint32_t i = 0; i < n && now_s() - t0 < budget; i++) {
            uint32_t lo = 0, hi = c[i];
            while (lo < hi && hi > 1 && now_s() - t0 < budget) {
                uint32_t mid = lo + (hi - lo) / 2;
                memcpy(t, c, n * 4); t[i] = mid;
                if (try_ch(t, n)) { c[i] = mid; hi = mid; progress = 1; } else lo = mid + 1;
            }
        }
        while (n && c[n - 1] == 0) n--;
    }
    free(t);
    return n;
}

static uint32_t *load_replay(const char *path, uint32_t *n, char *prop, char *kind, char *hash) {
    FILE *f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
    char line[4096]; uint32_t *c = NULL; *n = 0;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "property %31s", prop) == 1) continue;
        if (sscanf(line, "kind %63s", kind) == 1) continue;
        if (sscanf(line, "hash %31s", hash) == 1) continue;
        unsigned k;
        if (sscanf(line, "choices %u", &k) == 1) {
            c = calloc(k + 1, 4);
            while (*n < k && fgets(line, sizeof line, f)) c[(*n)++] = (uint32_t)strtoul(line, NULL, 10);
        }
    }
    fclose(f);
    return c ? c : calloc(1, 4);
}

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); unsetenv("LANG"); tzset();
    const char *prop = NULL, *out = NULL, *rdir = ".", *rfile = NULL; uint64_t seed = 1; double tsec = 10; int workers = 1; uint64_t maxruns = ~0ULL, start = 0; double sh_budget = 40;
    int hashes = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--time")) tsec = atof(argv[++i]);
        else if (!strcmp(argv[i], "--runs")) maxruns = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--start")) start = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--replays")) rdir = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rfile = argv[++i];
        else if (!strcmp(argv[i], "--known")) known[nknown++] = argv[++i];
        else if (!strcmp(argv[i], "--verbose")) sim_verbose = 1;
        else if (!strcmp(argv[i], "--shrink")) sh_budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--hashes")) hashes = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    R = shmap(sizeof *R);
    G = shmap(sizeof *G);
    unsigned char *cm = shmap(COV_MAX); cov_map = cm;
    if (rfile) {
        char p[32] = "", k[64] = "", h[32] = ""; uint32_t n; uint32_t *c = load_replay(rfile, &n, p, k, h);
        g_prop = strdup(p); S = find_scn(p);
        if (!S) { fprintf(stderr, "no scenario %s\n", p); return 3; }
        replay = c; nreplay = n; replaying = 1;
        int st = run_forked();
        printf("replay property=%s status=%d kind=%s hash=%016llx steps=%llu\nmessage %s\ndesc %s\n", p, st, R->kind, (unsigned long long)R->hash, (unsigned long long)R->steps, R->msg, R->desc);
        if (st == 2) { printf("VIOLATION property=%s replay=%s\n", p, rfile); return 1; }
        return st == 1 ? 0 : 3;
    }
    if (!prop || !(S = find_scn(prop))) { fprintf(stderr, "no scenario %s\n", prop ? prop : "(none)"); return 3; }
    g_prop = prop;
    if (hashes) { /* determinism self-test: print every run's verdict and event-log hash */
        for (uint64_t r = start; r < start + maxruns; r++) {
            seed_rng(seed, prop, r);
            run_forked();
            printf("%llu %d %s %016llx %llu %u\n", (unsigned long long)r, R->status, R->kind[0] ? R->kind : "-", (unsigned long long)R->hash, (unsigned long long)R->steps, R->nch);
        }
        return 0;
    }
    double t0 = now_s();
    result_t *first = shmap(sizeof *R);
    G->next_run = start;
    if (workers < 1) workers = 1;
    pid_t parent = getpid();
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(0);
            R = shmap(sizeof *R);
            while (!G->stop && now_s() - t0 < tsec) {
                uint64_t r = __sync_fetch_and_add(&G->next_run, 1);
                if (r - start >= maxruns) break;
                seed_rng(seed, prop, r);
                int st = run_forked();
                if (st == 3) {
                    if (!__sync_lock_test_and_set(&G->err, 1)) snprintf(G->errmsg, sizeof G->errmsg, "run %llu: %s", (unsigned long long)r, R->msg);
                    G->stop = 1; break;
                }
                add_stats();
                if (st == 2) {
                    int k = is_known(R->kind);
                    if (k >= 0) { __sync_fetch_and_add(&G->known_n[k], 1); continue; }
                    if (!__sync_lock_test_and_set(&G->viol, 1)) { memcpy(first, R, sizeof *R); G->viol_run = r; }
                    G->stop = 1; break;
                }
            }
            _exit(0);
        }
    }
    for (;;) { int st; pid_t p = wait(&st); if (p < 0 && errno == ECHILD) break; if (p < 0 && errno != EINTR) break; }
    double explore_s = now_s() - t0;
    char rp[600] = ""; int rc = 0;
    if (G->err) rc = 3;
    if (G->viol) {
        memcpy(R, first, sizeof *R);
        uint32_t n = R->nch, norig = n; uint32_t *c = malloc((n + 1) * 4); memcpy(c, R->ch, n * 4);
        snprintf(want_kind, sizeof want_kind, "%s", R->kind);
        uint64_t h0 = R->hash;
        fprintf(stderr, "found %s in run %llu: %s (%u choices); minimising\n", want_kind, (unsigned long long)G->viol_run, R->msg, n);
        int again = try_ch(c, n);
        /* code that reads indeterminate values may fail in another way, or leave another trace, in another process */
        if (!again && R->status == 2) { snprintf(want_kind, sizeof want_kind, "%s", R->kind); again = try_ch(c, n); }
        if (again && R->hash != h0) fprintf(stderr, "note: the same choices violate the property again with a different trace (the code under test depends on indeterminate values)\n");
        if (!again) { fprintf(stderr, "machinery error: the run does not replay (%s %016llx vs %016llx): %s\n", R->kind, (unsigned long long)R->hash, (unsigned long long)h0, R->msg); rc = 3; }
        else {
            uint32_t m = shrink(c, n, sh_budget);
            if (!try_ch(c, m)) { fprintf(stderr, "machinery error: minimised run does not replay\n"); rc = 3; }
            else {
                snprintf(rp, sizeof rp, "%s/%s-%s-%llu-%llu.replay", rdir, prop, want_kind, (unsigned long long)seed, (unsigned long long)G->viol_run);
                write_replay(rp, seed, G->viol_run, c, m, norig);
                rc = 1;
            }
        }
    }
    if (out) {
        FILE *f = fopen(out, "w");
        if (!f) { perror(out); return 3; }
        uint32_t ce = 0; for (uint32_t i = 0; i < COV_MAX; i++) ce += cov_map[i] != 0;
        fprintf(f, "{\"runs\":%llu,\"explore_s\":%.3f,\"steps\":%llu,\"sim_s\":%.3f,\"switches\":%llu,\"preempts\":%llu,\"allocs\":%llu,\"max_heap\":%llu,\"max_budget\":%llu,\"choices\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"distinct_nontrivial\":%llu,\"edges\":%u,\"edges_total\":%u,\"workers\":%d,\n",
            (unsigned long long)G->runs, explore_s, (unsigned long long)G->steps, (double)G->simns / 1e9, (unsigned long long)G->switches, (unsigned long long)G->preempts, (unsigned long long)G->allocs, (unsigned long long)G->max_heap, (unsigned long long)G->max_budget, (unsigned long long)G->choices,
            (unsigned long long)G->nontrivial, (unsigned long long)G->distinct, (unsigned long long)G->distinct_nt, ce, cov_n, workers);
        fprintf(f, "\"rule\":"); jstr(f, S->rule); fprintf(f, ",\"real\":"); jstr(f, S->real); fprintf(f, ",\"stub\":"); jstr(f, S->stub);
        fprintf(f, ",\n\"faults\":{"); int c1 = 0; for (int i = 0; i < F_N; i++) if (G->fired[i]) { fprintf(f, "%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", c1++ ? "," : "", fault_name[i], (unsigned long long)G->fired[i], (unsigned long long)G->runs_with[i]); }
        fprintf(f, "},\n\"probes\":{"); for (int i = 0; i < G->nprobe; i++) { fprintf(f, i ? "," : ""); jstr(f, G->probe[i]); fprintf(f, ":%llu", (unsigned long long)G->probe_n[i]); }
        fprintf(f, "},\n\"samples\":["); int ns = G->nsample > 6 ? 6 : G->nsample; for (int i = 0; i < ns; i++) { fprintf(f, i ? "," : ""); jstr(f, G->sample[i]); }
        fprintf(f, "],\n\"known\":{"); for (int i = 0; i < nknown; i++) { fprintf(f, i ? "," : ""); jstr(f, known[i]); fprintf(f, ":%llu", (unsigned long long)G->known_n[i]); }
        fprintf(f, "},\n\"rc\":%d,\"error\":", rc); jstr(f, G->errmsg);
        fprintf(f, ",\"kind\":"); jstr(f, rc == 1 ? R->kind : ""); fprintf(f, ",\"message\":"); jstr(f, rc == 1 ? R->msg : "");
        fprintf(f, ",\"hash\":\"%016llx\",\"replay\":", (unsigned long long)R->hash); jstr(f, rp); fprintf(f, "}\n");
        fclose(f);
    }
    if (rc == 3) fprintf(stderr, "machinery error: %s\n", G->errmsg);
    return rc;
}
