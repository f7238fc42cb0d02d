/* fibers, the scheduler, the clock, and the pthread API on top of them */
#include "core.h"
#define ch ch_q
#define ch_p ch_pq
#define ch_w ch_wq
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sched.h>
#include <unistd.h>

#define NF 64
#define STK (256 << 10)
#define STK_BASE 0x200000000000ULL
#define NKEYS 64

enum { ST_FREE, ST_READY, ST_BLOCKED, ST_DONE };
typedef struct {
    int id, state, wait_kind, timed_out, harness, detached, joined, cancel_pending, cancel_disabled, exiting, woken, err;
    const void *wait_obj;
    uint64_t mono_dl; int has_wall; int64_t wall_dl; int has_dl;
    int (*cond)(void *); void *condarg;
    void *sp; fiber_fn fn; void *arg, *ret; const char *name;
    void *tsd[NKEYS]; unsigned long tid;
    uint64_t stall_until; int prio; uint64_t kept;
    int stalls; int nwait[16];
} fib;
static fib F[NF];
static int nf, cur;
static uint64_t jumps_ns;               /* clock: 20 ns per step plus jumps */
static int64_t wall_off = 1700000000LL * 1000000000LL + 123456789LL;
int64_t sim_ru_user_us, sim_ru_sys_us;
uint64_t sim_jumps;
static const char *dl_kind = "deadlock";
static int gap_class, sw_mode, sw_den;   /* scheduling style of this run */
static int cfg_gap = -2, cfg_sw = -2;

int sim_fiber_cancel_points;

void sim_switch(void **from, void *to);
__asm__(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size sim_switch,.-sim_switch\n");

/* ---------------- clock ---------------- */
uint64_t sim_now(void) { return 1000000000ULL + g_steps * 20 + jumps_ns; }
int64_t sim_wall_ns(void) { return (int64_t)sim_now() + wall_off; }
void sim_advance(uint64_t ns) { jumps_ns += ns; sim_jumps++; }
void sim_wall_step(int64_t ns) { wall_off += ns; }
void sim_wall_set(int64_t ns) { wall_off = ns - (int64_t)sim_now(); }

/* ---------------- fibers ---------------- */
static void fiber_exit(void *ret) __attribute__((noreturn));
static void pick_and_switch(int may_keep);
static void draw_gap(void);

static void fiber_main(void) {
    fib *f = &F[cur];
    draw_gap();
    sim_active = 1;
    fiber_exit(f->fn(f->arg));
}
int fiber_self(void) { return cur; }
int fiber_alive(int id) { return id >= 0 && id < nf && F[id].state != ST_DONE; }
int fibers_alive(void) { int n = 0; for (int i = 0; i < nf; i++) n += F[i].state == ST_READY || F[i].state == ST_BLOCKED; return n; }

static int fiber_create(fiber_fn fn, void *arg, const char *name, int harness) {
    if (nf >= NF) return -1;
    int id = nf++;
    fib *f = &F[id];
    memset(f, 0, sizeof *f);
    f->id = id; f->state = ST_READY; f->fn = fn; f->arg = arg; f->name = name; f->harness = harness;
    void **sp = (void **)(STK_BASE + (uint64_t)(id + 1) * STK);
    *--sp = 0;
    *--sp = (void *)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    f->prio = (sw_mode == 3) ? (int)ch("prio", 1000) : 0;
    f->tid = 0x7f0000001000UL + (unsigned long)id * 0x801000UL;
    return id;
}
int fiber_spawn(fiber_fn fn, void *arg, const char *name) {
    int id = fiber_create(fn, arg, name, 1);
    if (id < 0) sim_error("too many fibers");
    ev("spawn client T%ld", id, 0, 0);
    return id;
}
static int done_cond(void *p) { return F[(long)p].state == ST_DONE; }
void *fiber_join(int id) { sim_block_until(done_cond, (void *)(long)id); return F[id].ret; }

static struct { int used; void (*dtor)(void *); } keys[NKEYS];
static void fiber_exit(void *ret) {
    fib *f = &F[cur];
    f->exiting = 1;
    for (int round = 0; round < 4; round++) {
        int any = 0;
        for (int k = 0; k < NKEYS; k++)
            if (f->tsd[k] && keys[k].used && keys[k].dtor) { void *v = f->tsd[k]; f->tsd[k] = NULL; any = 1; keys[k].dtor(v); f = &F[cur]; }
        if (!any) break;
    }
    f->ret = ret;
    f->state = ST_DONE;
    ev("thread T%ld ends", cur, 0, 0);
    wake_all(W_JOIN, f);
    pick_and_switch(0);
    sim_error("finished fiber resumed");
}

int blocked_report(char *buf, size_t n) {
    static const char *const wn[] = { "-", "lock", "condition", "join", "client-wait", "sleep", "io", "rwlock", "semaphore", "barrier", "stream-lock" };
    size_t o = 0; buf[0] = 0;
    for (int i = 0; i < nf && o + 80 < n; i++) {
        if (F[i].state == ST_DONE) continue;
        o += (size_t)snprintf(buf + o, n - o, "%sT%d(%s)=%s", o ? " " : "", i, F[i].name ? F[i].name : "?", F[i].state == ST_READY ? "running" : wn[F[i].wait_kind]);
    }
    return (int)o;
}
void sim_deadlock_kind(const char *k) { dl_kind = k; }

static void draw_gap(void) {
    static const uint32_t rng[4] = { 0, 9, 65, 513 };
    g_since_point = 0;
    gap_left = gap_class ? ch("gap", rng[gap_class]) : 0;
}
static int expired(fib *f) {
    if (!f->has_dl) return 0;
    return f->has_wall ? sim_wall_ns() >= f->wall_dl : sim_now() >= f->mono_dl;
}
static void make_ready(fib *f) { f->state = ST_READY; }

static int collect(int *r) {
    int n = 0;
    for (int i = 0; i < nf; i++) {
        fib *f = &F[i];
        if (f->state == ST_BLOCKED) {
            if (f->wait_kind == W_HARNESS) { if (f->cond(f->condarg)) make_ready(f); }
            else if (expired(f)) { f->timed_out = 1; make_ready(f); }
        }
        if (f->state == ST_READY) r[n++] = i;
    }
    return n;
}
static int earliest(uint64_t *dt) {
    int best = -1; uint64_t b = 0;
    for (int i = 0; i < nf; i++) if (F[i].state == ST_BLOCKED && F[i].has_dl) {
        int64_t d = F[i].has_wall ? F[i].wall_dl - sim_wall_ns() : (int64_t)(F[i].mono_dl - sim_now());
        uint64_t u = d < 0 ? 0 : (uint64_t)d;
        if (best < 0 || u < b) { best = i; b = u; }
    }
    *dt = b; return best;
}
static void switch_to(int to) {
    if (to == cur) { F[cur].kept++; return; }
    int from = cur;
    F[from].err = errno; F[from].kept = 0;
    cur = to;
    R->switches++;
    hash_mix(0x5717ULL + (uint64_t)to);
    R->sig = (R->sig ^ (uint64_t)(to + 1)) * 0x9E3779B97F4A7C15ULL; R->sig ^= R->sig >> 29;
    if (sim_verbose) { int t = to; cur = from; sim_trace("switch to T%d", t); cur = to; }
    errno = F[to].err;
    sim_switch(&F[from].sp, F[to].sp);
}
static void pick_and_switch(int may_keep) {
    int r[NF], n, r2[NF], n2 = 0;
    for (;;) {
        n = collect(r);
        if (n) {
            uint64_t dt;
            if (fault(F_TIMERACE) && earliest(&dt) >= 0) { sim_advance(dt); n = collect(r); }
            break;
        }
        uint64_t dt; int e = earliest(&dt);
        if (e < 0) {
            char b[800]; blocked_report(b, sizeof b);
            sim_fail(dl_kind, "nothing can run any more: %s", b[0] ? b : "(no threads left)");
        }
        sim_advance(dt + 1);
    }
    for (int i = 0; i < n; i++) if (F[r[i]].stall_until <= g_points) r2[n2++] = r[i];
    if (!n2) { for (int i = 0; i < n; i++) F[r[i]].stall_until = 0; n2 = n; memcpy(r2, r, sizeof r); }
    int pos = -1;
    for (int i = 0; i < n2; i++) if (r2[i] == cur) pos = i;
    if (!may_keep && pos < 0) pos = -1;
    int to;
    if (n2 == 1) to = r2[0];
    else if (sw_mode == 3 && g_points < 3000) {
        to = r2[0];
        for (int i = 1; i < n2; i++) if (F[r2[i]].prio > F[to].prio) to = r2[i];
        if (pos >= 0 && F[cur].prio == F[to].prio) to = cur;
        if (pos >= 0 && F[cur].kept > 400) { to = r2[(pos + 1) % n2]; F[cur].prio = -(int)g_points; }
    } else if (pos >= 0) {
        if (F[cur].kept > 2000) to = r2[(pos + 1) % n2];
        else if (ch_p("switch", 1, (uint32_t)sw_den)) { int k = (int)ch("to", (uint32_t)(n2 - 1)); if (k >= pos) k++; to = r2[k]; }
        else to = cur;
    } else to = r2[ch("next", (uint32_t)n2)];
    switch_to(to);
}
void sched_point(void) {
    if (!sim_active) return;
    sim_active = 0;
    g_points++; g_steps++;
    if (g_steps > g_step_limit) step_limit_hit();
    if (fault(F_STALL)) { F[cur].stall_until = g_points + 1 + ch("stall-len", 60); F[cur].stalls++; }
    if (fault(F_CLOCKSTEP)) { long s = (long)ch("clock-step", 7); static const int64_t st[7] = { 1000000, -1000000, 1000000000LL, -1000000000LL, 3600000000000LL, -3600000000000LL, -50000000 }; sim_wall_step(st[s]); }
    if (fault(F_SPURIOUS)) {
        int c[NF], n = 0;
        for (int i = 0; i < nf; i++) if (F[i].state == ST_BLOCKED && F[i].wait_kind == W_COND) c[n++] = i;
        if (n) { int k = c[ch("spurious", (uint32_t)n)]; make_ready(&F[k]); sim_trace("spurious wake-up of T%d", k); }
    }
    if (sw_mode == 3 && ch_p("prio-change", 1, 24)) F[cur].prio = -(int)ch("prio-low", 1000) - 1;
    pick_and_switch(1);
    draw_gap();
    sim_active = 1;
}
void gap_hit(void) { R->preempts++; R->fired[F_PREEMPT]++; sched_point(); }
void sim_yield(void) { int a = sim_active; sim_active = 1; sched_point(); sim_active = a; }

int block_on(int kind, const void *obj, uint64_t mono_dl, int wall, int64_t wall_dl) {
    fib *f = &F[cur];
    int a = sim_active; sim_active = 0;
    g_points++; g_steps++;
    if (g_steps > g_step_limit) step_limit_hit();
    f->nwait[kind]++;
    f->state = ST_BLOCKED; f->wait_kind = kind; f->wait_obj = obj; f->timed_out = 0; f->woken = 0;
    f->has_dl = wall || mono_dl != UINT64_MAX; f->has_wall = wall; f->mono_dl = mono_dl; f->wall_dl = wall_dl;
    pick_and_switch(0);
    f->has_dl = 0; f->wait_kind = W_NONE; f->wait_obj = NULL;
    draw_gap();
    sim_active = a;
    return f->timed_out && !f->woken;
}
void wake_all(int kind, const void *obj) { for (int i = 0; i < nf; i++) if (F[i].state == ST_BLOCKED && F[i].wait_kind == kind && F[i].wait_obj == obj) { F[i].woken = 1; make_ready(&F[i]); } }
int waiters(int kind, const void *obj) { int n = 0; for (int i = 0; i < nf; i++) n += F[i].state == ST_BLOCKED && F[i].wait_kind == kind && F[i].wait_obj == obj; return n; }
int wake_n(int kind, const void *obj) {
    int c[NF], n = 0;
    for (int i = 0; i < nf; i++) if (F[i].state == ST_BLOCKED && F[i].wait_kind == kind && F[i].wait_obj == obj) c[n++] = i;
    if (n) { int k = c[ch("wake", (uint32_t)n)]; F[k].woken = 1; make_ready(&F[k]); }
    return n;
}
void sim_block_until(int (*cond)(void *), void *arg) {
    fib *f = &F[cur];
    int a = sim_active; sim_active = 0;
    f->cond = cond; f->condarg = arg;
    while (!cond(arg)) {
        f->state = ST_BLOCKED; f->wait_kind = W_HARNESS; f->wait_obj = NULL; f->has_dl = 0;
        g_points++; g_steps++;
        if (g_steps > g_step_limit) step_limit_hit();
        pick_and_switch(0);
        f->wait_kind = W_NONE;
        draw_gap();
    }
    sim_active = a;
}
void sim_idle(int n) { while (n-- > 0) sim_yield(); }

void sim_sched_cfg(int g, int s) { cfg_gap = g; cfg_sw = s;
    if (g >= 0) gap_class = g;
    if (s >= 0) { sw_mode = s; sw_den = s == 0 ? 2 : s == 1 ? 6 : 24; }
}
void sched_init(void) {
    void *p = mmap((void *)STK_BASE, (size_t)NF * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) sim_error("stacks: %s", strerror(errno));
    for (int i = 0; i < NF; i++) mprotect((char *)p + (size_t)i * STK, 4096, PROT_NONE);
    static const uint32_t gw[4] = { 3, 3, 3, 2 }, sw[4] = { 3, 3, 2, 2 };
    gap_class = (int)ch_w("gap-class", 4, gw);
    sw_mode = (int)ch_w("switch-mode", 4, sw);
    sw_den = sw_mode == 0 ? 2 : sw_mode == 1 ? 6 : 24;
}
static void (*main_fn)(void);
static void *main_wrap(void *a) { (void)a; main_fn(); return NULL; }
void sched_run(void (*fn)(void)) {
    void *dummy;
    main_fn = fn;
    fiber_create(main_wrap, NULL, "main", 1);
    cur = 0;
    sim_switch(&dummy, F[0].sp);
    sim_error("scheduler returned");
}

/* ---------------- cancellation ---------------- */
void cancel_point(void) {
    fib *f = &F[cur];
    if (sim_active && f->cancel_pending && !f->cancel_disabled && !f->exiting) { f->cancel_pending = 0; ev("T%ld acts on its cancellation", cur, 0, 0); fiber_exit(PTHREAD_CANCELED); }
}

/* ---------------- mutexes ---------------- */
#define M_DEAD 0xdeadb10cu
typedef struct { uint32_t locked, count; int owner; uint32_t pad; int kind; uint32_t magic; } smutex;
#define MX(m) ((smutex *)(void *)(m))
static void mx_chk(const void *m, const char *op) {
    heap_acc(m, sizeof(pthread_mutex_t), 1, op);
    if (MX(m)->magic == M_DEAD) sim_fail("sync-misuse", "%s on a destroyed lock", op);
}
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    step(); heap_acc(m, sizeof *m, 1, "pthread_mutex_init");
    if (fault(F_MUTEX_INIT)) return ENOMEM;
    memset(m, 0, sizeof *m);
    if (a) MX(m)->kind = *(const int *)(const void *)a & 3;
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
    step(); mx_chk(m, "pthread_mutex_destroy");
    if (MX(m)->locked) sim_fail("sync-misuse", "a held lock is destroyed");
    MX(m)->magic = M_DEAD; return 0;
}
static void mx_take(smutex *m) { m->locked = 1; m->owner = cur + 1; m->count = 1; }
static int mx_lock(pthread_mutex_t *mm) {
    smutex *m = MX(mm);
    if (m->locked && m->owner == cur + 1) {
        if (m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if (m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (m->locked) { block_on(W_MUTEX, m, UINT64_MAX, 0, 0); mx_chk(m, "lock after waiting"); }
    mx_take(m);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { sched_point(); mx_chk(m, "pthread_mutex_lock"); return mx_lock(m); }
int sim_pthread_mutex_trylock(pthread_mutex_t *mm) {
    sched_point(); mx_chk(mm, "pthread_mutex_trylock");
    smutex *m = MX(mm);
    if (m->locked) { if (m->owner == cur + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } return EBUSY; }
    mx_take(m); return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *mm, const struct timespec *ts) {
    sched_point(); mx_chk(mm, "pthread_mutex_timedlock");
    smutex *m = MX(mm);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
    while (m->locked) if (block_on(W_MUTEX, m, UINT64_MAX, 1, ts->tv_sec * 1000000000LL + ts->tv_nsec)) return ETIMEDOUT;
    mx_take(m); return 0;
}
static int mx_unlock(smutex *m) {
    if (!m->locked || m->owner != cur + 1) {
        if (m->kind == PTHREAD_MUTEX_ERRORCHECK || m->kind == PTHREAD_MUTEX_RECURSIVE) return EPERM;
        sim_fail("sync-misuse", "a lock is released by a thread that does not hold it");
    }
    if (m->kind == PTHREAD_MUTEX_RECURSIVE && --m->count) return 0;
    m->locked = 0; m->owner = 0;
    wake_all(W_MUTEX, m);
    return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { step(); mx_chk(m, "pthread_mutex_unlock"); int r = mx_unlock(MX(m)); sched_point(); return r; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)(void *)a = 0; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)(void *)a = t; return 0; }
int sim_pthread_mutexattr_gettype(const pthread_mutexattr_t *a, int *t) { *t = *(const int *)(const void *)a; return 0; }

/* ---------------- condition variables ---------------- */
typedef struct { uint32_t magic; uint32_t clock; uint32_t seq; } scond;
#define CX(c) ((scond *)(void *)(c))
static void cx_chk(const void *c, const char *op) { heap_acc(c, sizeof(pthread_cond_t), 1, op); if (CX(c)->magic == M_DEAD) sim_fail("sync-misuse", "%s on a destroyed condition", op); }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    step(); heap_acc(c, sizeof *c, 1, "pthread_cond_init");
    if (fault(F_COND_INIT)) return EAGAIN;
    memset(c, 0, sizeof *c);
    if (a) CX(c)->clock = *(const uint32_t *)(const void *)a;
    return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) {
    step(); cx_chk(c, "pthread_cond_destroy");
    if (waiters(W_COND, c)) sim_fail("sync-misuse", "a condition with waiting threads is destroyed");
    CX(c)->magic = M_DEAD; return 0;
}
int sim_pthread_cond_signal(pthread_cond_t *c) { sched_point(); cx_chk(c, "pthread_cond_signal"); CX(c)->seq++; wake_n(W_COND, c); sched_point(); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { sched_point(); cx_chk(c, "pthread_cond_broadcast"); CX(c)->seq++; wake_all(W_COND, c); sched_point(); return 0; }
static int cx_wait(pthread_cond_t *c, pthread_mutex_t *mm, int timed, int wall, uint64_t mono, int64_t wl) {
    smutex *m = MX(mm);
    sched_point(); cancel_point();
    cx_chk(c, "condition wait"); mx_chk(mm, "condition wait");
    if (!m->locked || m->owner != cur + 1) sim_fail("sync-misuse", "a condition wait without holding the lock");
    uint32_t cnt = m->count;
    m->locked = 0; m->owner = 0;
    wake_all(W_MUTEX, m);
    int to = block_on(W_COND, c, timed && !wall ? mono : UINT64_MAX, timed && wall, wl);
    sim_active = 1;
    while (m->locked) { block_on(W_MUTEX, m, UINT64_MAX, 0, 0); mx_chk(m, "lock after waiting"); }
    mx_take(m); m->count = cnt;
    cancel_point();
    return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cx_wait(c, m, 0, 0, 0, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
    int64_t d = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (ts->tv_sec > 9000000000LL) d = INT64_MAX / 2;
    int mono = CX(c)->clock == CLOCK_MONOTONIC;
    return cx_wait(c, m, 1, !mono, (uint64_t)d, d);
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
    int64_t d = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return cx_wait(c, m, 1, k != CLOCK_MONOTONIC, (uint64_t)d, d);
}
int sim_pthread_condattr_init(pthread_condattr_t *a) { *(uint32_t *)(void *)a = 0; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t k) { *(uint32_t *)(void *)a = (uint32_t)k; return 0; }
unsigned sim_cond_seq(const void *c) { return CX(c)->seq; }

/* ---------------- rwlocks, spin locks, semaphores, barriers, once ---------------- */
typedef struct { int readers, writer; } srw;
#define RX(r) ((srw *)(void *)(r))
int sim_pthread_rwlock_init(pthread_rwlock_t *r, const pthread_rwlockattr_t *a) { (void)a; memset(r, 0, sizeof *r); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *r) { (void)r; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *r) { sched_point(); while (RX(r)->writer) block_on(W_RW, r, UINT64_MAX, 0, 0); RX(r)->readers++; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *r) { sched_point(); if (RX(r)->writer) return EBUSY; RX(r)->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *r) { sched_point(); while (RX(r)->writer || RX(r)->readers) block_on(W_RW, r, UINT64_MAX, 0, 0); RX(r)->writer = cur + 1; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *r) { sched_point(); if (RX(r)->writer || RX(r)->readers) return EBUSY; RX(r)->writer = cur + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *r) { if (RX(r)->writer == cur + 1) RX(r)->writer = 0; else RX(r)->readers--; wake_all(W_RW, r); sched_point(); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *s, int p) { (void)p; *s = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *s) { (void)s; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *s) { sched_point(); while (*s) block_on(W_MUTEX, (const void *)s, UINT64_MAX, 0, 0); *s = 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *s) { sched_point(); if (*s) return EBUSY; *s = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *s) { *s = 0; wake_all(W_MUTEX, (const void *)s); sched_point(); return 0; }
int sim_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; *(unsigned *)(void *)s = v; return 0; }
int sim_sem_destroy(sem_t *s) { (void)s; return 0; }
int sim_sem_post(sem_t *s) { sched_point(); ++*(unsigned *)(void *)s; wake_all(W_SEM, s); return 0; }
int sim_sem_wait(sem_t *s) { sched_point(); cancel_point(); while (!*(unsigned *)(void *)s) block_on(W_SEM, s, UINT64_MAX, 0, 0); --*(unsigned *)(void *)s; return 0; }
int sim_sem_trywait(sem_t *s) { sched_point(); if (!*(unsigned *)(void *)s) { errno = EAGAIN; return -1; } --*(unsigned *)(void *)s; return 0; }
static struct { pthread_once_t *o; int by; } onces[8];
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    sched_point();
    while (*o == 1) block_on(W_SEM, o, UINT64_MAX, 0, 0);
    if (*o == 0) { int k = 0; while (k < 8 && onces[k].o) k++; if (k == 8) sim_error("too many once controls at work"); onces[k].o = o; onces[k].by = cur; *o = 1; fn(); *o = 2; onces[k].o = NULL; wake_all(W_SEM, o); }
    return 0;
}
/* fork: the handlers run around it; in the new process only the thread that forked is left, locks stay as they were */
static struct { void (*before)(void), (*parent)(void), (*child)(void); } atf[16]; static int natf;
int sim_pthread_atfork(void (*b)(void), void (*p)(void), void (*c)(void)) { step(); if (natf == 16) return ENOMEM; atf[natf].before = b; atf[natf].parent = p; atf[natf++].child = c; return 0; }
int sched_fork_prepare(void) { int n = natf; for (int i = n - 1; i >= 0; i--) if (atf[i].before) atf[i].before(); return n; }
void sched_fork_parent(int n) { for (int i = 0; i < n; i++) if (atf[i].parent) atf[i].parent(); }
void sched_fork_lone(void) {
    for (int i = 0; i < nf; i++) if (i != cur && F[i].state != ST_DONE) F[i].state = ST_FREE;
    for (int k = 0; k < 8; k++) if (onces[k].o && onces[k].by != cur) { *onces[k].o = 0; onces[k].o = NULL; }
}
void sched_fork_child(int n) { for (int i = 0; i < n; i++) if (atf[i].child) atf[i].child(); }
typedef struct { unsigned need, have, gen; } sbar;
int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) { (void)a; sbar *s = (void *)b; s->need = n; s->have = 0; s->gen = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { (void)b; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) {
    sbar *s = (void *)b; sched_point();
    unsigned g = s->gen;
    if (++s->have == s->need) { s->have = 0; s->gen++; wake_all(W_BARRIER, b); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (s->gen == g) block_on(W_BARRIER, b, UINT64_MAX, 0, 0);
    return 0;
}

/* ---------------- threads ---------------- */
static unsigned long free_tid[NF]; static int nfree_tid;
static void release_tid(fib *f) { if (nfree_tid < NF) free_tid[nfree_tid++] = f->tid; }
static fib *by_tid(pthread_t t) {
    for (int i = nf - 1; i >= 0; i--) if (F[i].tid == (unsigned long)t) return &F[i];
    return NULL;
}
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    sched_point();
    heap_acc(t, sizeof *t, 1, "pthread_create");
    if (fault(F_THREAD_CREATE)) return EAGAIN;
    int id = fiber_create(fn, arg, "lib-thread", 0);
    if (id < 0) return EAGAIN;
    if (nfree_tid && ch_p("reuse-thread-id", 1, 2)) F[id].tid = free_tid[--nfree_tid];
    if (a && *(const int *)(const void *)a == PTHREAD_CREATE_DETACHED) F[id].detached = 1;
    *t = (pthread_t)F[id].tid;
    ev("create thread T%ld", id, 0, 0);
    sched_point();
    return 0;
}
int sim_last_created(void) { return nf - 1; }
int sim_pthread_join(pthread_t t, void **ret) {
    sched_point(); cancel_point();
    fib *f = by_tid(t);
    if (!f || f->joined) sim_fail("thread-misuse", "join of a thread that does not exist (or was joined already)");
    if (f->detached) return EINVAL;
    if (f->id == cur) return EDEADLK;
    while (f->state != ST_DONE) { block_on(W_JOIN, f, UINT64_MAX, 0, 0); cancel_point(); }
    f->joined = 1; release_tid(f);
    if (ret) { heap_acc(ret, sizeof *ret, 1, "pthread_join"); *ret = f->ret; }
    return 0;
}
int sim_pthread_detach(pthread_t t) {
    sched_point();
    fib *f = by_tid(t);
    if (!f || f->joined) return ESRCH;
    if (f->detached) return EINVAL;
    f->detached = 1; if (f->state == ST_DONE) release_tid(f);
    return 0;
}
void sim_pthread_exit(void *r) { sched_point(); fiber_exit(r); }
int sim_pthread_cancel(pthread_t t) {
    sched_point();
    fib *f = by_tid(t);
    if (!f) return ESRCH;
    if (f->state == ST_DONE) return 0;
    f->cancel_pending = 1;
    if (!f->cancel_disabled && f->state == ST_BLOCKED && (f->wait_kind == W_COND || f->wait_kind == W_SLEEP || f->wait_kind == W_IO || f->wait_kind == W_JOIN || f->wait_kind == W_SEM)) { f->woken = 1; make_ready(f); }
    return 0;
}
void sim_pthread_testcancel(void) { sched_point(); cancel_point(); }
int sim_pthread_setcancelstate(int s, int *o) { if (o) *o = F[cur].cancel_disabled; F[cur].cancel_disabled = s == PTHREAD_CANCEL_DISABLE; return 0; }
int sim_pthread_setcanceltype(int s, int *o) { (void)s; if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
pthread_t sim_pthread_self(void) { step(); return (pthread_t)F[cur].tid; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_yield(void) { sched_point(); return 0; }
int sim_sched_yield(void) { sched_point(); return 0; }
int sim_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { *(int *)(void *)a = s; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { (void)a; (void)s; return 0; }
int sim_pthread_sigmask(int h, const void *s, void *o) { (void)h; (void)s; (void)o; return 0; }
unsigned long fiber_tid(int id) { return F[id].tid; }
int fiber_joined(int id) { return F[id].joined; }
int fiber_detached(int id) { return F[id].detached; }
int fiber_count(void) { return nf; }
int fiber_is_blocked(int id) { return F[id].state == ST_BLOCKED; }
int fiber_wait_kind(int id) { return F[id].state == ST_BLOCKED ? F[id].wait_kind : 0; }
int fiber_waits(int id, int kind) { return F[id].nwait[kind]; }
int fiber_is_harness(int id) { return F[id].harness; }
int fiber_done(int id) { return F[id].state == ST_DONE; }
int mutex_owner(const void *m) { return MX(m)->locked ? MX(m)->owner - 1 : -1; }
long sim_gettid(void) { return cur + 1000; }

int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
    step();
    for (unsigned i = 0; i < NKEYS; i++) if (!keys[i].used) { keys[i].used = 1; keys[i].dtor = d; for (int j = 0; j < nf; j++) F[j].tsd[i] = NULL; *k = i; return 0; }
    return EAGAIN;
}
int sim_pthread_key_delete(pthread_key_t k) { step(); if (k >= NKEYS || !keys[k].used) return EINVAL; keys[k].used = 0; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { step(); return k < NKEYS && keys[k].used ? F[cur].tsd[k] : NULL; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { step(); if (k >= NKEYS || !keys[k].used) return EINVAL; F[cur].tsd[k] = (void *)(uintptr_t)v; return 0; }

/* ---------------- time ---------------- */
static void clk(void) { step(); }
int sim_gettimeofday(struct timeval *tv, void *tz) { (void)tz; clk(); heap_acc(tv, sizeof *tv, 1, "gettimeofday"); int64_t w = sim_wall_ns(); tv->tv_sec = w / 1000000000LL; tv->tv_usec = (w % 1000000000LL) / 1000; return 0; }
time_t sim_time(time_t *t) { clk(); time_t r = (time_t)(sim_wall_ns() / 1000000000LL); if (t) *t = r; return r; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    clk(); int64_t w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_wall_ns() : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? (sim_ru_user_us + sim_ru_sys_us) * 1000 : (int64_t)sim_now();
    ts->tv_sec = w / 1000000000LL; ts->tv_nsec = w % 1000000000LL; return 0;
}
clock_t sim_clock(void) { clk(); return (clock_t)(sim_ru_user_us + sim_ru_sys_us); }
int64_t sim_ru_cost_user, sim_ru_cost_sys;
int sim_getrusage(int who, struct rusage *r) {
    (void)who; clk(); heap_acc(r, sizeof *r, 1, "getrusage"); memset(r, 0, sizeof *r);
    r->ru_utime.tv_sec = sim_ru_user_us / 1000000; r->ru_utime.tv_usec = sim_ru_user_us % 1000000;
    r->ru_stime.tv_sec = sim_ru_sys_us / 1000000; r->ru_stime.tv_usec = sim_ru_sys_us % 1000000;
    sim_ru_user_us += sim_ru_cost_user; sim_ru_sys_us += sim_ru_cost_sys;   /* reading the usage costs time as well */
    return 0;
}
static uint64_t do_sleep(uint64_t ns) {      /* returns ns left */
    sched_point(); cancel_point();
    uint64_t dl = sim_now() + ns;
    if (fault(F_SLEEP_EINTR)) { uint64_t part = ns / 1000 * ch("slept", 1000); sim_advance(part); return ns - part; }
    while (sim_now() < dl) { block_on(W_SLEEP, NULL, dl, 0, 0); cancel_point(); }
    return 0;
}
unsigned sim_sleep(unsigned s) { proc.slept += (int)s; uint64_t l = do_sleep((uint64_t)s * 1000000000ULL); return (unsigned)((l + 999999999ULL) / 1000000000ULL); }
int sim_usleep(useconds_t u) { if (do_sleep((uint64_t)u * 1000)) { errno = EINTR; return -1; } return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b);
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b) {
    if (!(flags & TIMER_ABSTIME)) return sim_nanosleep(a, b) ? errno : 0;
    struct timespec n; sim_clock_gettime(c, &n); int64_t d = ((int64_t)a->tv_sec - n.tv_sec) * 1000000000LL + (a->tv_nsec - n.tv_nsec);
    return d > 0 && do_sleep((uint64_t)d) ? EINTR : 0;
}
int sim_nanosleep(const struct timespec *a, struct timespec *b) {
    uint64_t l = do_sleep((uint64_t)a->tv_sec * 1000000000ULL + (uint64_t)a->tv_nsec);
    if (b) { b->tv_sec = (time_t)(l / 1000000000ULL); b->tv_nsec = (long)(l % 1000000000ULL); }
    if (l) { errno = EINTR; return -1; }
    return 0;
}
