/* C05, C06: locks, conditions, and thread control through the library's thread
 * API.  Every client is a simulated thread; the harness keeps its own ledger of
 * who holds what and judges the library by it. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <zt.h>
#include <libzt/zt_threads.h>

/* ------------------------------------------------------------------ C05 */
#define ML 3
#define MT 32
static int big;            /* many threads, long programs (rare) */
static zt_threads_mutex *L[ML]; static zt_threads_cond *CV[2];
static int nl;
static int owner[ML];          /* thread between a successful acquisition and the begin of its release, -1 none */
static int inuse[ML];          /* threads between the begin of an acquisition and the end of the release (or of the failed attempt) */
static unsigned hold_epoch[ML];/* changes with every acquisition */
static unsigned touches[ML];   /* changes whenever anyone enters or leaves */
static long counter[ML], expect[ML];
static int spurious_on, step_on;

static void got(int l, const char *how) {
    int me = fiber_self();
    CHECK(owner[l] == -1, "not-exclusive", "T%d obtained lock %d (%s) while T%d holds it", me, l, how, owner[l]);
    owner[l] = me; hold_epoch[l]++;
}
static void acquire(int l) {
    touches[l]++; inuse[l]++;
    int r = zt_threads_lock(ZT_THREADS_LOCK_BLOCKING, L[l]);
    CHECK(r == 0, "lock-failed", "a blocking acquisition of lock %d returned %d", l, r);
    got(l, "blocking");
}
static void release(int l) {
    CHECK(owner[l] == fiber_self(), "not-exclusive", "T%d lost lock %d to T%d while holding it", fiber_self(), l, owner[l]);
    owner[l] = -1;
    int r = zt_threads_unlock(ZT_THREADS_LOCK_BLOCKING, L[l]);
    CHECK(r == 0, "unlock-failed", "releasing lock %d returned %d", l, r);
    inuse[l]--; touches[l]++;
}
static int try_acquire(int l) {
    int me = fiber_self(), w = fiber_waits(me, WK_MUTEX), others = inuse[l], held = owner[l];
    unsigned t0 = touches[l], e0 = hold_epoch[l];
    touches[l]++; t0++; inuse[l]++;
    int r = zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, L[l]);
    CHECK(fiber_waits(me, WK_MUTEX) == w, "nonblocking-blocked", "a non-blocking acquisition of lock %d waited", l);
    if (r == 0) {
        CHECK(!(held >= 0 && owner[l] == held && hold_epoch[l] == e0), "not-exclusive", "a non-blocking acquisition of lock %d succeeded while T%d held it throughout", l, held);
        got(l, "non-blocking");
        probe("try-success");
        return 1;
    }
    CHECK(others > 0 || touches[l] != t0, "spurious-busy", "a non-blocking acquisition of lock %d reported %d although nobody else used it", l, r);
    inuse[l]--; touches[l]++;
    probe("try-busy");
    return 0;
}
static void critical(int l) {
    long v = counter[l];
    int n = (int)ch("dwell", 4);
    while (n-- > 0) sim_yield();
    counter[l] = v + 1; expect[l]++;
}
static void *locker(void *a) {
    int n = 1 + (int)ch("ops", big ? 120 : 8);
    while (n-- > 0) {
        int l = (int)ch("lock", (uint32_t)nl);
        if (ch_p("try", 1, 2)) { if (!try_acquire(l)) { if (ch_p("pause", 1, 2)) sim_idle((int)ch("pause-len", 5)); continue; } }
        else acquire(l);
        if (nl > 1 && l + 1 < nl && ch_p("nest", 1, 4)) {       /* ordered nesting: deadlock free by construction */
            int l2 = l + 1;
            if (ch_p("try2", 1, 2) ? try_acquire(l2) : (acquire(l2), 1)) { critical(l2); release(l2); }
        }
        critical(l);
        release(l);
    }
    return NULL;
}
/* --- conditions --- */
static struct { int timed; long sec, usec; int ret, returned, waiting, id; int deadline_carry; } W[MT];
static int nwait;
static long sig_begun[2], sig_ended[2];
static int spurious_fired(void) { return fault_fired(F_SPURIOUS); }
static uint64_t us(uint64_t ns) { return ns / 1000; }
static int tokens, taken, closing; static int use_pred; static int timed_others;
static uint64_t total_to;

static int do_wait(int k, int cv, int l) {
    struct timeval tv = { W[k].sec, W[k].usec };
    int me = fiber_self();
    if (W[k].timed && W[k].deadline_carry) {     /* bring the microseconds of the deadline next to a full second */
        int64_t now = sim_wall_ns() / 1000;
        tv.tv_usec = 1000000 - (long)(now % 1000000) + (long)ch("carry", 5) - 2;
        if (tv.tv_usec < 0) tv.tv_usec = 0;
    }
    long s_end = sig_ended[cv], s_beg = sig_begun[cv];
    (void)s_beg;
    int sp0 = spurious_fired();
    int64_t w0 = sim_wall_ns(); uint64_t st0 = sim_steps(), j0 = sim_now();
    owner[l] = -1; W[k].waiting = 1;
    ev("T%ld waits (timeout %ld us)", me, W[k].timed ? tv.tv_sec * 1000000 + tv.tv_usec : -1, 0);
    int wc = fiber_waits(me, WK_COND);
    int r = zt_threads_cond_wait(CV[cv], L[l], W[k].timed ? &tv : NULL);
    W[k].waiting = 0;
    ev("T%ld returns from the wait: %ld", me, r, 0);
    (void)j0; (void)wc;
    got(l, "condition wait");
    uint64_t want = (uint64_t)tv.tv_sec * 1000000 + (uint64_t)tv.tv_usec;
    int64_t el = (sim_wall_ns() - w0);
    if (r == 0) {
        if (spurious_fired() == sp0)
            CHECK(sig_begun[cv] > s_end, "woken-without-signal", "a wait reported a wake-up although nobody signalled");
        probe("woken");
    } else if (r == 1) {
        CHECK(W[k].timed, "timeout-without-timeout", "a wait without timeout reported a timeout");
        if (!step_on) CHECK(el >= 0 && us((uint64_t)el) + 1 >= want, "early-timeout", "a wait of %llu us reported a timeout after %lld ns", (unsigned long long)want, (long long)el);
        probe("timed-out");
        if (tv.tv_usec >= 1000000) probe("unnormalised-timeout");
        if (want == 0) probe("zero-timeout");
    } else sim_fail("wait-error", "a condition wait returned %d (timeout %ld.%06ld)", r, W[k].timed ? (long)tv.tv_sec : -1L, (long)tv.tv_usec);
    if (W[k].timed && !step_on && !timed_others)   /* the clock only moves with steps and with this wait */
        CHECK((uint64_t)el <= want * 1000 + (sim_steps() - st0) * 20 + 2000, "late-timeout", "a wait of %llu us returned after %lld ns", (unsigned long long)want, (long long)el);
    return r;
}
static int n_done;
static void *waiter(void *a) {
    int k = (int)(long)a;
    acquire(0);
    W[k].ret = do_wait(k, 0, 0);
    W[k].returned = 1;
    release(0);
    n_done++;
    return NULL;
}
static void *token_taker(void *a) {
    int k = (int)(long)a;
    acquire(0);
    while (!tokens && !closing) do_wait(k, 0, 0);
    if (tokens) { tokens--; taken++; }
    release(0);
    n_done++;
    return NULL;
}
static void signal_cv(int cv, int all) {
    sig_begun[cv]++;
    ev(all ? "broadcast" : "signal", 0, 0, 0);
    int r = zt_threads_cond_signal(CV[cv], all);
    CHECK(r == 0, "signal-failed", "signalling returned %d", r);
    sig_ended[cv]++;
}
static int all_blocked(void *a) { int n = 0; for (int k = 0; k < nwait; k++) n += fiber_wait_kind(W[k].id) == WK_COND || fiber_done(W[k].id); return n == nwait; }
static int done_n(void *a) { return n_done >= (int)(long)a; }
static int fin_cond(void *a) { return n_done == nwait; }

static void c05(void) {
    zt_threads_use_pthreads();
    for (int i = 0; i < ML; i++) owner[i] = -1;
    size_t h0 = heap_live();
    if (ch_p("alloc-faults", 1, 12)) {
        int which = (int)ch("resource", 4);
        fault_set(which == 0 || which == 2 ? F_ALLOC : which == 1 ? F_MUTEX_INIT : F_COND_INIT, 1, 1, 1);
        void *p = which < 2 ? zt_threads_alloc_lock(0) : zt_threads_cond_alloc(0);
        fault_off();
        CHECK(p == NULL, "invented-object", "creation succeeded although its resources were refused");
        CHECK(heap_live() == h0, "leak", "a failed creation keeps memory");
        probe("creation-failure");
    }
    nl = 1 + (int)ch("locks", ML);
    for (int i = 0; i < nl; i++) { L[i] = zt_threads_alloc_lock(0); CHECK(L[i], "setup", "lock creation failed"); }
    CV[0] = zt_threads_cond_alloc(0); CHECK(CV[0], "setup", "condition creation failed");
    sim_step_limit(3000000, "stuck"); sim_deadlock_kind("lost-wakeup-or-lock");
    if (ch_p("spurious-on", 1, 3)) { spurious_on = 1; fault_set(F_SPURIOUS, 1, 12, -1); }
    if (ch_p("stall-on", 1, 3)) fault_set(F_STALL, 1, 40, -1);
    if (ch_p("clock-steps", 1, 5)) { step_on = 1; fault_set(F_CLOCKSTEP, 1, 60, -1); }
    if (ch_p("timer-race", 1, 3)) fault_set(F_TIMERACE, 1, 30, -1);
    sim_wall_set(1700000000LL * 1000000000LL + (int64_t)ch("usec", 1000000) * 1000);
    int part = (int)ch("part", 5);
    big = sim_large();
    int nt = 2 + (int)ch("threads", big ? MT - 2 : 5); if (nt > MT) nt = MT;
    int ids[MT];
    if (part == 0) {
        sim_desc("lockers=%d locks=%d ", nt, nl); sim_nontrivial();
        for (int i = 0; i < nt; i++) ids[i] = fiber_spawn(locker, NULL, "locker");
        for (int i = 0; i < nt; i++) fiber_join(ids[i]);
        for (int i = 0; i < nl; i++) CHECK(counter[i] == expect[i], "lost-update", "%ld critical sections of lock %d left a count of %ld", expect[i], i, counter[i]);
    } else {
        nwait = 1 + (int)ch("waiters", big ? MT - 4 : 4);
        int timedmode = (int)ch("timed", 3);     /* 0 none, 1 one, 2 any */
        int ntimed = 0;
        for (int k = 0; k < nwait; k++) {
            W[k].timed = timedmode == 0 ? 0 : timedmode == 1 ? k == 0 : (int)ch("is-timed", 2);
            static const long secs[] = { 0, 0, 0, 1, 2, 3600, 1000000 };
            W[k].sec = secs[ch("sec", 7)];
            switch (ch("usec-kind", 5)) { case 0: W[k].usec = 0; break; case 1: W[k].usec = (long)ch("usec", 1000); break; case 2: W[k].usec = 999999; break; case 3: W[k].usec = (long)ch("usec", 1000000); break; default: W[k].usec = 1000000 + (long)ch("usec", 2000000); }
            W[k].deadline_carry = (int)ch("carry-on", 3) == 0;
            ntimed += W[k].timed;
        }
        timed_others = ntimed > 1;
        use_pred = part >= 3;
        sim_desc("waiters=%d timed=%d %s ", nwait, ntimed, part == 1 ? "no-signal" : part == 2 ? "signals" : part == 3 ? "tokens" : "tokens+lockers"); sim_nontrivial();
        if (part == 1) {            /* nobody signals: timed waiters return at their deadline, the others stay */
            for (int k = 0; k < nwait; k++) W[k].id = fiber_spawn(waiter, (void *)(long)k, "waiter");
            int sp = spurious_on;
            sim_block_until(done_n, (void *)(long)ntimed);
            for (int k = 0; k < nwait; k++) if (W[k].timed && !sp) CHECK(!W[k].returned || W[k].ret == 1, "no-timeout", "an unsignalled timed wait returned %d", W[k].ret);
            if (!sp) for (int k = 0; k < nwait; k++) CHECK(W[k].returned == W[k].timed, "woken-without-signal", "a waiter without timeout returned although nobody signalled");
            fault_off();
            if (ntimed < nwait) { sim_block_until(all_blocked, NULL); acquire(0); signal_cv(0, 1); release(0); probe("broadcast"); }
            sim_block_until(fin_cond, NULL);
        } else if (part == 2) {     /* every untimed waiter is blocked, then exactly enough signals or one broadcast */
            for (int k = 0; k < nwait; k++) { W[k].timed = 0; W[k].id = fiber_spawn(waiter, (void *)(long)k, "waiter"); }
            sim_block_until(all_blocked, NULL);
            fault_off();
            int all = (int)ch("broadcast", 2), under = (int)ch("under-lock", 2);
            if (under) { acquire(0); sim_idle((int)ch("hold", 4)); }
            if (all) { signal_cv(0, 1); probe("broadcast"); }
            else for (int k = 0; k < nwait; k++) signal_cv(0, 0);
            if (under) release(0);
            sim_block_until(fin_cond, NULL);
        } else {
            for (int k = 0; k < nwait; k++) { W[k].timed = timedmode ? W[k].timed : 0; W[k].id = fiber_spawn(token_taker, (void *)(long)k, "taker"); }
            int nlk = part == 4 ? 2 : 0;
            for (int i = 0; i < nlk; i++) ids[i] = fiber_spawn(locker, NULL, "locker");
            int give = nwait, gave = 0;
            while (gave < give) {
                if (ch_p("idle", 1, 2)) sim_idle((int)ch("idle-len", 12));
                int n = 1 + (int)ch("batch", (uint32_t)(give - gave));
                int inside = (int)ch("signal-inside", 2);
                if (ch_p("by-try", 1, 4)) { if (!try_acquire(0)) continue; } else acquire(0);
                tokens += n; gave += n;
                if (inside) { if (n > 1) signal_cv(0, 1); else signal_cv(0, 0); }
                release(0);
                if (!inside) { if (n > 1) signal_cv(0, 1); else signal_cv(0, 0); }
            }
            sim_block_until(fin_cond, NULL);
            CHECK(taken == give && tokens == 0, "lost-token", "%d tokens given, %d taken, %d left", give, taken, tokens);
            for (int i = 0; i < nlk; i++) fiber_join(ids[i]);
        }
    }
    fault_off();
    for (int i = 0; i < nl; i++) { acquire(i); release(i); zt_threads_free_lock(L[i], 0); }
    zt_threads_cond_free(CV[0]);
    CHECK(heap_live() == h0, "leak", "%ld blocks remain after releasing locks and conditions", (long)(heap_live() - h0));
}
SCN(C05, c05, "two or more threads contend for locks, or at least one thread waits on a condition", "zt_threads.c lock/condition calls, zt_threads_pthreads.c, zt_time.c (deadline arithmetic)", "pthread mutex/cond, gettimeofday, malloc, scheduler")

/* ------------------------------------------------------------------ C06 */
#define MK 40
int sim_pthread_attr_init(pthread_attr_t *), sim_pthread_attr_destroy(pthread_attr_t *), sim_pthread_attr_setdetachstate(pthread_attr_t *, int);
enum { B_RETURN, B_END, B_END_DEEP, B_WAIT, B_SLEEPY, B_LOOP };
enum { E_JOIN, E_DETACH, E_KILL, E_DETACH_EARLY, E_SELF_DETACH };
typedef struct { int behave, end, runs, ended, fid, start_ret, started; void *arg, *ret; zt_threads_thread *th; unsigned long tid; int joined, killed, cancelled_ok; zt_threads_mutex *l; zt_threads_cond *c; int idx, depth; int nchild, born; } thr;
static thr T[MK]; static int nthr;
static unsigned long main_tid;
static int live_tid_clash(unsigned long id, int me) {
    for (int i = 0; i < nthr; i++) if (i != me && T[i].runs && T[i].tid == id && !fiber_done(T[i].fid)) return 1;
    return id == main_tid;
}
static void end_deep(int n, void *v) { if (n) { end_deep(n - 1, v); sim_fail("end-returned", "the end call returned to its caller"); } zt_threads_end(v); }
static void *entry(void *a) {
    thr *t = NULL;
    for (int i = 0; i < nthr; i++) if (T[i].arg == a) t = &T[i];
    CHECK(t, "wrong-argument", "an entry function was given an argument nobody passed (%p)", a);
    CHECK(++t->runs == 1, "started-twice", "the entry function of thread %d ran twice", t->idx);
    CHECK(!(t->started && t->start_ret), "started-despite-failure", "thread %d runs although starting it reported failure", t->idx);
    t->fid = fiber_self();
    CHECK(t->fid != 0, "no-own-thread", "the entry function runs in the starting thread");
    t->tid = zt_threads_id();
    CHECK(!live_tid_clash(t->tid, t->idx), "identity", "thread %d has the identity of another live thread", t->idx);
    int n = (int)ch("work", 6); while (n-- > 0) sim_yield();
    CHECK(zt_threads_id() == t->tid, "identity", "the identity of thread %d changed", t->idx);
    switch (t->behave) {
    case B_RETURN: t->ended = 1; return t->ret;
    case B_END: t->ended = 1; zt_threads_end(t->ret); break;
    case B_END_DEEP: t->ended = 1; end_deep(3, t->ret); break;
    case B_WAIT: zt_threads_lock(0, t->l); for (;;) zt_threads_cond_wait(t->c, t->l, NULL);
    case B_SLEEPY: { int m = (int)ch("naps", 6); for (int i = 0; i < m; i++) { struct timeval tv = { 0, 500 }; zt_threads_lock(0, t->l); zt_threads_cond_wait(t->c, t->l, &tv); zt_threads_unlock(0, t->l); } t->ended = 1; return t->ret; }
    default: break;
    }
    sim_fail("end-returned", "the end call returned to its caller");
}
static void finish_thread(thr *t) {
    void *v = (void *)0x5a5a;
    if (t->end == E_KILL) {
        if (ch_p("late-kill", 1, 2)) sim_idle((int)ch("kill-delay", 20));
        int was_over = t->runs && fiber_done(t->fid);
        int r = zt_threads_kill(t->th);
        CHECK(r == 0 || was_over, "kill-failed", "cancelling a running thread returned %d", r);
        t->killed = 1;
    }
    if (t->born) { t->joined = 2; return; }
    if (t->end == E_DETACH || t->end == E_DETACH_EARLY) {
        int r = zt_threads_detach(t->th);
        CHECK(r == 0, "detach-failed", "detaching thread %d returned %d", t->idx, r);
        t->joined = 2;
        return;
    }
    int r = zt_threads_join(t->th, &v);
    CHECK(r == 0, "join-failed", "joining thread %d returned %d", t->idx, r);
    t->joined = 1;
    if (t->runs) CHECK(fiber_done(t->fid), "join-early", "the join of thread %d returned before it ended", t->idx);
    else CHECK(t->killed, "never-ran", "thread %d was joined but its entry function never ran", t->idx);
    if (t->ended && !(t->killed && v == PTHREAD_CANCELED && t->behave == B_SLEEPY)) CHECK(v == t->ret, "wrong-result", "joining thread %d yields %p instead of %p", t->idx, v, t->ret);
    else { CHECK(t->killed, "wrong-result", "thread %d ended without reaching its end", t->idx); CHECK(v == PTHREAD_CANCELED, "wrong-result", "joining the cancelled thread %d yields %p", t->idx, v); probe("cancelled"); }
}
static int joiner_of[MK];
static void *joiner(void *a) { long w = (long)a; for (int i = 0; i < nthr; i++) if (joiner_of[i] == w && T[i].started && !T[i].start_ret) finish_thread(&T[i]); return NULL; }
static int detached_over(void *a) { for (int i = 0; i < nthr; i++) if (T[i].joined == 2 && !(T[i].runs && fiber_done(T[i].fid))) return 0; return 1; }
static void c06(void) {
    zt_threads_use_pthreads();
    sim_step_limit(3000000, "stuck"); sim_deadlock_kind("join-hang");
    big = sim_large();
    nthr = 1 + (int)ch("threads", big ? MK : 8);
    main_tid = zt_threads_id();
    int cf = ch_p("create-faults", 1, 3);
    if (ch_p("stall-on", 1, 3)) fault_set(F_STALL, 1, 30, -1);
    int njoin = 1 + (int)ch("joiners", 2), nfail = 0;
    static char args[MK], rets[MK];
    size_t h0 = heap_live();
    for (int i = 0; i < nthr; i++) {
        thr *t = &T[i]; t->idx = i; t->arg = ch_p("null-arg", 1, 12) && i == 0 ? NULL : &args[i];
        t->ret = ch_p("null-ret", 1, 6) ? NULL : (void *)&rets[i];
        t->behave = (int)ch("behaviour", 5); t->end = (int)ch("end", 4);
        if (t->behave == B_WAIT) t->end = E_KILL;     /* only a cancellation ends it */
        joiner_of[i] = (int)ch("joiner", (uint32_t)njoin);
        if (t->behave >= B_WAIT) { t->l = zt_threads_alloc_lock(0); t->c = zt_threads_cond_alloc(0); heap_ignore(t->l); heap_ignore(t->c); }
    }
    h0 = heap_live();
    sim_desc("threads=%d joiners=%d create-faults=%d ", nthr, njoin, cf);
    if (nthr > 1) sim_nontrivial();
    if (ch_p("alloc-thread-fault", 1, 10)) { fault_set(F_ALLOC, 1, 1, 1); void *p = zt_threads_alloc_thread(); fault_set(F_ALLOC, 0, 1, 0); CHECK(!p, "invented-object", "a thread handle was created without memory"); }
    if (cf) fault_set(F_THREAD_CREATE, 1, 3, -1);
    for (int i = 0; i < nthr; i++) {
        thr *t = &T[i];
        t->th = zt_threads_alloc_thread(); CHECK(t->th, "setup", "thread handle");
        int f0 = fault_fired(F_THREAD_CREATE), c0 = fiber_count();
        pthread_attr_t at, *ap = NULL; if (ch_p("attributes", 1, 4)) { ap = &at; sim_pthread_attr_init(ap); t->born = t->end != E_KILL && ch("detached", 2); sim_pthread_attr_setdetachstate(ap, t->born ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE); if (t->born) { t->end = E_DETACH; joiner_of[i] = -1; probe("created-detached"); } }
        int r = zt_threads_start(t->th, ap, entry, t->arg); if (ap) sim_pthread_attr_destroy(ap);
        t->start_ret = r; t->started = 1;
        if (fault_fired(F_THREAD_CREATE) > f0) { CHECK(r != 0, "failure-not-reported", "thread creation was refused but the start call returned %d", r); nfail++; probe("create-failure"); }
        else { CHECK(r == 0, "start-failed", "the start call returned %d although nothing failed", r); CHECK(fiber_count() > c0, "never-ran", "the start call reported success without creating a thread"); }
        if (!r && (t->end == E_DETACH_EARLY || t->born)) { finish_thread(t); joiner_of[i] = -1; }
        if (ch_p("pause", 1, 3)) sim_idle((int)ch("pause-len", 10));
    }
    int jid[4];
    for (int j = 0; j < njoin; j++) jid[j] = fiber_spawn(joiner, (void *)(long)j, "joiner");
    for (int j = 0; j < njoin; j++) fiber_join(jid[j]);
    sim_block_until(detached_over, NULL);
    sim_idle(10);
    for (int i = 0; i < nthr; i++) {
        thr *t = &T[i];
        if (t->start_ret) CHECK(t->runs == 0, "started-despite-failure", "thread %d runs although starting it reported failure", i);
        else if (!t->killed) CHECK(t->runs == 1 && t->ended, "never-ran", "thread %d did not run to its end", i);
        if (t->joined == 2 && t->runs) CHECK(fiber_detached(t->fid), "not-detached", "thread %d was detached but the system still holds it for a join", i);
        if (t->joined == 1 && t->runs) CHECK(fiber_joined(t->fid), "not-reclaimed", "thread %d was joined but not reclaimed", i);
        sim_free(t->th);
    }
    CHECK(heap_live() == h0, "leak", "%ld blocks remain", (long)(heap_live() - h0));
}
SCN(C06, c06, "two or more threads are started", "zt_threads.c control calls, zt_threads_pthreads.c", "pthread create/join/detach/cancel/exit, malloc, scheduler")
