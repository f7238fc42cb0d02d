/* C01..C04: the thread pool.  Clients (producers, consumers, pipe readers, the
 * thread that shuts the pool down) and the pool's own workers are simulated
 * threads; the callbacks below record everything the pool does. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <zt.h>
#include <libzt/zt_threads.h>

#define MAXI 2048
enum { M_C01, M_C02, M_C03, M_C04 };
static int mode, big;     /* big: many items, long queues, many workers (rare) */
typedef struct {
    int stage;              /* 0: given to the input stage, 1: given directly to the output stage */
    long ib, ie;            /* insertion interval */
    int ret, inserted;
    int in_calls, out_calls, fin_calls, got;
    int in_worker, out_worker;
    long in_lo, in_hi, in_ret, out_lo, out_hi;  /* removal intervals */
    int plan_in, plan_out;  /* what the workers return: 0 NULL, 1 same object, 2 another object */
    int before_kill;
    int feeds, fed;         /* the item its worker inserts (0: none); whether a worker inserts it */
} item;
static int null_item = -1;      /* the item whose value is NULL */
static item I[MAXI]; static int ni;
static char tok_in[MAXI], tok_mid[MAXI], tok_fin[MAXI];   /* identities: value passed in, between the stages, to finalize */
static long tick;
static int nt, oput_on, have_ow, have_fin, have_init, pipes_i, pipes_o, work_yield;
static int killed_returned, kill_begun;
static zt_threadpool *tp, *tp2; static struct zt_threadpool_callbacks CB;
static long last_ret[256];
static char init_tok[256];

static void *given(int k) { return k == null_item ? NULL : (void *)&tok_in[k]; }
static item *by(const void *p, const char *base, const char *what) {
    if (!p && base == tok_in && null_item >= 0) return &I[null_item];
    long k = (const char *)p - base;
    CHECK(k >= 0 && k < ni, "invented-item", "%s was given a value nobody inserted (%p)", what, p);
    return &I[k];
}
static void *mid_of(int k) { return I[k].stage == 1 ? (void *)&tok_mid[k] : I[k].plan_in == 0 ? NULL : I[k].plan_in == 1 ? given(k) : (void *)&tok_mid[k]; }
static int idx_mid(const void *p) { /* value in the output stage -> item */
    if ((const char *)p >= tok_in && (const char *)p < tok_in + MAXI) return (int)((const char *)p - tok_in);
    return (int)(by(p, tok_mid, "the output stage") - I);
}
static void alive(const char *w) { CHECK(!killed_returned, "worker-after-shutdown", "%s runs after the shutdown call returned", w); }
static void *cb_init(void *a) {
    alive("the init callback");
    CHECK(a == tp || (a && a == tp2), "bad-init-arg", "the init callback got a wrong argument");
    return &init_tok[fiber_self()];
}
static void chk_init(void *d) {
    if (have_init) CHECK(d == &init_tok[fiber_self()], "wrong-init-data", "a worker callback got another worker's init data");
    else CHECK(d == NULL, "wrong-init-data", "a worker callback got init data although there is no init callback");
}
static void dwell(void) { int n = work_yield ? (int)ch("work", 4) : 0; while (n-- > 0) sim_yield(); }
static void insert(int k);
static void *cb_in(void *d, void *data) {
    alive("the input worker"); chk_init(d);
    item *it = by(data, tok_in, "the input worker"); int k = (int)(it - I), me = fiber_self();
    long t = ++tick;
    ev("input worker T%ld takes item %ld", me, k, 0);
    CHECK(++it->in_calls == 1, "duplicate", "item %d was passed to the input worker twice", k);
    CHECK(it->stage == 0, "wrong-stage", "item %d of the output stage was passed to the input worker", k);
    it->in_worker = me; it->in_lo = last_ret[me]; it->in_hi = t;
    dwell(); if (it->feeds) { insert(it->feeds); probe("inserted-by-worker"); }
    alive("the input worker (still)");
    it->in_ret = last_ret[me] = ++tick;
    return mid_of(k);
}
static void *cb_out(void *d, void *data) {
    alive("the output worker"); chk_init(d);
    int k = idx_mid(data), me = fiber_self(); item *it = &I[k];
    long t = ++tick;
    ev("output worker T%ld takes item %ld", me, k, 0);
    CHECK(data == mid_of(k), "altered", "item %d reached the output worker as another value", k);
    CHECK(it->stage == 1 || it->in_calls == 1, "invented-item", "item %d reached the output stage before the input worker saw it", k);
    CHECK(++it->out_calls == 1, "duplicate", "item %d was passed to the output worker twice", k);
    it->out_worker = me; it->out_lo = last_ret[me]; it->out_hi = t;
    dwell(); if (it->feeds && it->stage && !I[it->feeds].inserted) { insert(it->feeds); probe("inserted-by-worker"); }
    last_ret[me] = ++tick;
    return it->plan_out == 0 ? NULL : it->plan_out == 1 ? data : (void *)&tok_fin[k];
}
static void cb_fin(void *d, void *data) {
    alive("the finalize callback"); chk_init(d);
    int k = (const char *)data >= tok_fin && (const char *)data < tok_fin + MAXI ? (int)((const char *)data - tok_fin) : idx_mid(data);
    CHECK(k >= 0 && k < ni, "invented-item", "finalize was given a value nobody returned");
    item *it = &I[k];
    CHECK(it->plan_out && data == (it->plan_out == 1 ? mid_of(k) : (void *)&tok_fin[k]), "altered", "item %d reached finalize as another value", k);
    CHECK(it->out_calls == 1 && it->out_worker == fiber_self(), "invented-item", "item %d was finalized without its output worker", k);
    CHECK(++it->fin_calls == 1, "duplicate", "item %d was finalized twice", k);
    dwell();
    last_ret[fiber_self()] = ++tick;
}

/* --- clients --- */
static struct { int first, n, stage; } prod[4]; static int nprod;
static int inserting;
static void insert(int k) {
    item *it = &I[k];
    int me = fiber_self(), wf = fault_fired_by(F_WRITE_EIO, me), af = fault_fired_by(F_ALLOC, me);
    it->ib = ++tick; inserting++;
    ev("insert item %ld (stage %ld)", k, it->stage, 0);
    it->ret = it->stage ? zt_threadpool_insert_oput(tp, &tok_mid[k]) : zt_threadpool_insert_iput(tp, given(k));
    it->ie = ++tick; it->inserted = 1; inserting--;
    if (!kill_begun) it->before_kill = 1;
    wf = fault_fired_by(F_WRITE_EIO, me) - wf; af = fault_fired_by(F_ALLOC, me) - af;
    if (wf) { CHECK(it->ret != 0, "failure-not-reported", "an insertion whose notification was refused reported success"); probe("insert-notification-failure"); }
    else if (!af) CHECK(it->ret == 0, "failure-invented", "an insertion reported failure although nothing it needed was refused");
    ev("inserted item %ld -> %ld", k, it->ret, 0);
}
static void *producer(void *a) {
    long p = (long)a;
    for (int i = 0; i < prod[p].n; i++) { insert(prod[p].first + i); if (ch_p("pause", 1, 4)) sim_idle((int)ch("pause-len", 6)); }
    return NULL;
}
/* getter: records the interval of each call */
static int stop_cons; static int ncons; static int cons_active;
static int got_null, taken_total;
static int completed_out(void) { /* items certainly available in the output stage since before now */
    int n = 0;
    for (int k = 0; k < ni; k++) if (I[k].stage == 1 && I[k].inserted && I[k].ret == 0) n++;
    return n;
}
static int get_one(void) {
    int me = fiber_self();
    int w0 = fiber_waits(me, WK_COND), s0 = fiber_waits(me, WK_SLEEP), io0 = fiber_waits(me, WK_IO);
    int sure = ncons == 1 ? completed_out() : 0;
    int mine = taken_total;
    long lo = ++tick;
    void *v = zt_threadpool_get_oput(tp);
    long hi = ++tick;
    CHECK(fiber_waits(me, WK_COND) == w0 && fiber_waits(me, WK_SLEEP) == s0 && fiber_waits(me, WK_IO) == io0, "getter-blocked", "the output getter waited");
    if (!v) {
        got_null++;
        if (ncons == 1) { int from_direct = 0; for (int k = 0; k < ni; k++) from_direct += I[k].stage == 1 && I[k].got; CHECK(sure <= from_direct, "getter-missed", "the output getter returned nothing although %d items were completely inserted and %d taken", sure, from_direct); }
        (void)mine;
        return 0;
    }
    int k = idx_mid(v); item *it = &I[k];
    CHECK(k >= 0 && k < ni, "invented-item", "the getter handed out a value nobody inserted");
    CHECK(v == mid_of(k), "altered", "item %d was handed out as another value", k);
    CHECK(it->stage == 1 || it->in_calls == 1, "invented-item", "item %d handed out before the input worker saw it", k);
    CHECK(++it->got == 1, "duplicate", "item %d was handed out twice", k);
    CHECK(it->out_calls == 0, "duplicate", "item %d went both to the output worker and the getter", k);
    it->out_lo = lo; it->out_hi = hi; it->out_worker = 1000 + me;
    taken_total++;
    ev("getter T%ld takes item %ld", me, k, 0);
    return 1;
}
static void drain(void) { while (get_one()) {} }
static void *consumer(void *a) {
    while (!stop_cons) { if (!get_one()) sim_idle(1 + (int)ch("poll", 5)); }
    cons_active--;
    return NULL;
}
static int cons_done(void *a) { return cons_active == 0; }
static int prods_left;
static void *producer_main(void *a) { producer(a); prods_left--; return NULL; }
static int prods_done(void *a) { return prods_left == 0; }
static int first_worker;
static int idle(void *a) {       /* every pool thread waits for work (or is gone) */
    for (int i = 0; i < fiber_count(); i++) if (!fiber_is_harness(i) && !fiber_done(i) && fiber_wait_kind(i) != WK_COND) return 0;
    return 1;
}
static int quiet(void *a) { return prods_left == 0 && idle(NULL); }

static void *stale_init(void *a) { sim_fail("stale-callback", "a callback runs after the callbacks were reset"); }
static void *stale_w(void *a, void *b) { sim_fail("stale-callback", "a callback runs after the callbacks were reset"); }
static void stale_f(void *a, void *b) { sim_fail("stale-callback", "a callback runs after the callbacks were reset"); }
static void setup(void) {
    struct zt_threadpool_callbacks cb; memset(&cb, 0, sizeof cb);
    big = sim_large();
    nt = 1 + (int)ch("workers", mode == M_C02 ? 2 : big ? 20 : 4);
    oput_on = !ch_p("no-output-loop", 1, mode == M_C02 ? 2 : 3);
    have_ow = !ch_p("no-output-worker", 1, 8); have_fin = !ch_p("no-finalize", 1, 6); have_init = ch_p("init-callback", 1, 2);
    work_yield = ch_p("slow-workers", 1, 2);
    zt_threads_use_pthreads();
    if (ch_p("stale-callbacks", 1, 8)) { struct zt_threadpool_callbacks st = { NULL, NULL, stale_init, stale_w, stale_w, stale_f }; zt_threadpool_set_callbacks(&st); }
    zt_threadpool_set_callbacks(NULL);
    cb.iput_worker = cb_in; if (have_ow) cb.oput_worker = cb_out; if (have_fin) cb.finalize = cb_fin; if (have_init) cb.init = cb_init;
    CHECK(zt_threadpool_set_callbacks(&cb) == 0, "setup", "setting callbacks failed");
    CB = cb;
    if (!oput_on) zt_threadpool_disable_oput_loop();
    sim_desc("workers=%d output-loop=%d output-worker=%d finalize=%d init=%d ", nt, oput_on, have_ow, have_fin, have_init);
}
static void env_faults(void) {
    if (ch_p("spurious-on", 1, 2)) fault_set(F_SPURIOUS, 1, 40, -1);
    if (ch_p("stall-on", 1, 2)) fault_set(F_STALL, 1, 60, -1);
}
static void plan_items(int maxp, int maxn) {
    int n0 = ni; nprod = 1 + (int)ch("producers", (uint32_t)maxp);
    for (int p = 0; p < nprod; p++) {
        prod[p].first = ni; prod[p].n = (int)ch("items", (uint32_t)maxn * (big ? 40 : 1) + 1); prod[p].stage = ch_p("direct-output", 1, 5);
        for (int i = 0; i < prod[p].n; i++) {
            memset(&I[ni], 0, sizeof I[ni]);
            I[ni].stage = prod[p].stage; I[ni].plan_in = (int)ch("input-result", 3); I[ni].plan_out = (int)ch("output-result", 3);
            ni++;
        }
    }
    if (null_item < 0 && ni > n0 && ch_p("null-item", 1, 10)) { null_item = n0 + (int)ch("which-null", (uint32_t)(ni - n0)); if (I[null_item].stage) null_item = -1; else probe("null-item"); }
    if (ni > n0 && ch_p("workers-insert", 1, 5)) {   /* a worker inserts an item when it is called with another; never from the output stage into the input stage */
        int n = 1 + (int)ch("fed-items", 5); for (; n && ni < MAXI; n--) { int p = n0 + (int)ch("fed-by", (uint32_t)(ni - n0)); if (I[p].feeds) continue; memset(&I[ni], 0, sizeof I[ni]); I[ni].fed = 1; I[ni].stage = I[p].stage || ch_p("fed-output", 1, 3); I[ni].plan_in = (int)ch("input-result", 3); I[ni].plan_out = (int)ch("output-result", 3); I[p].feeds = ni++; }
    }
    sim_desc("producers=%d items=%d ", nprod, ni);
    if (ni >= 3) sim_nontrivial();
}
static void start_pool(void) {
    first_worker = fiber_count();
    CHECK(zt_threadpool_start(tp) == 0, "setup", "start failed");
}
static void start_prods(void) { prods_left = nprod; for (int p = 0; p < nprod; p++) fiber_spawn(producer_main, (void *)(long)p, "producer"); }
static void *reader(void *a);

static void check_delivery(int k, const char *when) {
    item *it = &I[k];
    if (!it->inserted || it->ret != 0) return;     /* an item that was not accepted may have been queued or not */
    if (it->stage == 0) CHECK(it->in_calls == 1, "lost-item", "item %d was never passed to the input worker (%s)", k, when);
    if (mid_of(k)) {
        if (oput_on) {
            if (have_ow) {
                CHECK(it->out_calls == 1, "lost-item", "item %d was never passed to the output worker (%s)", k, when);
                if (have_fin && it->plan_out) CHECK(it->fin_calls == 1, "lost-item", "item %d was never finalized (%s)", k, when);
            }
        } else CHECK(it->got == 1, "lost-item", "item %d was never handed out (%s)", k, when);
    }
    if (!(have_fin && oput_on && have_ow && it->plan_out && mid_of(k))) CHECK(it->fin_calls == 0, "invented-item", "item %d finalized although nothing was returned", k);
}

/* ---------------- C01 ---------------- */
static void c01(void) {
    mode = M_C01; setup(); plan_items(3, 6); env_faults();
    sim_step_limit(6000000, "stuck"); sim_deadlock_kind("stuck");
    int trouble = (int)ch("trouble", 4);    /* 2: no memory now and then, 3: notifications are refused now and then */
    pipes_i = trouble == 3 ? (int)ch("input-pipe", 2) : 0; pipes_o = trouble == 3 ? (int)ch("output-pipe", 2) : 0;
    tp = zt_threadpool_init(nt, nt + (int)ch("max", 3), pipes_i, pipes_o);
    CHECK(tp, "setup", "init failed");
    start_pool();
    sim_block_until(idle, NULL);
    size_t live0 = heap_live();
    if (!oput_on) { ncons = 1 + (int)ch("consumers", 2); cons_active = ncons; for (int i = 0; i < ncons; i++) fiber_spawn(consumer, NULL, "consumer"); }
    start_prods();
    if (trouble == 2) { fault_set(F_ALLOC, 1, 2 + ch("alloc-rate", 6), -1); sim_desc("memory runs out "); } else if (trouble == 3) { fault_set(F_WRITE_EIO, 1, 1 + ch("write-rate", 5), -1); sim_desc("notifications are refused "); }
    if (ch_p("busy-shutdown", 1, 4)) {     /* the items are still on their way when the pool is shut down */
        sim_desc("busy-shutdown ");
        if (ch_p("all-inserted", 3, 4)) sim_block_until(prods_done, NULL); else sim_idle((int)ch("kill-delay", 40));
        int all = prods_left == 0;
        kill_begun = 1;
        zt_threadpool_kill(tp);
        if (!oput_on) { stop_cons = 1; sim_block_until(cons_done, NULL); ncons = 0; drain(); }
        for (int k = 0; k < ni; k++) if (I[k].before_kill) check_delivery(k, "the pool was shut down");
        if (all && heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zu allocations before the items, %zu after all were handled", live0, heap_live()); }
        sim_block_until(prods_done, NULL);
        probe("busy-shutdown");
        return;
    }
    sim_block_until(quiet, NULL);
    if (!oput_on) { stop_cons = 1; sim_block_until(cons_done, NULL); ncons = 0; drain(); }
    for (int k = 0; k < ni; k++) check_delivery(k, "all threads are idle");
    if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zu allocations before the items, %zu after all were handled", live0, heap_live()); }
    probe("quiescent"); if (fault_fired(F_ALLOC)) probe("out-of-memory"); if (fault_fired(F_WRITE_EIO)) probe("notification-failure");
    if (ch_p("second-wave", 1, 3)) {       /* empty -> busy -> empty -> busy */
        int from = ni; plan_items(2, 3); for (int k = from; k < ni; k++) I[k].stage = 0;
        for (int k = from; k < ni; k++) if (!I[k].fed) insert(k);
        sim_block_until(quiet, NULL);
        if (!oput_on) drain();
        for (int k = from; k < ni; k++) check_delivery(k, "second wave, all threads idle");
        probe("second-wave");
    }
    kill_begun = 1;
    zt_threadpool_kill(tp);
    for (int k = 0; k < ni; k++) check_delivery(k, "after shutdown");
}
SCN(C01, c01, "at least three items are inserted while the workers run", "zt_threads.c, zt_threads_pthreads.c (all pool code)", "pthread mutex/cond/create/join/exit, malloc, clock, scheduler")

/* ---------------- C02 ---------------- */
static void check_order(void) {
    for (int a = 0; a < ni; a++) for (int b = 0; b < ni; b++) {
        if (a == b) continue;
        item *x = &I[a], *y = &I[b];
        /* input stage */
        if (x->stage == 0 && y->stage == 0 && x->inserted && y->inserted && x->ie < y->ib && y->in_calls) {
            CHECK(x->in_calls, "order", "item %d left the input stage but the earlier item %d never did", b, a);
            CHECK(!(y->in_hi < x->in_lo), "order", "item %d was accepted before item %d but taken out of the input stage after it", a, b);
            if (nt == 1) CHECK(x->in_hi < y->in_hi, "order", "the single input worker got item %d before the earlier item %d", b, a);
            probe("ordered-pair-input");
        }
        /* output stage: insertion interval of a worker's result lies between the callback's return and ... unknown end;
         * for one worker it ends before that worker's next callback begins */
        long xi = x->stage ? x->ie : 0, yi = y->stage ? y->ib : 0;
        if (!mid_of(a) || !mid_of(b)) continue;
        if (x->stage == 0) { if (x->in_calls && y->stage == 0 && y->in_calls && x->in_worker == y->in_worker && x->in_ret < y->in_hi) { xi = 1; yi = 2; } else continue; }
        else if (y->stage == 0) { if (y->in_calls) { yi = y->in_ret; if (!(x->inserted && x->ie < yi)) continue; } else continue; }
        else if (!x->inserted || !y->inserted) continue;
        if (xi && yi && xi < yi && y->out_hi) {
            CHECK(x->out_hi, "order", "item %d left the output stage but the earlier item %d never did", b, a);
            CHECK(!(y->out_hi < x->out_lo), "order", "item %d was accepted before item %d but taken out of the output stage after it", a, b);
            if (oput_on ? nt == 1 : ncons == 1) CHECK(x->out_hi < y->out_hi, "order", "the single consumer of the output stage got item %d before the earlier item %d", b, a);
            probe("ordered-pair-output");
        }
    }
}
static void c02(void) {
    mode = M_C02; setup(); plan_items(3, 6); env_faults();
    sim_step_limit(6000000, "stuck"); sim_deadlock_kind("stuck");
    tp = zt_threadpool_init(nt, nt, 0, 0); CHECK(tp, "setup", "init failed");
    int late_start = ch_p("insert-before-start", 1, 4);
    if (!late_start) start_pool();
    if (!oput_on) {
        ncons = 1;
        CHECK(get_one() == 0, "getter-not-empty", "the getter handed something out of an empty stage");
        ncons = 1 + (int)ch_p("two-consumers", 1, 3);
        cons_active = ncons; for (int i = 0; i < ncons; i++) fiber_spawn(consumer, NULL, "consumer");
    }
    start_prods();
    if (late_start) { sim_block_until(prods_done, NULL); start_pool(); }
    int busy = ch_p("busy-shutdown", 1, 3);
    if (busy) { sim_block_until(prods_done, NULL); kill_begun = 1; zt_threadpool_kill(tp); probe("busy-shutdown"); }
    else sim_block_until(quiet, NULL);
    int nc = ncons;
    if (!oput_on) {
        stop_cons = 1; sim_block_until(cons_done, NULL); ncons = 0; drain(); ncons = nc;
        /* rule only about one consumer: the draining main thread is a second one that starts after the first ended: order still total */
        if (got_null) probe("getter-empty");
    }
    check_order();
    if (!busy) { kill_begun = 1; zt_threadpool_kill(tp); }
}
SCN(C02, c02, "at least three items are inserted while the workers run", "zt_threads.c, zt_threads_pthreads.c (all pool code)", "pthread mutex/cond/create/join/exit, malloc, clock, scheduler")

/* ---------------- C03 ---------------- */
/* a second pool with other loops is made while the first one runs: the loops in force are no longer the ones the first was started with */
static void other_pool(void) {
    if (oput_on) { int d = (int)ch("which-loops", 3); if (d != 1) zt_threadpool_disable_oput_loop(); if (d != 0) zt_threadpool_disable_iput_loop(); }
    else { sim_block_until(quiet, NULL); zt_threadpool_set_callbacks(NULL); CHECK(zt_threadpool_set_callbacks(&CB) == 0, "setup", "setting callbacks failed"); }
    tp2 = zt_threadpool_init(1 + (int)ch("workers-2", 3), 4, (int)ch("pipe-2", 2), 0); CHECK(tp2, "setup", "init failed");
    if (ch_p("start-2", 2, 3)) CHECK(zt_threadpool_start(tp2) == 0, "setup", "start failed");
    probe("second-pool");
}
static void kill_other(void) {
    int n = fiber_count(), live = 0; for (int i = 0; i < n; i++) live += !fiber_is_harness(i) && !fiber_done(i);
    CHECK(zt_threadpool_kill(tp2) == 0, "failure-invented", "shutting the second pool down reports failure"); (void)live;
}
static void c03(void) {
    mode = M_C03; setup(); plan_items(3, 5); env_faults();
    pipes_i = ch_p("input-pipe", 1, 4); pipes_o = ch_p("output-pipe", 1, 4);
    sim_step_limit(6000000, "shutdown-hang"); sim_deadlock_kind("shutdown-hang");
    tp = zt_threadpool_init(nt, nt, pipes_i, pipes_o); CHECK(tp, "setup", "init failed");
    if (ch_p("insert-before-start", 1, 6)) { for (int k = 0; k < prod[0].n; k++) insert(prod[0].first + k); prod[0].n = 0; }
    start_pool();
    int nw0 = first_worker, nw1 = fiber_count();
    int when = (int)ch("kill-when", 4);   /* 0 right away, 1 producers done, 2 all idle, 3 while producers run */
    sim_desc("kill=%s ", when == 0 ? "at once" : when == 1 ? "after insertion" : when == 2 ? "idle" : "during insertion");
    if (when == 0) nprod = 0;
    start_prods();
    if (when == 1) sim_block_until(prods_done, NULL);
    else if (when == 2) sim_block_until(quiet, NULL);
    else if (when == 3) sim_idle((int)ch("kill-delay", 40));
    int second = ch_p("second-pool", 1, 5), second_first = 0;
    if (second) { other_pool(); if (ch("second-first", 2)) { second_first = 1; kill_other(); } }
    kill_begun = 1; ev("shutdown begins", 0, 0, 0);
    zt_threadpool_kill(tp);
    killed_returned = !second || second_first; ev("shutdown returned", 0, 0, 0);
    if (inserting || prods_left) probe("kill-during-insertion");
    for (int i = nw0; i < nw1; i++) if (!fiber_is_harness(i)) CHECK(fiber_done(i), "worker-survives", "worker T%d has not ended when the shutdown call returns", i);
    if (!oput_on) { ncons = 0; drain(); }
    for (int k = 0; k < ni; k++) if (I[k].before_kill) check_delivery(k, "shutdown returned");
    sim_block_until(prods_done, NULL);
    if (second && !second_first) kill_other();
    killed_returned = 1; for (int i = 0; i < fiber_count(); i++) if (!fiber_is_harness(i)) CHECK(fiber_done(i), "worker-survives", "worker T%d has not ended when all pools are shut down", i);
    sim_idle(20);
    for (int k = 0; k < ni; k++) if (I[k].before_kill) { check_delivery(k, "after shutdown"); }
    if (when == 1) probe("kill-with-work-left");
}
SCN(C03, c03, "at least three items planned", "zt_threads.c, zt_threads_pthreads.c (all pool code)", "pthread mutex/cond/create/join/exit, pipes, malloc, clock, scheduler")

/* ---------------- C04 ---------------- */
static long read_i, read_o; static int rd_stop, rd_active, byte_getter;
static void *reader(void *a) {
    for (;;) {
        int stop = rd_stop;
        if (pipes_i) { char b[8]; long n = fd_pipe_read(zt_threadpool_iput_fd_reader(tp), b, 1 + ch("drain", 8)); if (n > 0) read_i += n; }
        if (pipes_o && !byte_getter) { char b[8]; long n = fd_pipe_read(zt_threadpool_oput_fd_reader(tp), b, 1 + ch("drain", 8)); if (n > 0) read_o += n; }
        if (pipes_o && byte_getter) {
            char b[8]; long n = fd_pipe_read(zt_threadpool_oput_fd_reader(tp), b, 1);
            if (n > 0) { read_o += n; if (!kill_begun) { CHECK(get_one(), "byte-without-item", "the output pipe signalled an item but the getter has none"); probe("item-fetched-per-byte"); } else get_one(); }
        }
        if (stop) break;
        sim_idle(1 + (int)ch("reader-poll", 6));
    }
    rd_active--;
    return NULL;
}
static int rd_done(void *a) { return rd_active == 0; }
/* a process without some of its standard descriptors: a pipe of the pool may get their numbers */
static int std_open[3];
static void std_close(void) {
    int some = ch_p("std-closed", 1, 5);
    for (int i = 0; i < 3; i++) { std_open[i] = !(some && ch("close-std", 2)); if (!std_open[i]) { sim_close(i); probe("standard-descriptor-closed"); } }
}
static void c04_construct(void) {
    std_close(); for (int i = 0; i < 3; i++) if (std_open[i]) fd_guard(i);
    if (ch_p("extra-fds", 1, 2)) for (int i = 3; i < 3 + (int)ch("nfd", 4); i++) { fd_install(i, "/tmp/mine"); fd_guard(i); }
    pipes_i = (int)ch("input-pipe", 2); pipes_o = (int)ch("output-pipe", 2);
    size_t l0 = heap_live(); int f0 = fd_open_count();
    int which = (int)ch("fault-kind", 4);
    enum fault k = which == 0 ? F_PIPE : which == 1 ? F_ALLOC : which == 2 ? F_MUTEX_INIT : F_COND_INIT;
    fault_set(k, 1, 1 + ch("fault-rate", 6), 1);
    if (ch_p("few-descriptors", 1, 6)) fd_set_limit((uint64_t)(f0 + (int)ch("slots", 4)));
    int slots = fd_free_slots();
    sim_desc("construct pipes=%d%d fault=%s slots=%d ", pipes_i, pipes_o, fault_name[k], slots);
    tp = zt_threadpool_init(nt, nt, pipes_i, pipes_o);
    int failed = fault_fired(k) || slots < 2 * (pipes_i + pipes_o);
    fault_off();
    CHECK(fd_foreign_closed() == 0, "foreign-close", "construction closed a descriptor the pool did not open");
    for (int i = 0; i < 3; i++) if (std_open[i]) CHECK(fd_is_open(i), "foreign-close", "construction closed descriptor %d", i);
    if (failed) {
        sim_nontrivial(); probe("construction-failure");
        CHECK(tp == NULL, "constructed-without-resource", "a resource could not be obtained (%s) but construction returned a pool", fault_name[k]);
        CHECK(fd_open_count() == f0, "fd-leak", "failed construction leaves %d descriptors open", fd_open_count() - f0);
        CHECK(heap_live() == l0, "leak", "failed construction leaves %ld blocks allocated", (long)(heap_live() - l0));
        sim_finish();
    }
    CHECK(tp, "construct-failed", "construction failed although every resource was available");
    CHECK(fd_open_count() == f0 + 2 * (pipes_i + pipes_o), "fd-count", "a pool with pipes %d,%d holds %d descriptors", pipes_i, pipes_o, fd_open_count() - f0);
}
/* some worker threads cannot be started: that is reported, the others work, and the shutdown ends and joins exactly those */
static void c04_start(void) {
    plan_items(3, 6); pipes_i = ch_p("input-pipe", 1, 3); pipes_o = ch_p("output-pipe", 1, 3);
    sim_step_limit(6000000, "shutdown-hang"); sim_deadlock_kind("shutdown-hang");
    tp = zt_threadpool_init(nt, nt, pipes_i, pipes_o); CHECK(tp, "setup", "init failed");
    for (int p = 0; p < nprod; p++) prod[p].stage = 0;
    for (int k = 0; k < ni; k++) I[k].stage = 0;
    int start = !ch_p("never-started", 1, 6), f0 = fiber_count(), want = nt * (1 + oput_on), r = 0, kd = (int)ch("fault-kind", 3);
    if (start) {
        if (kd == 1) fault_set(F_THREAD_CREATE, 1, 1 + ch("create-rate", 5), -1); else if (kd == 2) fault_set(F_ALLOC, 1, 2 + ch("alloc-rate", 5), 1);
        r = zt_threadpool_start(tp); fault_set(F_THREAD_CREATE, 0, 1, 0); fault_set(F_ALLOC, 0, 1, 0);
    }
    int got = fiber_count() - f0, refused = start && fault_fired(F_THREAD_CREATE) + fault_fired(F_ALLOC) > 0;
    if (start) {
        if (refused) { CHECK(r != 0, "failure-not-reported", "a worker could not be started but starting the pool reported success"); probe("start-failure"); sim_nontrivial(); }
        else CHECK(r == 0 && got == want, "failure-invented", "starting the pool returned %d with %d of %d workers", r, got, want);
    } else probe("never-started");
    if (r) { /* what runs depends on how the pool deals with it; whatever was given to it is not lost if a worker of each stage runs, which the init callbacks cannot tell apart: only the shutdown is judged */
        if (ch_p("insert-anyway", 1, 2)) for (int k = 0; k < ni; k++) if (!I[k].fed) insert(k);
    } else if (start) { start_prods(); sim_block_until(prods_done, NULL); }
    kill_begun = 1;
    zt_threadpool_kill(tp);
    killed_returned = 1;
    for (int i = f0; i < fiber_count(); i++) if (!fiber_is_harness(i)) CHECK(fiber_done(i), "worker-survives", "worker T%d has not ended when the shutdown call returns", i);
    if (!r && start) { if (!oput_on) drain(); for (int k = 0; k < ni; k++) check_delivery(k, "after shutdown"); }
    sim_idle(10);
}
static void c04(void) {
    mode = M_C04; setup();
    int kind = (int)ch("part", 4);
    if (kind == 0) { c04_construct(); sim_finish(); }
    if (kind == 3) { c04_start(); sim_finish(); }
    plan_items(3, 6); env_faults(); std_close();
    pipes_i = !ch_p("no-input-pipe", 1, 4); pipes_o = !ch_p("no-output-pipe", 1, 4);
    if (ch_p("small-pipe", 1, 3)) pipe_set_cap(1 + (int)ch("pipe-cap", 3));
    sim_step_limit(6000000, "stuck"); sim_deadlock_kind("stuck");
    tp = zt_threadpool_init(nt, nt, pipes_i, pipes_o); CHECK(tp, "setup", "init failed");
    CHECK((zt_threadpool_iput_fd_reader(tp) >= 0) == pipes_i && (zt_threadpool_iput_fd_writer(tp) >= 0) == pipes_i, "pipe-config", "input pipe descriptors do not match the configuration");
    CHECK((zt_threadpool_oput_fd_reader(tp) >= 0) == pipes_o && (zt_threadpool_oput_fd_writer(tp) >= 0) == pipes_o, "pipe-config", "output pipe descriptors do not match the configuration");
    start_pool();
    int wf = kind == 2;
    enum fault wk = F_WRITE_EIO;
    if (wf) { fault_set(wk, 1, 6, -1); sim_desc("write faults "); }
    int af = 0;
    if (!oput_on && pipes_o && !wf) byte_getter = 1;
    ncons = byte_getter ? 1 : 0;
    rd_active = 1; fiber_spawn(reader, NULL, "pipe-reader");
    start_prods();
    sim_block_until(quiet, NULL);
    if (!wf && ch_p("alloc-fault-insert", 1, 4)) {  /* an insertion that cannot allocate reports failure and makes no byte */
        int k = ni; memset(&I[k], 0, sizeof I[k]); ni++; I[k].stage = (int)ch("stage", 2);
        fault_set(F_ALLOC, 1, 1, 1);
        int at = fault_fired(F_ALLOC);
        insert(k);
        fault_set(F_ALLOC, 0, 1, 0);
        if (fault_fired(F_ALLOC) > at) { CHECK(I[k].ret != 0, "failure-not-reported", "an insertion that could not allocate reported success"); probe("insert-alloc-failure"); af = 1; sim_block_until(quiet, NULL); }
    }
    int faults_before_kill = fault_fired(wk);
    long ok_i = 0, ok_o = 0, mids = 0, bad_i = 0, bad_o = 0;
    for (int k = 0; k < ni; k++) {
        if (!I[k].inserted) continue;
        if (I[k].stage == 0) { if (I[k].ret == 0) ok_i++; else bad_i++; if (I[k].in_calls && mid_of(k)) mids++; }
        else { if (I[k].ret == 0) ok_o++; else bad_o++; }
    }
    if (!wf && !af) CHECK(bad_i + bad_o == 0, "failure-invented", "an insertion reported failure although nothing failed");
    long wkill = fault_fired(wk);
    kill_begun = 1;
    int kr = zt_threadpool_kill(tp);
    wkill = fault_fired(wk) - wkill;
    rd_stop = 1; sim_block_until(rd_done, NULL);
    char b[64]; long n;
    if (pipes_i) while ((n = fd_pipe_read(zt_threadpool_iput_fd_reader(tp), b, 64)) > 0) read_i += n;
    if (pipes_o) while ((n = fd_pipe_read(zt_threadpool_oput_fd_reader(tp), b, 64)) > 0) read_o += n;
    int worker_faults = faults_before_kill - (int)(pipes_i ? bad_i : 0) - (int)(pipes_o ? bad_o : 0);
    if (!wf) {
        if (pipes_i) CHECK(read_i == ok_i + 1, "byte-count", "%ld bytes on the input pipe for %ld accepted items and the shutdown", read_i, ok_i);
        if (pipes_o) CHECK(read_o == ok_o + mids + 1, "byte-count", "%ld bytes on the output pipe for %ld accepted items and the shutdown", read_o, ok_o + mids);
    } else {
        if (pipes_i) CHECK(read_i <= ok_i + 1 && read_i >= ok_i + 1 - wkill, "byte-count", "%ld bytes on the input pipe for %ld successful insertions, %ld failed ones and the shutdown (%ld failed shutdown writes)", read_i, ok_i, bad_i, wkill);
        if (pipes_o) CHECK(read_o <= ok_o + mids + 1 && read_o >= ok_o + mids + 1 - wkill - worker_faults, "byte-count", "%ld bytes on the output pipe: %ld successful direct insertions, %ld worker results, %d failed worker writes, %ld failed shutdown writes", read_o, ok_o, mids, worker_faults, wkill);
        if (bad_i + bad_o) probe("notification-failure");
        /* every write that was not refused left its byte, whatever happened to the others */
        long tried = (pipes_i ? ok_i + bad_i + 1 : 0) + (pipes_o ? ok_o + bad_o + mids + 1 : 0), got = (pipes_i ? read_i : 0) + (pipes_o ? read_o : 0);
        CHECK(got == tried - fault_fired(wk), "byte-count", "%ld bytes on the pipes for %ld notifications of which %d were refused", got, tried, fault_fired(wk));
        if (wkill && !mids) { probe("shutdown-notification-failure"); CHECK(kr != 0, "failure-not-reported", "a shutdown whose notification was refused reports success"); }
        if (!wkill) CHECK(kr == 0, "failure-invented", "a shutdown reports failure although every notification was written");
    }
    CHECK(fd_foreign_closed() == 0, "foreign-close", "the pool closed a descriptor it did not open");
}
SCN(C04, c04, "three or more items with pipes, or a failing construction", "zt_threads.c, zt_threads_pthreads.c (all pool code)", "pipes and descriptors, pthread primitives, malloc, clock, scheduler")
