/* C36: the threading layer's back ends and the pool's callbacks are what the program installed, whatever
 * the history of installing, refusing, removing and restoring them */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <zt.h>
#include <libzt/zt_threads.h>

enum { A_LALLOC, A_LFREE, A_LOCK, A_UNLOCK, A_CALLOC, A_CFREE, A_SIGNAL, A_WAIT, A_START, A_END, A_KILL, A_ID, A_JOIN, A_DETACH, NA };
static const char *const an[] = { "lock creation", "lock release", "lock", "unlock", "condition creation", "condition release", "signal", "wait", "start", "end", "kill", "id", "join", "detach" };
#define NB 3
/* the call a client has under way, and what the back end saw of it */
static struct { int hits, be, api; long a[4], ret; } C[64];
static struct zt_threads_lock_callbacks base_l; static struct zt_threads_cond_callbacks base_c; static struct zt_threads_cntrl_callbacks base_t; static int real; static long seen[NB][NA];
static long rec(int be, int api, long a, long b, long c, long d) {
    int me = fiber_self() & 63; C[me].hits++; C[me].be = be; C[me].api = api; C[me].a[0] = a; C[me].a[1] = b; C[me].a[2] = c; C[me].a[3] = d;
    int n = (int)ch("dwell", 3); while (n-- > 0) sim_yield();
    return C[me].ret;
}
#define L(x) ((long)(x))
#define BE(n) \
static zt_threads_mutex *la##n(int t) { seen[n][A_LALLOC]++; return real ? base_l.alloc(t) : (void *)rec(n, A_LALLOC, t, 0, 0, 0); } \
static void lf##n(zt_threads_mutex *l, int t) { seen[n][A_LFREE]++; if (real) base_l.free(l, t); else rec(n, A_LFREE, L(l), t, 0, 0); } \
static int lo##n(int m, zt_threads_mutex *l) { seen[n][A_LOCK]++; return real ? base_l.lock(m, l) : (int)rec(n, A_LOCK, m, L(l), 0, 0); } \
static int un##n(int m, zt_threads_mutex *l) { seen[n][A_UNLOCK]++; return real ? base_l.unlock(m, l) : (int)rec(n, A_UNLOCK, m, L(l), 0, 0); } \
static zt_threads_cond *ca##n(int t) { seen[n][A_CALLOC]++; return real ? base_c.alloc(t) : (void *)rec(n, A_CALLOC, t, 0, 0, 0); } \
static void cf##n(zt_threads_cond *c) { seen[n][A_CFREE]++; if (real) base_c.free(c); else rec(n, A_CFREE, L(c), 0, 0, 0); } \
static int cs##n(zt_threads_cond *c, int b) { seen[n][A_SIGNAL]++; return real ? base_c.signal(c, b) : (int)rec(n, A_SIGNAL, L(c), b, 0, 0); } \
static int cw##n(zt_threads_cond *c, zt_threads_mutex *l, struct timeval *t) { seen[n][A_WAIT]++; return real ? base_c.wait(c, l, t) : (int)rec(n, A_WAIT, L(c), L(l), L(t), 0); } \
static int ts##n(zt_threads_thread *t, zt_threads_attr *a, void *(*f)(void *), void *x) { seen[n][A_START]++; return real ? base_t.start(t, a, f, x) : (int)rec(n, A_START, L(t), L(a), L(f), L(x)); } \
static void te##n(void *x) { seen[n][A_END]++; if (real) base_t.end(x); else rec(n, A_END, L(x), 0, 0, 0); } \
static int tk##n(zt_threads_thread *t) { seen[n][A_KILL]++; return real ? base_t.kill(t) : (int)rec(n, A_KILL, L(t), 0, 0, 0); } \
static unsigned long ti##n(void) { seen[n][A_ID]++; return real ? base_t.id() : (unsigned long)rec(n, A_ID, 0, 0, 0, 0); } \
static int tj##n(zt_threads_thread *t, void **d) { seen[n][A_JOIN]++; return real ? base_t.join(t, d) : (int)rec(n, A_JOIN, L(t), L(d), 0, 0); } \
static int td##n(zt_threads_thread *t) { seen[n][A_DETACH]++; return real ? base_t.detach(t) : (int)rec(n, A_DETACH, L(t), 0, 0, 0); }
BE(0) BE(1) BE(2)
#define T(n) { { la##n, lf##n, lo##n, un##n }, { ca##n, cf##n, cs##n, cw##n }, { ts##n, te##n, tk##n, ti##n, tj##n, td##n } }
static const struct { struct zt_threads_lock_callbacks l; struct zt_threads_cond_callbacks c; struct zt_threads_cntrl_callbacks t; } BK[NB] = { T(0), T(1), T(2) };
static int in_l, in_c, in_t; static unsigned opt_t;     /* the back end in force for locks, conditions, threads: -1 none; which optional calls it has */

static void install(void) {
    int what = (int)ch("part", 3), b = (int)ch("back-end", NB + 1) - 1, r, missing = b >= 0 && ch_p("incomplete", 1, 3);
    if (what == 0) { struct zt_threads_lock_callbacks *k = sim_alloc_nf(sizeof *k), c; if (b >= 0) *k = BK[b].l; if (missing) { int m = 1 + (int)ch("missing", 15); if (m & 1) k->alloc = NULL; if (m & 2) k->free = NULL; if (m & 4) k->lock = NULL; if (m & 8) k->unlock = NULL; } c = *k; r = zt_threads_set_lock_callbacks(b < 0 ? NULL : k); CHECK(b < 0 || !memcmp(k, &c, sizeof c), "table-changed", "installing changed the caller's table"); memset(k, 0x5a, sizeof *k); sim_free(k); if (!missing) in_l = b; }
    else if (what == 1) { struct zt_threads_cond_callbacks *k = sim_alloc_nf(sizeof *k); if (b >= 0) *k = BK[b].c; if (missing) { int m = 1 + (int)ch("missing", 15); if (m & 1) k->alloc = NULL; if (m & 2) k->free = NULL; if (m & 4) k->signal = NULL; if (m & 8) k->wait = NULL; } r = zt_threads_set_cond_callbacks(b < 0 ? NULL : k); memset(k, 0x5a, sizeof *k); sim_free(k); if (!missing) in_c = b; }
    else { struct zt_threads_cntrl_callbacks *k = sim_alloc_nf(sizeof *k); unsigned o = ch("optional", 4) ? 15 : ch("which-optional", 16); if (b >= 0) *k = BK[b].t; if (!(o & 1)) k->kill = NULL; if (!(o & 2)) k->id = NULL; if (!(o & 4)) k->join = NULL; if (!(o & 8)) k->detach = NULL; if (missing) { int m = 1 + (int)ch("missing", 3); if (m & 1) k->start = NULL; if (m & 2) k->end = NULL; } r = zt_threads_set_cntrl_callbacks(b < 0 ? NULL : k); memset(k, 0x5a, sizeof *k); sim_free(k); if (!missing) { in_t = b; opt_t = o; } }
    ev("part %ld: back end %ld, incomplete %ld", what, b, missing);
    if (missing) { CHECK(r != 0, "incomplete-accepted", "an incomplete back end was accepted"); probe("incomplete-refused"); } else CHECK(r == 0, "refused", "a complete back end was refused"); if (b < 0) probe("removed");
}
static void *dummy_entry(void *a) { sim_fail("entry-run", "the threading layer itself ran an entry function"); return a; }
static void *caller(void *arg) {
    int me = fiber_self() & 63, n = 1 + (int)ch("calls", 6); static char obj[8]; struct timeval tv = { 1, 2 }; void *d;
    while (n-- > 0) {
        int api = (int)ch("api", NA), part = api <= A_UNLOCK ? in_l : api <= A_WAIT ? in_c : in_t; if (api >= A_KILL && part >= 0 && !(opt_t >> (api - A_KILL) & 1)) part = -2;
        void *x = ch("object", 3) ? &obj[ch("which", 4)] : NULL, *y = ch("object2", 3) ? &obj[4 + ch("which2", 4)] : NULL; int i = (int)ch("int", 4) - 1; struct timeval *tp = ch("timed", 2) ? &tv : NULL; long g = 0, e[4] = { 0, 0, 0, 0 };
        memset(&C[me], 0, sizeof C[me]); C[me].ret = api == A_LALLOC || api == A_CALLOC ? L(y) : (long)ch("result", 3) - 1; if (api == A_ID) C[me].ret = 0x123456789abcdefL - (long)ch("id", 3);
        switch (api) {
        case A_LALLOC: e[0] = i; g = L(zt_threads_alloc_lock(i)); break; case A_LFREE: e[0] = L(x); e[1] = i; zt_threads_free_lock(x, i); break;
        case A_LOCK: e[0] = i; e[1] = L(x); g = zt_threads_lock(i, x); break; case A_UNLOCK: e[0] = i; e[1] = L(x); g = zt_threads_unlock(i, x); break;
        case A_CALLOC: e[0] = i; g = L(zt_threads_cond_alloc(i)); break; case A_CFREE: e[0] = L(x); zt_threads_cond_free(x); break;
        case A_SIGNAL: e[0] = L(x); e[1] = i; g = zt_threads_cond_signal(x, i); break; case A_WAIT: e[0] = L(x); e[1] = L(y); e[2] = L(tp); g = zt_threads_cond_wait(x, y, tp); break;
        case A_START: e[0] = L(x); e[1] = L(y); e[2] = L(dummy_entry); e[3] = L(&tv); g = zt_threads_start(x, y, dummy_entry, &tv); break; case A_END: e[0] = L(x); zt_threads_end(x); break;
        case A_KILL: e[0] = L(x); g = zt_threads_kill(x); break; case A_ID: g = (long)zt_threads_id(); break;
        case A_JOIN: e[0] = L(x); e[1] = y ? L(&d) : 0; g = zt_threads_join(x, y ? &d : NULL); break; default: e[0] = L(x); g = zt_threads_detach(x); break; }
        if (part < 0) { CHECK(C[me].hits == 0, "not-removed", "a %s call reached back end %d although none is in force for it", an[api], C[me].be); CHECK((api != A_LALLOC && api != A_CALLOC) || !g, "invented-object", "%s without a back end returned something", an[api]); probe("call-without-back-end"); continue; }
        CHECK(C[me].hits == 1, "not-forwarded", "a %s call reached a back end %d times", an[api], C[me].hits); CHECK(C[me].be == part && C[me].api == api, "wrong-back-end", "a %s call reached the %s of back end %d, %d is in force", an[api], an[C[me].api], C[me].be, part);
        CHECK(!memcmp(C[me].a, e, sizeof e), "wrong-argument", "a %s call was passed on with other arguments", an[api]); CHECK(api == A_LFREE || api == A_CFREE || api == A_END || g == C[me].ret, "wrong-result", "a %s call returned %#lx, its back end %#lx", an[api], g, C[me].ret); probe("forwarded");
    }
    return NULL;
}
/* ---- the pool's callbacks ---- */
enum { P_ILOOP, P_OLOOP, P_INIT, P_IW, P_OW, P_FIN, NP };
static int slot[NP];        /* 0 none, 1 and 2 the program's, 3 the pool's own loop */
static int ran[NP][3]; static zt_threadpool *tp; static char initd[3], data[32]; static int nd, iwseen[32], owseen[32], finseen[32];
static void alive(int p, int v) { CHECK(slot[p] == v, "wrong-callback", "callback %d of the program runs as number %d of the pool's callbacks, %d is in force", v, p, slot[p]); ran[p][v]++; }
static void dd(void *d) { CHECK(d == (slot[P_INIT] ? (void *)&initd[slot[P_INIT]] : NULL), "wrong-argument", "a worker callback got other init data than the init callback returned"); }
static int which(void *x, const char *w) { long k = (char *)x - data; CHECK(k >= 0 && k < nd, "wrong-argument", "%s was given something else than an item", w); return (int)k; }
#define CB(v) static void *il##v(void *a) { alive(P_ILOOP, v); CHECK(a == tp, "wrong-argument", "an input loop was not given the pool"); return NULL; } static void *ol##v(void *a) { alive(P_OLOOP, v); CHECK(a == tp, "wrong-argument", "an output loop was not given the pool"); return NULL; } \
static void *ini##v(void *a) { alive(P_INIT, v); CHECK(a == tp, "wrong-argument", "an init callback was not given the pool"); return &initd[v]; } static void *iw##v(void *d, void *x) { alive(P_IW, v); dd(d); iwseen[which(x, "an input worker")]++; return x; } static void *ow##v(void *d, void *x) { alive(P_OW, v); dd(d); owseen[which(x, "an output worker")]++; return x; } static void fin##v(void *d, void *x) { alive(P_FIN, v); dd(d); finseen[which(x, "a finalize callback")]++; }
CB(1) CB(2)
static void pool_part(void) {
    int nset = (int)ch("settings", 7), n = 1 + (int)ch("pool-threads", 3), be = (int)ch("back-end", NB), left = 0; zt_threads_use_pthreads(); base_l = _zt_threads_lock_cbs; base_c = _zt_threads_cond_cbs; base_t = _zt_threads_cntrl_cbs; real = 1;
    zt_threads_set_lock_callbacks((struct zt_threads_lock_callbacks *)&BK[be].l); zt_threads_set_cond_callbacks((struct zt_threads_cond_callbacks *)&BK[be].c); zt_threads_set_cntrl_callbacks((struct zt_threads_cntrl_callbacks *)&BK[be].t); memset(seen, 0, sizeof seen);
    slot[P_ILOOP] = slot[P_OLOOP] = 3; 
    while (nset-- > 0) switch (ch("setting", 5)) {
        case 0: CHECK(zt_threadpool_set_callbacks(NULL) == 0, "refused", "restoring the defaults failed"); memset(slot, 0, sizeof slot); slot[P_ILOOP] = slot[P_OLOOP] = 3; probe("defaults-restored"); break;
        case 1: zt_threadpool_disable_iput_loop(); slot[P_ILOOP] = 0; break; case 2: zt_threadpool_disable_oput_loop(); slot[P_OLOOP] = 0; break;
        default: { struct zt_threadpool_callbacks *k = sim_alloc_nf(sizeof *k); memset(k, 0, sizeof *k); for (int p = 0; p < NP; p++) if (ch_p("set", 1, 3)) { int v = 1 + (int)ch("variant", 2); slot[p] = v; switch (p) { case P_ILOOP: k->iput_loop = v == 1 ? il1 : il2; break; case P_OLOOP: k->oput_loop = v == 1 ? ol1 : ol2; break; case P_INIT: k->init = v == 1 ? ini1 : ini2; break; case P_IW: k->iput_worker = v == 1 ? iw1 : iw2; break; case P_OW: k->oput_worker = v == 1 ? ow1 : ow2; break; default: k->finalize = v == 1 ? fin1 : fin2; } }
            CHECK(zt_threadpool_set_callbacks(k) == 0, "refused", "setting callbacks failed"); memset(k, 0x5a, sizeof *k); sim_free(k); probe("callbacks-merged"); } }
    sim_desc("pool of %d, loops %d %d, callbacks %d %d %d %d ", n, slot[P_ILOOP], slot[P_OLOOP], slot[P_INIT], slot[P_IW], slot[P_OW], slot[P_FIN]); sim_sig((uint64_t)(slot[0] + 4 * slot[1] + 16 * slot[2] + 64 * slot[3] + 256 * slot[4] + 1024 * slot[5])); sim_nontrivial();
    int pi = (int)ch("pipes", 2); tp = zt_threadpool_init(n, n, pi, 0); CHECK(tp, "setup", "no pool"); CHECK(seen[be][A_LALLOC] > 0 && seen[be][A_CALLOC] > 0, "not-forwarded", "the pool's locks and conditions did not come from the back end");
    int f0 = fiber_count(); CHECK(zt_threadpool_start(tp) == 0, "setup", "the pool did not start"); int want = (slot[P_ILOOP] ? n : 0) + (slot[P_OLOOP] ? n : 0); CHECK(seen[be][A_START] == want && fiber_count() - f0 == want, "not-forwarded", "%d threads were started through the back end, not %d", (int)seen[be][A_START], want);
    nd = slot[P_ILOOP] == 3 ? (int)ch("items", 12) : 0; for (int i = 0; i < nd; i++) { CHECK(zt_threadpool_insert_iput(tp, &data[i]) == 0, "refused", "an insertion failed"); if (ch_p("pause", 1, 4)) sim_idle((int)ch("pause-len", 4)); }
    CHECK(zt_threadpool_kill(tp) == 0, "refused", "the shutdown failed"); CHECK(seen[be][A_JOIN] == want, "not-forwarded", "%d threads were joined through the back end, not %d", (int)seen[be][A_JOIN], want);
    CHECK(seen[be][A_LOCK] == seen[be][A_UNLOCK] && seen[be][A_LOCK] > 0, "not-forwarded", "%ld locks and %ld unlocks reached the back end", seen[be][A_LOCK], seen[be][A_UNLOCK]);
    for (int b = 0; b < NB; b++) if (b != be) for (int a = 0; a < NA; a++) CHECK(!seen[b][a], "wrong-back-end", "the pool called the %s of a back end that is not in force", an[a]);
    void *x; while ((x = zt_threadpool_get_oput(tp))) { which(x, "the getter"); left++; }
    for (int p = 0; p < NP; p++) for (int v = 1; v < 3; v++) if (p <= P_OLOOP) CHECK(ran[p][v] == (slot[p] == v ? n : 0), "wrong-callback", "loop %d of the program ran %d times as the %s loop", v, ran[p][v], p ? "output" : "input"); else if (p == P_INIT) CHECK(ran[p][v] == (slot[p] == v ? n * ((slot[P_ILOOP] == 3) + (slot[P_OLOOP] == 3)) : 0), "wrong-callback", "init callback %d ran %d times", v, ran[p][v]);
    for (int i = 0; i < nd; i++) { int in = slot[P_IW] != 0, ou = in && slot[P_OLOOP] == 3 && slot[P_OW], fi = ou && slot[P_FIN]; CHECK(iwseen[i] == in && owseen[i] == ou && finseen[i] == fi, "wrong-callback", "item %d reached the input worker %d, the output worker %d and finalize %d times, not %d, %d and %d", i, iwseen[i], owseen[i], finseen[i], in, ou, fi); }
    CHECK(left == (slot[P_IW] && slot[P_OLOOP] != 3 ? nd : 0), "lost-item", "%d of %d items are left in the output queue", left, nd); probe("pool-run");
}
static void c36(void) {
    sim_step_limit(2000000, "stuck"); sim_deadlock_kind("stuck"); in_l = in_c = in_t = -1;
    if (ch("pool", 2)) { pool_part(); return; }
    int rounds = 1 + (int)ch("rounds", 5), id[3]; sim_desc("rounds=%d ", rounds); sim_nontrivial();
    while (rounds-- > 0) { int k = (int)ch("installs", 5); while (k-- > 0) install(); sim_sig((uint64_t)(in_l + 1 + 4 * (in_c + 1) + 16 * (in_t + 1))); int n = 1 + (int)ch("callers", 3); for (int i = 0; i < n; i++) id[i] = fiber_spawn(caller, NULL, "caller"); for (int i = 0; i < n; i++) fiber_join(id[i]); }
}
SCN(C36, c36, "calls are made after a history of installing back ends, or a pool runs with the program's callbacks", "zt_threads.c (dispatch and pool), zt_threads_pthreads.c", "the back ends under test are the harness's own, the pool's runs on pthread mutex/cond/create/join, malloc, scheduler")
