/* C11, C12: the collector runs in slices between the steps of a seeded mutator
 * that keeps its own picture of the object graph. */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#define ZT_WITH_GC
#include <zt.h>
#include <libzt/zt_gc.h>

#define MAXOB 3000
#define REFS 3
typedef struct obj { zt_gc_collectable_t mark; int id, magic; struct obj *ref[REFS]; } obj;
enum { UNBORN, LIVE, RELEASED, TAKEN };
static struct { obj *o; int st, prot, age, mark; obj *ref[REFS]; } O[MAXOB];
static int no, disabled, c12_mode, releases, marks, slices, events_, mps, every;
static zt_gc_t *gc;
static int reach(int upto) {
    static int stack[MAXOB * REFS]; int n = 0;
    for (int i = 0; i < upto; i++) { O[i].mark = 0; if (O[i].prot && O[i].st != TAKEN) { O[i].mark = 1; stack[n++] = i; } }
    while (n) { int i = stack[--n]; for (int k = 0; k < REFS; k++) { obj *c = O[i].ref[k]; if (c && !O[c->id].mark) { O[c->id].mark = 1; stack[n++] = c->id; } } }
    return 0;
}
static void mark_cb(zt_gc_t *g, void *pd, void *v) {
    obj *o = v; marks++;
    CHECK(g == gc && pd == (void *)O, "wrong-argument", "mark callback got another collector or private data");
    CHECK(o->magic == 0x6c6c && o->id >= 0 && o->id < no && O[o->id].o == o, "wrong-argument", "mark callback got something that is no registered object");
    CHECK(O[o->id].st == LIVE, "marks-released-object", "the collector asked to mark object %d which it %s", o->id, O[o->id].st == TAKEN ? "no longer controls" : "has released");
    for (int k = 0; k < REFS; k++) if (o->ref[k]) zt_gc_mark(g, o->ref[k]);
}
static int destroying, fin_reg; static int new_obj(void);
static void release_cb(zt_gc_t *g, void *pd, void **v) {
    obj *o = *v; releases++;
    CHECK(g == gc && pd == (void *)O, "wrong-argument", "release callback got another collector or private data");
    int id = -1; for (int i = 0; i < no; i++) if (O[i].o == o && O[i].st == LIVE) id = i;
    if (id < 0) {
        for (int i = 0; i < no; i++) if (O[i].o == o) CHECK(O[i].st != TAKEN, "released-unregistered", "object %d was taken from the collector and is released by it", i);
        sim_fail("double-release", "the collector released something that is no live object (%p)", (void *)o);
    }
    if (c12_mode) CHECK(!disabled, "released-while-disabled", "object %d is released while collection is disabled", id);
    if (!destroying && !c12_mode) {
        reach(no);
        CHECK(!O[id].prot, "protected-released", "object %d is protected and is released", id);
        CHECK(!O[id].mark, "reachable-released", "object %d is reachable from a protected object and is released", id);
    }
    O[id].st = RELEASED; for (int k = 0; k < REFS; k++) O[id].ref[k] = NULL;
    ev("release %ld", id, 0, 0);
    o->magic = 0; o->id = -1; free(o); *v = NULL;
    if (fin_reg && !destroying && no < MAXOB - 8 && ch_p("release-registers", 1, 3)) {   /* what an object leaves behind is registered while the collector releases */
        int n = new_obj(); zt_gc_prepare(gc, O[n].o); events_++; O[n].prot = 1; zt_gc_register(gc, O[n].o); if (ch("keep", 2)) O[n].prot = 0; else zt_gc_protect(gc, O[n].o); probe("registered-while-releasing");
    }
}
static int pick_live(int want_reach) {
    reach(no); int c[MAXOB], n = 0;
    for (int i = 0; i < no; i++) if (O[i].st == LIVE && (want_reach ? O[i].mark : 1)) c[n++] = i;
    return n ? c[ch("object", (uint32_t)n)] : -1;
}
static void set_ref(int p, int k, obj *c) { O[p].ref[k] = c; O[p].o->ref[k] = c; }
/* an incremental step: at most marks-per-scan objects are marked, and only when enough registrations have happened */
static int m0, r0;
static void step_begin(void) { m0 = marks; r0 = releases; }
static void step_end(int n) {
    if (!c12_mode) return; events_ += n; int m = marks - m0; if (!m && releases == r0) return;
    CHECK(m <= (mps > 1 ? mps : 1), "unbounded-slice", "one incremental step marked %d objects, %d are allowed", m, mps); slices++; probe("slice");
    CHECK((long)slices * every <= events_, "eager-slice", "%d incremental steps happened within %d registrations although %d are to lie between them", slices, events_, every);
}
static int seen[MAXOB];
static void each_cb(void *v, void *data, int ty) { obj *o = v; CHECK(data == (void *)O && ty >= 0 && ty <= 2, "wrong-argument", "the traversal passed other data"); CHECK(o->magic == 0x6c6c && O[o->id].o == o && O[o->id].st == LIVE, "traversal", "the traversal visits something the collector does not control"); CHECK(!seen[o->id]++, "traversal", "the traversal visits object %d twice", o->id); }
static void traverse(void) { memset(seen, 0, sizeof seen); zt_gc_for_each(gc, each_cb, O); for (int i = 0; i < no; i++) CHECK(O[i].st != LIVE || seen[i], "traversal", "the traversal does not visit object %d", i); probe("traversed"); }
static void tick_ages(void) { reach(no); for (int i = 0; i < no; i++) if (O[i].st == LIVE) { if (O[i].mark) O[i].age = 0; } }
static void full(void) {
    if (disabled) { zt_gc_collect(gc, 1); probe("collect-while-disabled"); return; }
    ev("full collection", 0, 0, 0);
    zt_gc_collect(gc, 1); probe("full-collection");
    reach(no);
    for (int i = 0; i < no; i++) if (O[i].st == LIVE) {
        if (O[i].mark) O[i].age = 0;
        else if (c12_mode) CHECK(++O[i].age < 3, "garbage-kept", "object %d has been unreachable for three full collections and is still not released", i);
    }
}
static int new_obj(void) {
    obj *o = calloc(1, sizeof *o); int id = no++;
    o->id = id; o->magic = 0x6c6c; O[id].o = o; O[id].st = LIVE; O[id].age = 0;
    return id;
}
static void mutator(int mode) {
    sim_step_limit(20000000, "hang"); c12_mode = mode == 12;
    int big = sim_large(); mps = (int)ch("marks-per-scan", big ? 700 : 8); int abs_ = every = 1 + (int)ch("allocs-before-scan", big ? 600 : 6); slices = events_ = marks = releases = 0; int n = 5 + (int)ch("steps", big ? 1500 : 60);
    size_t h0 = heap_live();
    gc = zt_gc_init(O, mark_cb, release_cb, mps, abs_);
    sim_desc("marks-per-scan=%d allocs-before-scan=%d steps=%d ", mps, abs_, n);
    fin_reg = ch_p("finalizers", 1, 4);
    uint32_t w[13] = { 6, 6, 3, 3, 2, 2, 1, 2, 2, 2, 1, 1, 1 };
    for (int i = 0; i < 13; i++) if (ch_p("drop-op", 1, 6) && i > 1) w[i] = 0;
    int root = new_obj(); zt_gc_prepare(gc, O[root].o);
    if (ch("root-how", 2)) { step_begin(); zt_gc_register(gc, O[root].o); step_end(1); }
    O[root].prot = 1; zt_gc_protect(gc, O[root].o);
    for (int s = 0; s < n && no < MAXOB; s++) {
        int a, b, k;
        switch (ch_w("op", 13, w)) {
        case 0: { /* a new object, perhaps with children, hooked in at once */
            a = pick_live(1); k = (int)ch("slot", REFS);
            int id = new_obj(), kids = (int)ch("kids", 3); zt_gc_prepare(gc, O[id].o);
            if (ch_p("filled-late", 1, 3)) {   /* registered first and filled before the collector may run again */
                int sp = O[id].prot; O[id].prot = 1; step_begin(); zt_gc_disable(gc); zt_gc_register(gc, O[id].o);
                for (int j = 0; j < kids; j++) { b = pick_live(1); if (b >= 0 && b != id) set_ref(id, j, O[b].o); }
                if (a >= 0) set_ref(a, k, O[id].o);
                zt_gc_enable(gc); step_end(1); O[id].prot = sp; probe("filled-after-registration"); tick_ages(); break; }
            for (int j = 0; j < kids; j++) { b = pick_live(1); if (b >= 0 && b != id) { if (!ch("no-barrier", 2)) zt_gc_mark(gc, O[b].o); else probe("child-only-known-to-a-new-object"); set_ref(id, j, O[b].o); } }   /* the new object will be scanned in this cycle: it needs no barrier */
            int before = a >= 0 && ch("hook-first", 2);
            if (before) { set_ref(a, k, O[id].o); }
            ev("new %ld under %ld", id, a, 0);
            /* a reference held by the mutator keeps nothing alive, but a registration must not release the object it registers */
            int sp = O[id].prot; O[id].prot = 1; step_begin(); zt_gc_register(gc, O[id].o); step_end(1); O[id].prot = sp;
            if (a >= 0 && !before) set_ref(a, k, O[id].o);
            tick_ages();
            break; }
        case 1: a = pick_live(1); b = pick_live(1); if (a < 0) break; k = (int)ch("slot", REFS);
            ev("store %ld.%ld = %ld", a, k, b); zt_gc_mark(gc, O[b].o); set_ref(a, k, O[b].o); tick_ages(); break;
        case 2: a = pick_live(1); if (a < 0) break; k = (int)ch("slot", REFS); ev("clear %ld.%ld", a, k, 0); set_ref(a, k, NULL); break;
        case 3: { /* move a reference */
            a = pick_live(1); b = pick_live(1); if (a < 0) break; k = (int)ch("slot", REFS); obj *c = O[a].ref[k]; if (!c) break;
            ev("move %ld.%ld to %ld", a, k, b); zt_gc_mark(gc, c); set_ref(a, k, NULL); set_ref(b, (int)ch("slot", REFS), c); tick_ages(); break; }
        case 4: a = pick_live(1); if (a < 0) break; ev("protect %ld", a, 0, 0); O[a].prot = 1; zt_gc_protect(gc, O[a].o); tick_ages(); probe("protect"); break;
        case 5: { int c[MAXOB], m = 0; for (int i = 0; i < no; i++) if (O[i].st == LIVE && O[i].prot) c[m++] = i;
            if (m) { a = c[ch("object", (uint32_t)m)]; ev("unprotect %ld", a, 0, 0); O[a].prot = 0; zt_gc_unprotect(gc, O[a].o); probe("unprotect"); } break; }
        case 6: full(); break;
        case 7: step_begin(); zt_gc_collect(gc, 0); step_end(0); break;
        case 8: { /* garbage from the start */ int id = new_obj(); zt_gc_prepare(gc, O[id].o); O[id].prot = 1; step_begin(); zt_gc_register(gc, O[id].o); step_end(1); O[id].prot = 0; break; }
        case 9: if (!disabled) { zt_gc_disable(gc); disabled = 1; if (ch_p("twice", 1, 4)) { zt_gc_disable(gc); disabled = 2; } if (ch_p("deeply", 1, 6)) { int d = 1 + (int)ch("depth", big ? 70000 : 400); disabled += d; while (d--) zt_gc_disable(gc); probe("deeply-disabled"); } }
            else { while (disabled > 3 && ch_p("undo", 199, 200)) { disabled--; zt_gc_enable(gc); } disabled--; step_begin(); zt_gc_enable(gc); step_end(0); } break;
        case 10: { /* take an object out of the collector's hands: nothing may refer to it */
            a = pick_live(0); if (a < 0) break; reach(no);
            if (a == root || O[a].prot || O[a].mark) break;
            int used = 0; for (int i = 0; i < no; i++) if (O[i].st == LIVE) for (int j = 0; j < REFS; j++) used |= O[i].ref[j] == O[a].o;
            if (used) break;
            ev("unregister %ld", a, 0, 0); O[a].st = TAKEN; step_begin(); zt_gc_unregister(gc, O[a].o); step_end(1); probe("unregister"); memset(&O[a].o->mark, 0x5a, sizeof O[a].o->mark);
            break; }
        case 12: if (ch("how", 4)) traverse(); else { zt_gc_print_heap(gc); probe("printed"); } break;
        case 11: { a = pick_live(1); if (a >= 0) { zt_gc_mark(gc, O[a].o); } break; }
        }
        if (no > 8) sim_nontrivial();
    }
    if (releases) probe("released-in-cycles");
    fin_reg = 0;
    if (mode == 12) {
        while (disabled) { disabled--; zt_gc_enable(gc); }
        if (mps > abs_ && ch_p("automatic", 1, 2)) {   /* registrations alone must get rid of what is garbage now */
            static int dead[MAXOB]; int nd = 0, left; reach(no); for (int i = 0; i < no; i++) if (O[i].st == LIVE && !O[i].mark) dead[nd++] = i;
            int live = no, lim = 4 * abs_ * (live + 4) + 40, m0 = marks, done = 0;   /* every step marks more than were registered since the last one: a cycle over N objects takes at most N steps */
            for (int k = 0; k < lim; k++) { left = 0; for (int i = 0; i < nd; i++) left += O[dead[i]].st == LIVE; if (!left || no >= MAXOB - 1) break; int id = -1; for (int i = 0; i < no; i++) if (O[i].st == RELEASED) { id = i; break; }
                if (id < 0) id = new_obj(); else { int nn = no; no = id; new_obj(); no = nn; for (int i = 0; i < nd; i++) if (dead[i] == id) dead[i--] = dead[--nd]; }
                zt_gc_prepare(gc, O[id].o); O[id].prot = 1; step_begin(); zt_gc_register(gc, O[id].o); step_end(1); O[id].prot = 0; done++; }
            if (done > 2 * abs_ + 2) CHECK(marks > m0, "no-steps", "%d registrations led to no incremental step although one is due every %d", done, abs_);
            if (no < MAXOB - 1) CHECK(!left, "garbage-kept", "%d objects stay although %d registrations followed", left, lim); if (nd) probe("collected-by-registrations");
        }
        traverse();
        for (int i = 0; i < 3; i++) full();
        reach(no); for (int i = 0; i < no; i++) CHECK(O[i].st != LIVE || O[i].mark, "garbage-kept", "object %d is unreachable and was not released by three full collections", i);
        if (ch_p("disabled-at-end", 1, 8)) zt_gc_disable(gc);
    } else disabled = 0;
    if (!c12_mode) return;
    destroying = 1; disabled = 0;
    int taken = 0; for (int i = 0; i < no; i++) taken += O[i].st == TAKEN;
    zt_gc_destroy(gc);
    for (int i = 0; i < no; i++) {
        CHECK(O[i].st != LIVE, "not-released", "object %d was still under the collector's control and destroying it did not release it", i);
        if (O[i].st == TAKEN) { CHECK(O[i].o->magic == 0x6c6c, "touched-unregistered", "object %d was changed after it was taken out", i); free(O[i].o); }
    }
    CHECK(heap_live() == h0, "leak", "destroying the collector leaves %ld blocks allocated", (long)(heap_live() - h0));
}
static void c11(void) { mutator(11); }
static void c12(void) { mutator(12); }
SCN(C11, c11, "more than eight objects were registered", "zt_gc.c", "allocator, mutator program (stub client)")
SCN(C12, c12, "more than eight objects were registered", "zt_gc.c", "allocator, mutator program (stub client)")
