/* C32 linked lists, queues and stacks (header-only; their code runs in sim/cli/lists.c, compiled like the library) */
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <zt.h>
#include <libzt/zt_list.h>
#include <libzt/zt_llist.h>

void c_elist_reset(zt_elist_t *); void c_elist_init(zt_elist_t *); int c_elist_empty(zt_elist_t *); void c_elist_add(zt_elist_t *, zt_elist_t *); void c_elist_add_tail(zt_elist_t *, zt_elist_t *); void c_elist_remove(zt_elist_t *); void c_elist_join(zt_elist_t *, zt_elist_t *);
zt_elist_t *c_elist_next(zt_elist_t *); zt_elist_t *c_elist_prev(zt_elist_t *); int c_elist_each(zt_elist_t *, int (*)(zt_elist_t *, void *), void *); int c_elist_each_safe(zt_elist_t *, int (*)(zt_elist_t *, void *), void *); void *c_elist_item(zt_elist_t *);
void c_queue_reset(zt_elist_t *); int c_queue_empty(zt_elist_t *); void c_queue_enqueue(zt_elist_t *, zt_elist_t *); zt_elist_t *c_queue_dequeue(zt_elist_t *), *c_queue_peek(zt_elist_t *);
void c_stack_reset(zt_elist_t *); int c_stack_empty(zt_elist_t *); void c_stack_push(zt_elist_t *, zt_elist_t *); zt_elist_t *c_stack_pop(zt_elist_t *), *c_stack_peek(zt_elist_t *);
void c_ll_free(zt_llist); zt_llist c_ll_cons(void *, zt_llist); void *c_ll_nth(zt_llist, int); zt_llist c_ll_nthtail(zt_llist, int), c_ll_ppop(zt_llist *); void *c_ll_pop(zt_llist *); zt_llist c_ll_push(void *, zt_llist *), c_ll_ppush(zt_pair *, zt_llist *), c_ll_nreverse(zt_llist), c_ll_reverse(zt_llist), c_ll_nmerge(zt_llist, zt_llist, int (*)(void *, void *)), c_ll_split(zt_llist), c_ll_sort(zt_llist, int (*)(void *, void *));

static void oom_abort(void) { CHECK(fault_fired(F_ALLOC), "aborted", "the process was aborted although memory was available"); probe("aborted-out-of-memory"); }

/* ---- intrusive lists, queues, stacks: a deque model per list ---- */
#define NL 4
#define NI 1200
static int big;
typedef struct { int id; zt_elist_t link; int tail; } item;
static item *I; static int ni, in[NI];      /* in: which list holds it, -1 none */
static struct { zt_elist_t *h; item *m[NI]; int n; int kind; } L[NL]; static int nl;
static const char *KIND[3] = { "list", "queue", "stack" };
static int pos;
static int see(zt_elist_t *e, void *v) {
    int l = (int)(intptr_t)v; CHECK(pos < L[l].n, "extra", "a %s of %d elements yields more", KIND[L[l].kind], L[l].n); CHECK(e == &L[l].m[pos]->link, "order", "element %d of a %s of %d is wrong", pos, KIND[L[l].kind], L[l].n); CHECK(c_elist_item(e) == (void *)L[l].m[pos], "item", "an element yields another item than the one that holds it"); pos++; return 1;
}
static void list_ok(int l) {    /* exactly the model's elements, in order, linked both ways; the items themselves untouched */
    zt_elist_t *h = L[l].h, *e = h, *p = h; for (int k = 0; k < L[l].n; k++) { CHECK(e->next == &L[l].m[k]->link, "links", "element %d of a %s of %d is not linked from the one before", k, KIND[L[l].kind], L[l].n); CHECK(e->next->prev == e, "links", "element %d of a %s of %d is not linked back", k, KIND[L[l].kind], L[l].n); e = e->next; }
    CHECK(e->next == h && h->prev == e, "links", "a %s of %d elements does not end where it should", KIND[L[l].kind], L[l].n); (void)p;
    int em = L[l].kind == 0 ? c_elist_empty(h) : L[l].kind == 1 ? c_queue_empty(h) : c_stack_empty(h); CHECK(!!em == (L[l].n == 0), "emptiness", "a %s of %d elements claims %s", KIND[L[l].kind], L[l].n, em ? "to be empty" : "not to be"); CHECK(c_elist_next(h) == h->next && c_elist_prev(h) == h->prev, "links", "the first or last element is wrong");
}
static void all_ok(void) { for (int l = 0; l < nl; l++) list_ok(l); for (int i = 0; i < ni; i++) CHECK(I[i].id == i && I[i].tail == ~i, "overrun", "an item's data changed"); }
static int free_item(void) { int i = (int)ch("item", (uint32_t)ni); for (int k = 0; k < ni; k++, i = (i + 1) % ni) if (in[i] < 0) return i; return -1; }
static void mput(int l, int at, int i) { memmove(L[l].m + at + 1, L[l].m + at, sizeof *L[l].m * (size_t)(L[l].n - at)); L[l].m[at] = &I[i]; L[l].n++; in[i] = l; }
static void mdel(int l, int at) { in[L[l].m[at] - I] = -1; memmove(L[l].m + at, L[l].m + at + 1, sizeof *L[l].m * (size_t)(L[l].n - at - 1)); L[l].n--; }
static int drop_every, dropped;
static int drop(zt_elist_t *e, void *v) {
    int l = (int)(intptr_t)v; CHECK(pos - dropped < L[l].n && e == &L[l].m[pos - dropped]->link, "order", "iterating with removal goes to a wrong element"); item *it = L[l].m[pos - dropped]; pos++;
    if (pos % drop_every == 0) { mdel(l, pos - 1 - dropped); dropped++; c_elist_remove(e); memset(&it->link, 0x5a, sizeof it->link); probe("removed-while-iterating"); } return 1;
}
static void *list_reader(void *v) { int l = (int)(intptr_t)v; zt_elist_t *e = L[l].h; for (int k = 0; k < L[l].n; k++) { e = c_elist_next(e); CHECK(e == &L[l].m[k]->link, "order", "element %d is wrong for a concurrent reader", k); } CHECK(c_elist_next(e) == L[l].h, "order", "a concurrent reader does not reach the end"); return NULL; }
static void intrusive(int steps) {
    int phases = 0; nl = 1 + (int)ch("lists", NL); ni = 1 + (int)ch("items", big ? NI - 1 : 63); I = sim_alloc_nf(sizeof *I * (size_t)ni); memset(I, 0x77, sizeof *I * (size_t)ni); for (int i = 0; i < ni; i++) I[i].id = i, I[i].tail = ~i, in[i] = -1;
    for (int l = 0; l < nl; l++) { L[l].h = sim_alloc_nf(sizeof *L[l].h); memset(L[l].h, 0xa5, sizeof *L[l].h); L[l].n = 0; L[l].kind = (int)ch("kind", 3); if (L[l].kind == 1) c_queue_reset(L[l].h); else if (L[l].kind == 2) c_stack_reset(L[l].h); else if (ch("static", 2)) c_elist_init(L[l].h); else c_elist_reset(L[l].h); } all_ok();
    for (int s = 0; s < steps; s++) { int l = (int)ch("list", (uint32_t)nl), i; static const uint32_t w[6] = { 6, 4, 2, 1, 1, 1 };
        switch (ch_w("op", 6, w)) {
        case 0: if ((i = free_item()) < 0) break; memset(&I[i].link, (int)ch("old-links", 2) ? 0xa5 : 0, sizeof I[i].link); if (L[l].kind == 1) { c_queue_enqueue(L[l].h, &I[i].link); mput(l, 0, i); } else if (L[l].kind == 2) { c_stack_push(L[l].h, &I[i].link); mput(l, 0, i); } else if (ch("tail", 2)) { c_elist_add_tail(L[l].h, &I[i].link); mput(l, L[l].n, i); } else { c_elist_add(L[l].h, &I[i].link); mput(l, 0, i); } ev("insert %ld into %ld, %ld there", i, l, L[l].n); break;
        case 1: if (L[l].kind == 0) { if (!L[l].n) break; i = (int)ch("which", (uint32_t)L[l].n); item *it = L[l].m[i]; mdel(l, i); c_elist_remove(&it->link); memset(&it->link, 0x5a, sizeof it->link); sim_nontrivial(); break; }
            if (L[l].kind == 2) { zt_elist_t *e = c_stack_peek(L[l].h); if (L[l].n) CHECK(e == &L[l].m[0]->link, "order", "the top of the stack is not the element pushed last"); e = c_stack_pop(L[l].h); if (!L[l].n) { CHECK(!e, "empty", "an empty stack yields an element"); probe("popped-empty"); break; } CHECK(e == &L[l].m[0]->link, "order", "the stack does not yield the element pushed last"); mdel(l, 0); memset(e, 0x5a, sizeof *e); sim_nontrivial(); break; }
            if (!L[l].n) { CHECK(!c_queue_dequeue(L[l].h), "order", "an empty queue yields an element"); probe("empty-queue"); break; } { zt_elist_t *e = c_queue_peek(L[l].h); CHECK(e == &L[l].m[L[l].n - 1]->link, "order", "the queue's next element is not the oldest"); e = c_queue_dequeue(L[l].h); CHECK(e == &L[l].m[L[l].n - 1]->link, "order", "the queue does not yield its oldest element"); mdel(l, L[l].n - 1); memset(e, 0x5a, sizeof *e); sim_nontrivial(); } break;
        case 2: pos = 0; CHECK(c_elist_each(L[l].h, see, (void *)(intptr_t)l) == L[l].n && pos == L[l].n, "missing", "iterating a %s of %d elements yields %d", KIND[L[l].kind], L[l].n, pos); break;
        case 3: pos = dropped = 0; drop_every = 1 + (int)ch("every", 3); i = L[l].n; CHECK(c_elist_each_safe(L[l].h, drop, (void *)(intptr_t)l) == i, "missing", "iterating %d elements with removal visits %d", i, pos); sim_nontrivial(); break;
        case 4: { int q = (int)ch("joined", (uint32_t)nl); if (q == l || L[l].kind || L[q].kind) break; if (!L[q].n) probe("empty-list-joined"); c_elist_join(L[l].h, L[q].h); c_elist_reset(L[q].h); memmove(L[l].m + L[q].n, L[l].m, sizeof(item *) * (size_t)L[l].n); memcpy(L[l].m, L[q].m, sizeof(item *) * (size_t)L[q].n); for (int k = 0; k < L[q].n; k++) in[L[q].m[k] - I] = l; L[l].n += L[q].n; L[q].n = 0; probe("joined"); break; }
        default: { if (phases++ > 4) break; int f[3], n = 2 + (int)ch("readers", 2); for (int k = 0; k < n; k++) f[k] = fiber_spawn(list_reader, (void *)(intptr_t)l, "reader"); for (int k = 0; k < n; k++) fiber_join(f[k]); probe("read-by-several-threads"); }
        }
        all_ok();
    }
}
/* ---- pairs ---- */
#define NP 3
#define PM 2500
static struct { zt_llist l; void *m[PM]; int n; } Q[NP]; static int cmpkind;
static int key(void *p) { return cmpkind < 2 ? (int)((intptr_t)p >> 12) : (int)((intptr_t)p >> 4); }     /* kinds 0, 1: many equal keys */
static int cmp_ge(void *a, void *b) { return cmpkind == 1 ? key(a) <= key(b) : key(a) >= key(b); }
static void pairs_ok(int q) { zt_llist p = Q[q].l; for (int k = 0; k < Q[q].n; k++) { CHECK(p, "missing", "a list of %d items ends after %d", Q[q].n, k); CHECK(heap_is_live(p, sizeof *p), "stray", "a list continues in memory that is not its own"); CHECK(p->head == Q[q].m[k], "order", "item %d of %d is wrong", k, Q[q].n); p = p->tail; } CHECK(!p, "extra", "a list of %d items does not end", Q[q].n); }
static int icmp(const void *a, const void *b) { uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b; return x < y ? -1 : x > y; }
static void take_order(int q, void **exp, int n, const char *what) {    /* the list holds exactly exp's items, in an order the comparison allows */
    int k = 0; for (zt_llist p = Q[q].l; p; p = p->tail) { CHECK(k < n, "extra", "%s %d items yields more", what, n); CHECK(heap_is_live(p, sizeof *p), "stray", "a list continues in memory that is not its own"); Q[q].m[k++] = p->head; } CHECK(k == n, "missing", "%s %d items yields %d", what, n, k); Q[q].n = n;
    for (k = 1; k < n; k++) CHECK(cmp_ge(Q[q].m[k], Q[q].m[k - 1]), "order", "%s %d items leaves items %d and %d out of order", what, n, k - 1, k);
    void *a[PM], *b[PM]; memcpy(a, exp, sizeof *a * (size_t)n); memcpy(b, Q[q].m, sizeof *b * (size_t)n); qsort(a, (size_t)n, sizeof *a, icmp); qsort(b, (size_t)n, sizeof *b, icmp); CHECK(!memcmp(a, b, sizeof *a * (size_t)n), "missing", "%s %d items changes which there are", what, n);
}
static void *value(void) { if (ch_p("no-item", 1, 10)) { probe("null-item"); return NULL; } return (void *)(intptr_t)(16 + ch("value", 4096) * 16 + ch("value-low", 16)); }
static void pairs(int steps) {
    int np = 1 + (int)ch("pair-lists", NP); cmpkind = (int)ch("comparison", 3); void *v;
    for (int q = 0; q < np; q++) Q[q].l = NULL, Q[q].n = 0;
    for (int s = 0; s < steps; s++) { int q = (int)ch("list", (uint32_t)np), k; static const uint32_t w[10] = { 10, 3, 1, 1, 2, 2, 2, 1, 1, 1 }; zt_pair *p;
        switch (ch_w("pair-op", 10, w)) {
        case 0: k = 1 + (int)ch("burst", big ? 300 : 6); while (k-- && Q[q].n < PM - 10) { v = value(); zt_llist r = NULL; if (ch("cons", 2)) Q[q].l = c_ll_cons(v, Q[q].l); else { r = c_ll_push(v, &Q[q].l); CHECK(r == Q[q].l, "result", "pushing an item does not return the new list"); } memmove(Q[q].m + 1, Q[q].m, sizeof v * (size_t)Q[q].n); Q[q].m[0] = v; Q[q].n++; } break;
        case 1: v = c_ll_pop(&Q[q].l); if (!Q[q].n) { CHECK(!v && !Q[q].l, "empty", "an empty list yields an item"); probe("popped-empty"); break; } CHECK(v == Q[q].m[0], "order", "the list does not yield its first item"); memmove(Q[q].m, Q[q].m + 1, sizeof v * (size_t)--Q[q].n); sim_nontrivial(); break;
        case 2: { int t = (int)ch("to", (uint32_t)np); p = c_ll_ppop(&Q[q].l); if (!Q[q].n) { CHECK(!p, "empty", "an empty list yields a pair"); break; } CHECK(p && p->head == Q[q].m[0], "order", "the list does not yield its first pair"); v = Q[q].m[0]; memmove(Q[q].m, Q[q].m + 1, sizeof v * (size_t)--Q[q].n); if (Q[t].n >= PM - 10) t = q; CHECK(c_ll_ppush(p, &Q[t].l) == p && Q[t].l == p, "result", "pushing a pair does not return the new list"); memmove(Q[t].m + 1, Q[t].m, sizeof v * (size_t)Q[t].n); Q[t].m[0] = v; Q[t].n++; probe("pair-moved"); break; }
        case 3: if (!Q[q].n) break; k = (int)ch("index", (uint32_t)Q[q].n); CHECK(c_ll_nth(Q[q].l, k) == Q[q].m[k], "order", "item %d of %d is wrong", k, Q[q].n); { zt_llist t = c_ll_nthtail(Q[q].l, k); CHECK(k + 1 < Q[q].n ? t && t->head == Q[q].m[k + 1] : !t, "order", "the list behind item %d of %d is wrong", k, Q[q].n); } break;
        case 4: Q[q].l = c_ll_nreverse(Q[q].l); for (k = 0; k < Q[q].n / 2; k++) { v = Q[q].m[k]; Q[q].m[k] = Q[q].m[Q[q].n - 1 - k]; Q[q].m[Q[q].n - 1 - k] = v; } probe("reversed-in-place"); break;
        case 5: { int t = (q + 1) % NP; zt_llist r = c_ll_reverse(Q[q].l), x = r; for (k = Q[q].n; k--; x = x->tail) { CHECK(x && heap_is_live(x, sizeof *x) && x->head == Q[q].m[k], "order", "the reversed copy is wrong"); } CHECK(!x, "extra", "the reversed copy does not end"); pairs_ok(q); (void)t; c_ll_free(r); probe("reversed-copy"); break; }
        case 6: { void *e[PM]; int n = Q[q].n; memcpy(e, Q[q].m, sizeof *e * (size_t)n); Q[q].l = c_ll_sort(Q[q].l, cmp_ge); take_order(q, e, n, "sorting"); if (n > 2) probe("sorted"); sim_nontrivial(); break; }
        case 7: { int t = (q + 1) % np; if (t == q || Q[q].n + Q[t].n > PM - 10) break; void *e[PM]; int n = Q[q].n + Q[t].n; memcpy(e, Q[q].m, sizeof *e * (size_t)Q[q].n); memcpy(e + Q[q].n, Q[t].m, sizeof *e * (size_t)Q[t].n); zt_llist a = c_ll_sort(Q[q].l, cmp_ge), b = c_ll_sort(Q[t].l, cmp_ge); Q[q].l = c_ll_nmerge(a, b, cmp_ge); Q[t].l = NULL; Q[t].n = 0; take_order(q, e, n, "merging"); probe("merged"); break; }
        case 8: { int t = (q + 1) % np; if (t == q || Q[t].n || Q[q].n < 2) break; zt_llist r = c_ll_split(Q[q].l); int a = 0; for (zt_llist x = Q[q].l; x; x = x->tail) a++; CHECK(a >= 1 && a < Q[q].n, "missing", "splitting %d items leaves %d in the first part", Q[q].n, a); Q[t].n = Q[q].n - a; memcpy(Q[t].m, Q[q].m + a, sizeof v * (size_t)Q[t].n); Q[q].n = a; Q[t].l = r; pairs_ok(t); probe("split"); break; }
        default: c_ll_free(Q[q].l); Q[q].l = NULL; Q[q].n = 0; probe("list-released"); break;
        }
        for (q = 0; q < np; q++) pairs_ok(q);
    }
    for (int q = 0; q < np; q++) c_ll_free(Q[q].l);
}
static void c32(void) {
    sim_step_limit(400000000, "hang"); sim_abort_cb = oom_abort; size_t live0 = heap_live(); big = sim_large(); int steps = 5 + (int)ch("steps", big ? 1200 : ch_p("long", 1, 4) ? 250 : 50), mode = (int)ch("mode", 2); sim_desc("steps=%d %s ", steps, mode ? "pairs" : "intrusive"); sim_sig((uint64_t)steps * 2 + (uint64_t)mode);
    if (mode) { if (ch_p("oom", 1, 4)) fault_set(F_ALLOC, 1, 20 + ch("oom-rate", 300), -1); pairs(steps); } else intrusive(steps);
    fault_off(); if (heap_live() != live0) { heap_dump_since(0); sim_fail("leak", "%zd allocations are left after everything was released", heap_live() - live0); }
}
SCN(C32, c32, "an element was removed or a list was sorted", "zt_list.h, zt_queue.h, zt_stack.h, zt_llist.h, zt_malloc.c", "heap with failing allocations; client program")
