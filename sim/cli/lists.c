/* a client of the header-only containers, compiled like the library itself, so that the code the headers put into
 * their users runs instrumented */
#include <stdlib.h>
#include <string.h>
#include <zt.h>
#include <libzt/zt_list.h>
#include <libzt/zt_llist.h>
#include <libzt/zt_queue.h>
#include <libzt/zt_stack.h>

void c_elist_reset(zt_elist_t *h) { zt_elist_reset(h); }
void c_elist_init(zt_elist_t *h) { zt_elist(n); h->next = n.next == &n ? h : NULL; h->prev = n.prev == &n ? h : NULL; }
int  c_elist_empty(zt_elist_t *h) { return zt_elist_empty(h); }
void c_elist_add(zt_elist_t *h, zt_elist_t *e) { zt_elist_add(h, e); }
void c_elist_add_tail(zt_elist_t *h, zt_elist_t *e) { zt_elist_add_tail(h, e); }
void c_elist_remove(zt_elist_t *e) { zt_elist_remove(e); }
void c_elist_join(zt_elist_t *h, zt_elist_t *l) { zt_elist_join(h, l); }
zt_elist_t *c_elist_next(zt_elist_t *e) { return zt_elist_get_next(e); }
zt_elist_t *c_elist_prev(zt_elist_t *e) { return zt_elist_get_prev(e); }
int c_elist_each(zt_elist_t *h, int (*f)(zt_elist_t *, void *), void *v) { zt_elist_t *p; int n = 0; zt_elist_for_each(h, p) { n++; if (!f(p, v)) break; } return n; }
int c_elist_each_safe(zt_elist_t *h, int (*f)(zt_elist_t *, void *), void *v) { zt_elist_t *p, *q; int n = 0; zt_elist_for_each_safe(h, p, q) { n++; if (!f(p, v)) break; } return n; }
struct c_item { int id; zt_elist_t link; int tail; };
void *c_elist_item(zt_elist_t *e) { return zt_elist_data(e, struct c_item, link); }

void c_queue_reset(zt_queue_t *q) { zt_queue_reset(q); }
int  c_queue_empty(zt_queue_t *q) { return zt_queue_empty(q); }
void c_queue_enqueue(zt_queue_t *q, zt_queue_elt_t *e) { zt_queue_enqueue(q, e); }
zt_queue_t *c_queue_dequeue(zt_queue_t *q) { return zt_queue_dequeue(q); }
zt_queue_t *c_queue_peek(zt_queue_t *q) { return zt_queue_peek(q); }

void c_stack_reset(zt_stack_t *q) { zt_stack_reset(q); }
int  c_stack_empty(zt_stack_t *q) { return zt_stack_empty(q); }
void c_stack_push(zt_stack_t *q, zt_stack_elt_t *e) { zt_stack_push(q, e); }
zt_stack_t *c_stack_pop(zt_stack_t *q) { return zt_stack_pop(q); }
zt_stack_t *c_stack_peek(zt_stack_t *q) { return zt_stack_peek(q); }

void  c_ll_free(zt_llist l) { zt_llist_free(l); }
zt_llist c_ll_cons(void *h, zt_llist t) { return zt_llist_cons(h, t); }
void *c_ll_nth(zt_llist l, int n) { return zt_llist_nth(l, n); }
zt_llist c_ll_nthtail(zt_llist l, int n) { return zt_llist_nthtail(l, n); }
zt_llist c_ll_ppop(zt_llist *l) { return zt_llist_ppop(l); }
void *c_ll_pop(zt_llist *l) { return zt_llist_pop(l); }
zt_llist c_ll_push(void *i, zt_llist *l) { return zt_llist_push(i, l); }
zt_llist c_ll_ppush(zt_pair *p, zt_llist *l) { return zt_llist_ppush(p, l); }
zt_llist c_ll_nreverse(zt_llist l) { return zt_llist_nreverse(l); }
zt_llist c_ll_reverse(zt_llist l) { return zt_llist_reverse(l); }
zt_llist c_ll_nmerge(zt_llist a, zt_llist b, int (*c)(void *, void *)) { return zt_llist_nmerge(a, b, c); }
zt_llist c_ll_split(zt_llist l) { return zt_llist_split(l); }
zt_llist c_ll_sort(zt_llist l, int (*c)(void *, void *)) { return zt_llist_sort(l, c); }
