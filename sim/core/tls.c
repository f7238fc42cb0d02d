/* Thread-local variables of the library (-femulated-tls): one copy per simulated thread. */
#include "core.h"
#include <stdlib.h>
struct emutls { size_t size, align; uintptr_t index; void *init; };
#define MAXTLS 128
static void *var[64][MAXTLS]; static uintptr_t nvars;
void *sim___emutls_get_address(struct emutls *c) {
    if (!c->index) { if (nvars + 1 >= MAXTLS) sim_error("too many thread-local variables"); c->index = ++nvars; }
    void **p = &var[fiber_self() & 63][c->index];
    if (!*p) { size_t a = c->align < 16 ? 16 : c->align; *p = aligned_alloc(a, (c->size + a - 1) / a * a); if (c->init) memcpy(*p, c->init, c->size); else memset(*p, 0, c->size); }
    return *p;
}
