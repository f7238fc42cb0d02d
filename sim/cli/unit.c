/* a client of the unit-test framework, compiled like the library: its test functions do what the scenario tells them to */
#include <stdlib.h>
#include <string.h>
#define ZT_WITH_UNIT
#include <zt.h>

int unit_next(struct zt_unit_test *test, void *data, const char **text);   /* the scenario */

static void deeper(struct zt_unit_test *test, int n) {
    if (n) { deeper(test, n - 1); return; }
    ZT_UNIT_FAIL(test, "%s", "failed deep inside");
}
void c_unit_test(struct zt_unit_test *test, void *data)
{
    const char *text = NULL;
    for (;;) {
        switch (unit_next(test, data, &text)) {
        case 0: return;
        case 1: ZT_UNIT_ASSERT(test, test != NULL); break;
        case 2: ZT_UNIT_ASSERT_EQUAL(test, 1, 1); break;
        case 3: ZT_UNIT_ASSERT_NOT_EQUAL(test, 1, 2); break;
        case 4: ZT_UNIT_ASSERT(test, test == NULL); break;
        case 5: ZT_UNIT_ASSERT_EQUAL(test, 1, 2); break;
        case 6: ZT_UNIT_ASSERT_NOT_EQUAL(test, 7, 7); break;
        case 7: ZT_UNIT_ASSERT(test, test == NULL, documented failure); break;
        case 8: ZT_UNIT_FAIL(test, "failed: %s", text); break;
        case 9: deeper(test, 5); break;
        case 10: ZT_UNIT_EXIT(test); break;
        default: abort();
        }
    }
}
struct zt_unit_suite *c_unit_suite(struct zt_unit *unit, const char *name, zt_unit_setup_fn s, zt_unit_teardown_fn t, void *data) { struct zt_unit_suite *r = zt_unit_register_suite(unit, name, s, t, data); return r; }
