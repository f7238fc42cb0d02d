/* the same client in C++, where a failed assertion is an exception, and tests may throw exceptions of their own */
#include <stdlib.h>
#include <string.h>
#define ZT_WITH_UNIT
#include <zt.h>

extern "C" int unit_next(struct zt_unit_test *test, void *data, const char **text);   /* the scenario */
extern "C" void c_unit_live(int n);

struct tracked { tracked() { c_unit_live(1); } ~tracked() { c_unit_live(-1); } };       /* unwound on the way out of a test */
struct own { int x; };
static void deeper(struct zt_unit_test *test, int n) {
    tracked t;
    if (n) { deeper(test, n - 1); return; }
    ZT_UNIT_FAIL(test, "%s", "failed deep inside");
}
static void thrown(int how) { tracked t; if (how == 12) throw 42; if (how == 13) throw own(); throw (char *)NULL; }
extern "C" void cpp_unit_test(struct zt_unit_test *test, void *data)
{
    const char *text = NULL; tracked t;
    for (;;) {
        int how = unit_next(test, data, &text);
        switch (how) {
        case 0: return;
        case 1: ZT_UNIT_ASSERT(test, test != NULL); break;
        case 2: ZT_UNIT_ASSERT_EQUAL(test, 1, 1); break;
        case 3: ZT_UNIT_ASSERT_NOT_EQUAL(test, 1, 2); break;
        case 4: ZT_UNIT_ASSERT(test, test == NULL); break;
        case 5: ZT_UNIT_ASSERT_EQUAL(test, 1, 2); break;
        case 6: ZT_UNIT_ASSERT_NOT_EQUAL(test, 7, 7); break;
        case 7: ZT_UNIT_ASSERT(test, test == NULL, documented failure); break;
        case 8: ZT_UNIT_FAIL(test, "failed: %s", text); break;
        case 9: deeper(test, 5); break;
        case 10: ZT_UNIT_EXIT(test); break;
        case 11: { static char s[] = "of a kind"; throw (char *)s; }
        default: thrown(how);
        }
    }
}
extern "C" struct zt_unit_suite *cpp_unit_suite(struct zt_unit *unit, const char *name, zt_unit_setup_fn s, zt_unit_teardown_fn t, void *data) { struct zt_unit_suite *r = zt_unit_register_suite(unit, name, s, t, data); return r; }
