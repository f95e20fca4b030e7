#include "vt.h"
#include "pdc_stack.h"
void harness(void)
{
    static const int fills[] = {0, 1, 14, 15, 16, 31, 32, 33};
    static void *    ref[80];
    PDC_stack_t      s;
    int              n = fills[vt_fork(vt_range(0, 7))], k = 0;
    PDC_stack_init(&s);
    for (int i = 0; i < n; i++) { ref[k] = (void *)(uintptr_t)vt_u64(); PDC_stack_push(&s, ref[k++]); }
    for (int i = 0; i < K; i++) {
        if (k && vt_fork(vt_range(0, 1))) VT_CHECK(PDC_stack_pop(&s) == ref[--k], "pop returns a wrong element");
        else { ref[k] = (void *)(uintptr_t)vt_u64(); PDC_stack_push(&s, ref[k++]); }
        VT_CHECK(s.size == (size_t)k, "size wrong");
    }
    while (k) VT_CHECK(PDC_stack_pop(&s) == ref[--k], "pop returns a wrong element");
    PDC_stack_free(&s);
    VT_REACH("end");
}
