/* Deque against a sequence: rotated, filled to a boundary, then every sequence of K operations, all through the API. */
#include "vt.h"
#include "pdc_deque.h"
static void *ref[200];
static int   lo = 80, hi = 80;
static PDC_deque_t d;
static void *val(void) { return (void *)(uintptr_t)vt_u64(); }
static void op(int o)
{
    void *v;
    switch (o) {
        case 0: v = val(); PDC_deque_push_back(&d, v); ref[hi++] = v; break;
        case 1: v = val(); PDC_deque_push_front(&d, v); ref[--lo] = v; break;
        case 2: v = PDC_deque_pop_front(&d); VT_CHECK(v == (lo < hi ? ref[lo] : NULL), "pop_front returns a wrong element"); if (lo < hi) lo++; break;
        default: v = PDC_deque_pop_back(&d); VT_CHECK(v == (lo < hi ? ref[hi - 1] : NULL), "pop_back returns a wrong element"); if (lo < hi) hi--; break;
    }
    VT_CHECK(d.size == (size_t)(hi - lo), "size wrong");
}
void harness(void)
{
    static const int fills[] = FILLS;
    int              rot = (int)vt_fork(vt_range(0, 2)), n = fills[vt_fork(vt_range(0, sizeof fills / sizeof *fills - 1))], side = (int)vt_fork(vt_range(0, 1));
    PDC_deque_init(&d);
    for (int i = 0; i < rot * 5; i++) { op(side); }
    for (int i = 0; i < rot * 5; i++) { op(side ? 3 : 2); }
    for (int i = 0; i < n; i++) op(i % 3 == 2 ? !side : side);
    for (int i = 0; i < K; i++) op((int)vt_fork(vt_range(0, 3)));
    int end = (int)vt_fork(vt_range(2, 3));
    while (lo < hi) op(end);
    op(end);
    op(0); op(1); op(end); op(end); op(end);
    PDC_deque_free(&d);
    VT_REACH("end");
}
