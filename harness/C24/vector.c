#include "vt.h"
#include "pdc_vector.h"
void harness(void)
{
    static const double fac[] = {2.0, 1.5, 1.25, 1.0, 3.0};
    static void *       ref[32];
    int                 cap = (int)vt_fork(vt_range(1, 4)), f = (int)vt_fork(vt_range(0, 4)), g = (int)vt_fork(vt_range(0, 4)), n = (int)vt_fork(vt_range(0, 12)), at = (int)vt_fork(vt_range(0, 5));
    PDC_VECTOR *        v   = pdc_vector_create(cap, fac[f]);
    VT_CHECK(pdc_vector_size(v) == 0 && pdc_vector_get(v, 0) == NULL, "new vector is not empty");
    for (int i = 0; i < n; i++) {
        if (i == at) { pdc_vector_set_expansion_factor(v, fac[g]); VT_CHECK(pdc_vector_get_expansion_factor(v) == fac[g], "expansion factor not kept"); }
        ref[i] = malloc(1 + i);
        pdc_vector_add(v, ref[i]);
        pdc_vector_add(v, NULL);
        VT_CHECK(pdc_vector_size(v) == (size_t)i + 1, "size wrong");
    }
    uint64_t q = vt_u64();
    for (int i = 0; i < n; i++) VT_CHECK(pdc_vector_get(v, i) == ref[i], "element lost or moved");
    if (q >= (uint64_t)n) VT_CHECK(pdc_vector_get(v, q) == NULL, "out-of-range index returns an element");
    PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(v);
    int                  k  = 0;
    while (pdc_vector_iterator_has_next(it)) { VT_CHECK(k < n, "iteration too long"); VT_CHECK(pdc_vector_iterator_next(it) == ref[k], "iteration order wrong"); k++; }
    VT_CHECK(k == n, "iteration too short");
    pdc_vector_iterator_destroy(it);
    pdc_vector_destroy(v);
    VT_REACH("end");
}
