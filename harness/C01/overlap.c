/* Region overlap / containment arithmetic, full 64-bit width, NDIM dimensions. */
#include "vt.h"
#include "pdc_region.h"
#ifndef NDIM
#define NDIM 3
#endif
int PDC_region_overlap_detect(int, uint64_t *, uint64_t *, uint64_t *, uint64_t *, uint64_t **, uint64_t **);
int detect_region_contained(uint64_t *, uint64_t *, uint64_t *, uint64_t *, int);
static int in(const uint64_t *c, const uint64_t *o, const uint64_t *s)
{
    for (int i = 0; i < NDIM; i++)
        if (c[i] < o[i] || c[i] - o[i] >= s[i])
            return 0;
    return 1;
}
void harness(void)
{
    uint64_t o1[NDIM], s1[NDIM], o2[NDIM], s2[NDIM], c[NDIM], k[NDIM];
    for (int i = 0; i < NDIM; i++) {
        o1[i] = vt_u64(); s1[i] = vt_u64(); o2[i] = vt_u64(); s2[i] = vt_u64(); c[i] = vt_u64(); k[i] = vt_u64();
        vt_assume(s1[i] >= 1 && s2[i] >= 1);
        vt_assume(o1[i] <= UINT64_MAX - s1[i] && o2[i] <= UINT64_MAX - s2[i]); /* region end representable */
    }
    uint64_t b1[2 * NDIM], b2[2 * NDIM];
    for (int i = 0; i < NDIM; i++) { b1[i] = o1[i]; b1[NDIM + i] = s1[i]; b2[i] = o2[i]; b2[NDIM + i] = s2[i]; }
    uint64_t *po = (uint64_t *)1, *ps = (uint64_t *)1;
    PDC_region_overlap_detect(NDIM, o1, s1, o2, s2, &po, &ps);
    int both = in(c, o1, s1) && in(c, o2, s2);
    if (po == NULL) {
        VT_CHECK(!both, "overlap: a cell lies in both regions but no overlap was reported");
    }
    else {
        for (int i = 0; i < NDIM; i++)
            VT_CHECK(ps[i] >= 1, "overlap: reported intersection is empty");
        VT_CHECK(in(c, po, ps) == both, "overlap: reported box is not the exact intersection");
        free(po);
    }
    for (int i = 0; i < NDIM; i++)
        VT_CHECK(b1[i] == o1[i] && b1[NDIM + i] == s1[i] && b2[i] == o2[i] && b2[NDIM + i] == s2[i], "overlap: inputs modified");
    int r = detect_region_contained(o1, s1, o2, s2, NDIM);
    VT_CHECK(r == 0 || r == 1, "contained: not boolean");
    /* contained => every cell of 1 is in 2 ; not contained => one of the two extreme corners is outside */
    if (r)
        VT_CHECK(!in(c, o1, s1) || in(c, o2, s2), "contained reported, but a cell lies outside");
    else {
        uint64_t lo[NDIM], hi[NDIM];
        for (int i = 0; i < NDIM; i++) { lo[i] = o1[i]; hi[i] = o1[i] + s1[i] - 1; }
        VT_CHECK(!(in(lo, o2, s2) && in(hi, o2, s2)), "containment missed");
    }
    VT_REACH("end");
}
