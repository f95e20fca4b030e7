/* Sub-region copies against a cell-by-cell reference: symbolic geometry, symbolic contents. */
#include "vt.h"
#include "pdc_region.h"
#ifndef NDIM
#define NDIM 2
#endif
#ifndef UNIT
#define UNIT 2
#endif
#ifndef MAXD
#define MAXD 3
#endif
#if NDIM == 1
#define CAP (MAXD * UNIT)
#elif NDIM == 2
#define CAP (MAXD * MAXD * UNIT)
#else
#define CAP (MAXD * MAXD * MAXD * UNIT)
#endif
int memcpy_subregion(int ndim, uint64_t unit, pdc_access_t access_type, char *buf, uint64_t *size, char *sub_buf,
                 uint64_t *sub_offset, uint64_t *sub_size);
int memcpy_overlap_subregion(int ndim, uint64_t unit, char *buf, uint64_t *offset, uint64_t *size, char *buf2,
                         uint64_t *offset2, uint64_t *size2, uint64_t *overlap_offset, uint64_t *overlap_size);
static uint64_t lin(const uint64_t *c, const uint64_t *size)
{
    uint64_t x = 0;
    for (int i = 0; i < NDIM; i++) x = x * size[i] + c[i];
    return x;
}
void harness(void)
{
    uint64_t size[NDIM], so[NDIM], ss[NDIM], c[NDIM], rel[NDIM];
    char buf[CAP + 2], sub[CAP + 2], buf0[CAP + 2], sub0[CAP + 2];
    for (int i = 0; i < CAP + 2; i++) { buf0[i] = buf[i] = (char)vt_u8(); sub0[i] = sub[i] = (char)vt_u8(); }
    for (int i = 0; i < NDIM; i++) {
        size[i] = vt_range(1, MAXD); so[i] = vt_range(0, MODE ? 0 : MAXD - 1); ss[i] = vt_range(1, MAXD);
        vt_assume(MODE || so[i] + ss[i] <= size[i]);
    }
    uint64_t k = vt_range(0, UNIT - 1);
#if MODE == 0 /* gather / scatter */
    memcpy_subregion(NDIM, UNIT, WR ? PDC_WRITE : PDC_READ, buf + 1, size, sub + 1, so, ss);
    /* any cell of the big buffer */
    int inside = 1;
    for (int i = 0; i < NDIM; i++) {
        c[i] = vt_range(0, MAXD - 1);
        vt_assume(c[i] < size[i]);
        if (c[i] < so[i] || c[i] >= so[i] + ss[i]) inside = 0;
        rel[i] = c[i] - so[i];
    }
    uint64_t b = 1 + lin(c, size) * UNIT + k;
    if (inside) {
        uint64_t s = 1 + lin(rel, ss) * UNIT + k;
        if (WR) VT_CHECK(sub[s] == buf0[b], "gather: wrong byte in packed buffer");
        else VT_CHECK(buf[b] == sub0[s], "scatter: wrong byte in region buffer");
    }
    else
        VT_CHECK(buf[b] == buf0[b], "copy touched a cell outside the sub-region");
    uint64_t n = UNIT, m = UNIT;
    for (int i = 0; i < NDIM; i++) { n *= ss[i]; m *= size[i]; }
    for (int q = 0; q < CAP + 2; q++)
        if (WR) {
            VT_CHECK(buf[q] == buf0[q], "gather modified its source");
            if (q < 1 || q >= 1 + n) VT_CHECK(sub[q] == sub0[q], "gather wrote outside the packed buffer");
        }
        else {
            VT_CHECK(sub[q] == sub0[q], "scatter modified its source");
            if (q < 1 || q >= 1 + m) VT_CHECK(buf[q] == buf0[q], "scatter wrote outside the region buffer");
        }
#else /* overlap copy buf(o1,size) -> sub(o2,ss) over the intersection */
    uint64_t o1[NDIM], o2[NDIM], oo[NDIM], os[NDIM], r1[NDIM], r2[NDIM];
    int      in_ov = 1;
    for (int i = 0; i < NDIM; i++) {
        o1[i] = vt_range(0, MAXD); o2[i] = vt_range(0, MAXD);
        oo[i] = o1[i] > o2[i] ? o1[i] : o2[i];
        uint64_t e1 = o1[i] + size[i], e2 = o2[i] + ss[i], e = e1 < e2 ? e1 : e2;
        vt_assume(oo[i] < e);
        os[i] = e - oo[i];
        c[i]  = vt_range(0, 2 * MAXD);
        vt_assume(c[i] >= o2[i] && c[i] < o2[i] + ss[i]);
        if (c[i] < oo[i] || c[i] >= oo[i] + os[i]) in_ov = 0;
        r1[i] = c[i] - o1[i]; r2[i] = c[i] - o2[i];
    }
    memcpy_overlap_subregion(NDIM, UNIT, buf + 1, o1, size, sub + 1, o2, ss, oo, os);
    uint64_t t = 1 + lin(r2, ss) * UNIT + k;
    if (in_ov) VT_CHECK(sub[t] == buf0[1 + lin(r1, size) * UNIT + k], "overlap copy: wrong byte");
    else VT_CHECK(sub[t] == sub0[t], "overlap copy: touched a cell outside the intersection");
    uint64_t m = UNIT;
    for (int i = 0; i < NDIM; i++) m *= ss[i];
    for (int q = 0; q < CAP + 2; q++) {
        VT_CHECK(buf[q] == buf0[q], "overlap copy: source modified");
        if (q < 1 || q >= 1 + m) VT_CHECK(sub[q] == sub0[q], "overlap copy: wrote outside the target");
    }
#endif
    VT_REACH("end");
}
