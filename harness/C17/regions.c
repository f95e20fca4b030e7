/* Regions keep their extent and stay while they are mapped. */
#include "server.h"
static int mapped;
perr_t PDC_Client_buf_map(pdcid_t lr, pdcid_t obj, size_t nd, uint64_t *dims, uint64_t *off, pdc_var_type_t lt, void *data, pdc_var_type_t rt, struct pdc_region_info *a, struct pdc_region_info *b, struct _pdc_obj_info *o)
{
    (void)lr, (void)obj, (void)nd, (void)dims, (void)off, (void)lt, (void)data, (void)rt, (void)a, (void)b, (void)o;
    return refuse ? FAIL : SUCCEED;
}
perr_t PDC_Client_buf_unmap(pdcid_t obj, pdcid_t reg, struct pdc_region_info *i, pdc_var_type_t t, struct _pdc_obj_info *o)
{
    (void)obj, (void)reg, (void)i, (void)t, (void)o;
    return refuse ? FAIL : SUCCEED;
}
perr_t PDC_Client_region_lock(pdcid_t id, struct _pdc_obj_info *o, struct pdc_region_info *i, pdc_access_t a, pdc_lock_mode_t m, pdc_var_type_t t, pbool_t *got)
{
    (void)a, (void)m, (void)t;
    VT_CHECK(id == 9 && o->obj_info_pub->meta_id == 9 && i->ndim > 0, "the region and object are given");
    *got = !refuse;
    return refuse ? FAIL : SUCCEED;
}
perr_t PDC_Client_region_release(pdcid_t id, struct _pdc_obj_info *o, struct pdc_region_info *i, pdc_access_t a, pdc_var_type_t t, pbool_t *got) { return PDC_Client_region_lock(id, o, i, a, PDC_BLOCK, t, got); }
void harness(void)
{
    pdcid_t  pdc = PDCinit("p");
    size_t   nd  = (size_t)vt_fork(vt_range(1, 3)), ond = (size_t)vt_fork(vt_range(1, 2));
    uint64_t off[3], sz[3], dims[2], keep_off[3], keep_sz[3];
    for (size_t i = 0; i < nd; i++) {
        keep_off[i] = off[i] = vt_u64();
        keep_sz[i] = sz[i] = vt_u64();
    }
    for (size_t i = 0; i < ond; i++)
        dims[i] = vt_u64();
    pdcid_t cp = PDCprop_create(PDC_CONT_CREATE, pdc), op = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_dims(op, (PDC_int_t)ond, dims);
    next_meta     = 9;
    pdcid_t cont  = PDCcont_create("c", cp), obj = PDCobj_create(cont, "o", op);
    pdcid_t local = PDCregion_create(nd, off, sz), reg = PDCregion_create(nd, off, sz);
    VT_CHECK(local != 0 && reg != 0 && local != reg && obj != 0, "created");
    off[0] = 1, sz[0] = 1;
    int robj = 1, rreg = 1, oc = 0, rc = 0; /* references; closed by the user */
    for (int s = 0; s < STEPS; s++) {
        int    what = (int)vt_fork(vt_range(0, 4));
        perr_t r;
        refuse = (what < 2 || what == 4) && vt_fork(vt_bool());
        if (what == 0) {
            int fits = robj > 0 && rreg > 0 && nd == ond;
            for (size_t i = 0; i < nd && fits; i++)
                fits = keep_sz[i] <= dims[i];
            char buf[4];
            r = PDCbuf_obj_map(buf, PDC_CHAR, local, obj, reg);
            VT_CHECK((r >= 0) == (fits && !refuse), "a region of the object is mapped");
            if (r >= 0)
                robj++, rreg++, mapped++;
        }
        else if (what == 1) {
            if (mapped == 0)
                continue;
            r = PDCbuf_obj_unmap(obj, reg);
            VT_CHECK((r >= 0) == !refuse, "a mapped region is unmapped");
            if (r >= 0)
                robj--, rreg--, mapped--;
        }
        else if (what == 2 && !oc) {
            r = PDCobj_close(obj);
            VT_CHECK(r >= 0, "closed");
            oc = 1, robj--;
        }
        else if (what == 3 && !rc) {
            r = PDCregion_close(reg);
            VT_CHECK(r >= 0, "closed");
            rc = 1, rreg--;
        }
        else if (what == 4) {
            r = PDCreg_obtain_lock(obj, reg, PDC_WRITE, PDC_BLOCK);
            VT_CHECK((r >= 0) == (robj > 0 && rreg > 0 && !refuse), "a region that is open is locked");
            r = PDCreg_release_lock(obj, reg, PDC_WRITE);
            VT_CHECK((r >= 0) == (robj > 0 && rreg > 0 && !refuse), "a region that is open is released");
        }
        struct pdc_region_info *g = PDCregion_get_info(reg);
        VT_CHECK((g != NULL) == (rreg > 0), "a region is known until it is closed and unmapped");
        if (g) {
            VT_CHECK(g->ndim == nd && g->local_id == reg, "the region's description");
            for (size_t i = 0; i < nd; i++)
                VT_CHECK(g->offset[i] == keep_off[i] && g->size[i] == keep_sz[i], "the region's extent");
        }
        struct pdc_obj_info *a = PDCobj_get_info(obj);
        VT_CHECK((a != NULL) == (robj > 0), "an object is known until it is closed and unmapped");
    }
    perr_t r = PDCclose(pdc);
    VT_CHECK(r >= 0, "everything can be closed");
    VT_REACH("regions");

}
