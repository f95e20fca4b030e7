/* IDs: whatever the history, an ID names the thing it was given for as long as references to it remain, and nothing else. */
#include "server.h"
#define MAX (STEPS + 1)
static struct { pdcid_t id; int type, refs, freed; } it[MAX];
static int n;
static perr_t drop(void *p)
{
    int k = (int)(((char *)p - (char *)it) / sizeof(it[0]));
    VT_CHECK(k >= 0 && k < n && it[k].freed == 0, "only an open handle is taken apart, and once");
    it[k].freed = 1;
    return SUCCEED;
}
void harness(void)
{
    static const int type[2] = {PDC_REGION, PDC_OBJ};
    pdc_id_list_g = (struct pdc_id_list *)PDC_calloc(1, sizeof(struct pdc_id_list));
    PDC_register_type(type[0], drop);
    PDC_register_type(type[1], drop);
    it[n].type = type[0], it[n].refs = 1;
    it[n].id   = PDC_id_register(type[0], &it[n]);
    n++;
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vt_fork(vt_range(0, 2));
        if (op == 0) {
            it[n].type = type[vt_fork(vt_bool())], it[n].refs = 1;
            n++;
            it[n - 1].id = PDC_id_register(it[n - 1].type, &it[n - 1]);
            VT_CHECK(it[n - 1].id != 0, "a handle is given");
            for (int k = 0; k < n - 1; k++)
                VT_CHECK(it[k].id != it[n - 1].id, "an ID is never given twice");
        }
        else {
            int k = (int)vt_fork(vt_range(0, (uint64_t)n - 1));
            int r = op == 1 ? PDC_inc_ref(it[k].id) : PDC_dec_ref(it[k].id);
            if (it[k].refs == 0) {
                VT_CHECK(r <= 0, "a closed ID is refused");
                continue;
            }
            it[k].refs += op == 1 ? 1 : -1;
            VT_CHECK(r == it[k].refs, "the references are counted");
        }
    }
    for (int k = 0; k < n; k++) {
        VT_CHECK(it[k].freed == (it[k].refs == 0), "a handle is taken apart when its last reference goes");
    }
    pdcid_t any = vt_u64();
    struct _pdc_id_info *f = PDC_find_id(any);
    int hit = -1;
    for (int k = 0; k < n; k++)
        if (it[k].refs > 0 && it[k].id == any)
            hit = k;
    VT_CHECK((f != NULL) == (hit >= 0), "exactly the open IDs are known");
    if (f) {
        VT_CHECK(f->obj_ptr == &it[hit] && f->id == any, "an ID leads to what it was given for");
    }
    for (int t = 0; t < 2; t++) {
        int c = 0;
        for (int k = 0; k < n; k++)
            c += it[k].type == type[t] && it[k].refs > 0;
        VT_CHECK(PDC_id_list_null(type[t]) == c, "the number of open IDs");
        PDC_id_list_clear(type[t]);
        VT_CHECK(PDC_id_list_null(type[t]) == 0, "all are closed");
        PDC_destroy_type(type[t]);
    }
    for (int k = 0; k < n; k++)
        VT_CHECK(it[k].freed == 1, "closing takes everything apart");
    VT_REACH("history");

}
