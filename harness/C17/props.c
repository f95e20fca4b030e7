/* Object property lists: they hold what was set last, a duplicate holds the same and is independent of the original. */
#include "server.h"
static struct model {
    int      open;
    pdcid_t  id;
    size_t   nd;
    uint64_t d[3];
    uint32_t user, step;
    int      type, part, cons;
    char *   app, *loc, *tags;
    void *   buf;
} m[2];
static char *word(void)
{
    char *w = (char *)malloc(3);
    w[0] = (char)vt_range(1, 127);
    w[1] = (char)vt_range(1, 127);
    w[2] = 0;
    if (vt_fork(vt_bool()))
        w[1] = 0;
    return w;
}
static void check(void)
{
    for (int k = 0; k < 2; k++) {
        if (m[k].id == 0)
            continue;
        struct pdc_obj_prop * p = PDCobj_prop_get_info(m[k].id);
        struct _pdc_obj_prop *q = PDC_obj_prop_get_info(m[k].id);
        VT_CHECK((p != NULL) == m[k].open && (q != NULL) == m[k].open, "a property list is known until it is closed");
        if (!p || !q)
            continue;
        VT_CHECK(p->obj_prop_id == m[k].id && q->obj_prop_pub->obj_prop_id == m[k].id, "the ID");
        VT_CHECK(p->ndim == m[k].nd && q->obj_prop_pub->ndim == m[k].nd, "the number of dimensions");
        for (size_t i = 0; i < m[k].nd; i++)
            VT_CHECK(p->dims[i] == m[k].d[i] && q->obj_prop_pub->dims[i] == m[k].d[i], "the dimensions");
        VT_CHECK((int)p->type == m[k].type && (int)p->region_partition == m[k].part && (int)p->consistency == m[k].cons, "type, partition and consistency");
        VT_CHECK((int)q->obj_prop_pub->type == m[k].type && (int)q->obj_prop_pub->region_partition == m[k].part && (int)q->obj_prop_pub->consistency == m[k].cons, "type, partition and consistency (library view)");
        VT_CHECK(q->user_id == m[k].user && q->time_step == m[k].step, "user and time step");
        VT_CHECK(same(q->app_name, m[k].app) && same(q->data_loc, m[k].loc) && same(q->tags, m[k].tags), "application, location and tags");
        /* a description obtained is the caller's own */
        if (m[k].nd)
            p->dims[0] = 77, q->obj_prop_pub->dims[0] = 77;
        p->ndim = 9, q->obj_prop_pub->ndim = 9;
        if (q->app_name)
            q->app_name[0] = 'Z';
        if (q->tags)
            q->tags[0] = 'Z';
        if (q->data_loc)
            q->data_loc[0] = 'Z';
    }
}
static void set_dims(int k)
{
    uint64_t d[3];
    m[k].nd = (size_t)vt_fork(vt_range(1, 3));
    for (size_t i = 0; i < m[k].nd; i++)
        d[i] = m[k].d[i] = vt_u64();
    perr_t r = PDCprop_set_obj_dims(m[k].id, (PDC_int_t)m[k].nd, d);
    VT_CHECK(r >= 0, "dimensions are accepted");
    d[0] = 5;
}
void harness(void)
{
    pdcid_t pdc = PDCinit("p");
    m[0].id     = PDCprop_create(PDC_OBJ_CREATE, pdc);
    VT_CHECK(m[0].id > 0, "created");
    m[0].open = 1, m[0].type = PDC_UNKNOWN, m[0].part = PDC_REGION_STATIC, m[0].cons = PDC_CONSISTENCY_EVENTUAL;
    check();
    for (int s = 0; s < STEPS; s++) {
        int   k  = m[1].id ? (int)vt_fork(vt_bool()) : 0;
        int   op = (int)vt_fork(vt_range(0, 5));
        perr_t r = SUCCEED;
        char *w;
        if (!m[k].open) {
            r = PDCprop_set_obj_time_step(m[k].id, 1);
            VT_CHECK(r < 0, "a closed property list is refused");
            r = PDCprop_close(m[k].id);
            VT_CHECK(r < 0, "a property list is closed once");
            continue;
        }
        switch (op) {
            case 0:
                set_dims(k);
                break;
            case 1:
                m[k].user = vt_u32();
                m[k].step = vt_u32();
                m[k].type = (int)vt_range(0, 20);
                m[k].part = (int)vt_range(0, 3);
                m[k].cons = (int)vt_range(0, 3);
                r         = PDCprop_set_obj_user_id(m[k].id, m[k].user);
                r |= PDCprop_set_obj_time_step(m[k].id, m[k].step);
                r |= PDCprop_set_obj_type(m[k].id, (pdc_var_type_t)m[k].type);
                r |= PDCprop_set_obj_transfer_region_type(m[k].id, (pdc_region_partition_t)m[k].part);
                r |= PDCprop_set_obj_consistency_semantics(m[k].id, (pdc_consistency_t)m[k].cons);
                break;
            case 2: {
                int f = (int)vt_fork(vt_range(0, 2));
                w     = word();
                if (f == 0) {
                    m[k].app = strdup(w);
                    r        = PDCprop_set_obj_app_name(m[k].id, w);
                }
                else if (f == 1) {
                    m[k].loc = strdup(w);
                    r        = PDCprop_set_obj_data_loc(m[k].id, w);
                }
                else {
                    m[k].tags = strdup(w);
                    r         = PDCprop_set_obj_tags(m[k].id, w);
                }
                w[0] = 'Y';
                free(w);
                break;
            }
            case 3:
                if (!m[1].id) {
                    m[1]    = m[0];
                    m[1].id = PDCprop_obj_dup(m[0].id);
                    m[1].type = PDC_UNKNOWN, m[1].loc = NULL; /* what describes the data is not shared */
                    VT_CHECK(m[1].id > 0 && m[1].id != m[0].id, "duplicated");
                }
                break;
            case 4:
                if (!m[1].id) {
                    m[1].id   = PDCprop_create(PDC_OBJ_CREATE, pdc);
                    m[1].open = 1, m[1].type = PDC_UNKNOWN, m[1].part = PDC_REGION_STATIC, m[1].cons = PDC_CONSISTENCY_EVENTUAL;
                    VT_CHECK(m[1].id > 0 && m[1].id != m[0].id, "created");
                }
                break;
            default:
                r         = PDCprop_close(m[k].id);
                m[k].open = 0;
        }
        VT_CHECK(r >= 0, "accepted");
        check();
    }
    perr_t r = PDCclose(pdc);
    VT_CHECK(r >= 0, "everything can be closed");
    VT_REACH("history");

}
