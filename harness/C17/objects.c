/* Objects and containers: each keeps the description it was created with, whatever happens to the property list and container
 * it was made from, and whatever the servers refuse. */
#include "server.h"
#define NO (STEPS + 2)
static struct { int open; pdcid_t id; char name[3]; uint64_t meta; int life; } c[2];
static struct { pdcid_t id; int open; size_t nd; uint64_t d[2]; uint32_t user, step; int type, part, cons; char app[3]; } p;
static struct { int open, global; pdcid_t id; int cont; char name[3]; uint64_t meta; size_t nd; uint64_t d[2]; uint32_t user, step, data, md; int type, part, cons; char app[3]; } o[NO];
static int no, nwrong;

static int to_reset;
perr_t PDC_Client_obj_reset_dims(const char *n, int step, int nd, uint64_t *d, int *reset)
{
    VT_CHECK(to_reset >= 0 && same(n, o[to_reset].name) && (uint32_t)step == o[to_reset].step && nd == (int)o[to_reset].nd, "the servers are asked for the object");
    (void)d;
    *reset = !refuse;
    return SUCCEED;
}
static void prop_set(void)
{
    size_t   nd = (size_t)vt_fork(vt_range(1, 2));
    p.nd        = nd;
    for (size_t i = 0; i < nd; i++)
        p.d[i] = vt_u64();
    p.user = vt_u32(), p.step = vt_u32(), p.type = (int)vt_range(0, 20), p.part = (int)vt_range(0, 3), p.cons = (int)vt_range(0, 3);
    p.app[0] = (char)vt_range(1, 127);
    p.app[1] = (char)vt_range(1, 127);
    PDCprop_set_obj_dims(p.id, (PDC_int_t)nd, p.d);
    PDCprop_set_obj_user_id(p.id, p.user);
    PDCprop_set_obj_time_step(p.id, p.step);
    PDCprop_set_obj_type(p.id, (pdc_var_type_t)p.type);
    PDCprop_set_obj_transfer_region_type(p.id, (pdc_region_partition_t)p.part);
    PDCprop_set_obj_consistency_semantics(p.id, (pdc_consistency_t)p.cons);
    PDCprop_set_obj_app_name(p.id, p.app);
}
static void create(void)
{
    int  k      = (int)vt_fork(vt_bool());
    int  global = (int)vt_fork(vt_bool());
    char n[3]   = {(char)('a' + no), 0, 0};
    if (!p.open || !c[k].open) {
        pdcid_t id = PDCobj_create(c[k].id, n, p.id);
        VT_CHECK(id == 0, "an object is not made from a closed handle");
        return;
    }
    n[1]      = (char)vt_range(1, 127);
    refuse    = global && vt_fork(vt_bool());
    next_meta = vt_u64();
    next_data = vt_u32();
    next_md   = vt_u32();
    pdcid_t id = global ? PDCobj_create(c[k].id, n, p.id) : PDC_obj_create(c[k].id, n, p.id, PDC_OBJ_LOCAL);
    if (refuse) {
        VT_CHECK(id == 0, "a refused object is not created");
        refuse = 0;
        return;
    }
    VT_CHECK(id != 0, "an object is created");
    if (global) {
        VT_CHECK(same(sent.name, n) && sent.cont == c[k].meta && sent.prop == p.id, "the servers are told the name, container and properties");
    }
    for (int i = 0; i < no; i++)
        VT_CHECK(o[i].id != id, "an ID is never given twice");
    o[no].open = 1, o[no].global = global, o[no].id = id, o[no].cont = k, o[no].meta = global ? next_meta : 0;
    memcpy(o[no].name, n, 3);
    memcpy(o[no].app, p.app, 3);
    memcpy(o[no].d, p.d, sizeof(p.d));
    o[no].nd = p.nd, o[no].user = p.user, o[no].step = p.step, o[no].type = p.type, o[no].part = p.part, o[no].cons = p.cons;
    o[no].data = next_data, o[no].md = next_md;
    no++;
    n[0] = 'Z';
}
static void check(void)
{
    for (int i = 0; i < no; i++) {
        struct pdc_obj_info * a = PDCobj_get_info(o[i].id);
        struct _pdc_obj_info *b = PDC_obj_get_info(o[i].id);
        VT_CHECK((a != NULL) == o[i].open && (b != NULL) == o[i].open, "an object is known until it is closed");
        if (!a || !b)
            continue;
        VT_CHECK(same(a->name, o[i].name) && a->meta_id == o[i].meta && a->local_id == o[i].id && a->server_id == 0, "name and identity");
        VT_CHECK(!o[i].global || a->metadata_server_id == o[i].md, "the metadata server");
        VT_CHECK(a->obj_pt->ndim == o[i].nd && b->obj_pt->obj_prop_pub->ndim == o[i].nd, "the number of dimensions");
        for (size_t j = 0; j < o[i].nd; j++)
            VT_CHECK(a->obj_pt->dims[j] == o[i].d[j] && b->obj_pt->obj_prop_pub->dims[j] == o[i].d[j], "the dimensions");
        VT_CHECK((int)a->obj_pt->type == o[i].type && (int)a->obj_pt->region_partition == o[i].part && (int)a->obj_pt->consistency == o[i].cons, "type, partition and consistency");
        VT_CHECK((int)b->obj_pt->obj_prop_pub->type == o[i].type && b->obj_pt->user_id == o[i].user && b->obj_pt->time_step == o[i].step && same(b->obj_pt->app_name, o[i].app), "type, user, time step and application");
        VT_CHECK(b->cont->cont_info_pub->local_id == c[o[i].cont].id && b->cont->cont_info_pub->meta_id == c[o[i].cont].meta && same(b->cont->cont_info_pub->name, c[o[i].cont].name), "the container");
        VT_CHECK((int)b->location == (o[i].global ? PDC_OBJ_GLOBAL : PDC_OBJ_LOCAL), "where the object is known");
        pdc_metadata_t *md = (pdc_metadata_t *)((struct _pdc_obj_info *)PDC_find_id(o[i].id)->obj_ptr)->metadata;
        VT_CHECK(md->obj_id == o[i].meta && md->cont_id == c[o[i].cont].meta && (!o[i].global || md->data_server_id == o[i].data) && md->ndim == o[i].nd && md->user_id == o[i].user && (uint32_t)md->time_step == o[i].step, "the metadata kept with the object");
        VT_CHECK(same(md->obj_name, o[i].name) && same(md->app_name, o[i].app) && (int)md->region_partition == o[i].part && (int)md->consistency == o[i].cons, "the names kept with the object");
        for (size_t j = 0; j < o[i].nd; j++)
            VT_CHECK(md->dims[j] == o[i].d[j], "the dimensions kept with the object");
        int       nd;
        uint64_t *d;
        PDCobj_get_dims(o[i].id, &nd, &d);
        VT_CHECK(nd == (int)o[i].nd && d[0] == o[i].d[0], "get_dims");
        /* a description obtained is the caller's own */
        d[0] = 77, a->name[0] = 'Z', a->obj_pt->dims[0] = 77, b->obj_pt->obj_prop_pub->dims[0] = 77, b->cont->cont_info_pub->name[0] = 'Z', b->obj_pt->app_name[0] = 'Z';
    }
    for (int k = 0; k < 2; k++) {
        struct _pdc_cont_info *a = PDC_cont_get_info(c[k].id);
        VT_CHECK((a != NULL) == c[k].open, "a container is known until it is closed");
        if (a) {
            VT_CHECK(same(a->cont_info_pub->name, c[k].name) && a->cont_info_pub->meta_id == c[k].meta && a->cont_info_pub->local_id == c[k].id && (int)a->cont_pt->cont_life == c[k].life, "the container's description");
        }
        struct pdc_cont_info *pub = PDCcont_get_info(c[k].name);
        VT_CHECK((pub != NULL) == c[k].open && (!pub || pub->local_id == c[k].id), "a container is found by its name");
    }
}
static void iterate(void)
{
    for (int k = 0; k < 2; k++) {
        int seen[NO] = {0}, steps = 0;
        for (obj_handle *h = PDCobj_iter_start(c[k].id); !PDCobj_iter_null(h) && steps < NO + 1; h = PDCobj_iter_next(h, c[k].id), steps++) {
            struct pdc_obj_info *a = PDCobj_iter_get_info(h);
            for (int i = 0; i < no; i++)
                if (o[i].id == a->local_id)
                    seen[i]++;
        }
        for (int i = 0; i < no; i++)
            VT_CHECK(seen[i] == (o[i].open && o[i].cont == k), "iteration visits each object of the container once, and no other");
    }
    int seen[2] = {0}, steps = 0;
    for (cont_handle *h = PDCcont_iter_start(); !PDCcont_iter_null(h) && steps < 3; h = PDCcont_iter_next(h), steps++) {
        struct pdc_cont_info *a = PDCcont_iter_get_info(h);
        for (int k = 0; k < 2; k++)
            if (c[k].id == a->local_id)
                seen[k]++;
    }
    for (int k = 0; k < 2; k++)
        VT_CHECK(seen[k] == c[k].open, "iteration visits each container once");
}
void harness(void)
{
    pdcid_t pdc = PDCinit("p");
    pdcid_t cp  = PDCprop_create(PDC_CONT_CREATE, pdc);
    p.id        = PDCprop_create(PDC_OBJ_CREATE, pdc);
    p.open      = 1;
    VT_CHECK(cp > 0 && p.id > 0 && cp != p.id, "property lists are created");
    for (int k = 0; k < 2; k++) {
        c[k].name[0] = (char)('A' + k);
        c[k].name[1] = (char)vt_range(1, 127);
        c[k].meta    = next_meta = vt_u64();
        c[k].life    = (int)vt_bool();
        PDCprop_set_cont_lifetime(cp, (pdc_lifetime_t)c[k].life);
        if (k == 1) {
            refuse     = 1;
            pdcid_t id = PDCcont_create(c[k].name, cp);
            VT_CHECK(id == 0, "a refused container is not created");
            refuse = 0;
        }
        c[k].id   = PDCcont_create(c[k].name, cp);
        c[k].open = 1;
        VT_CHECK(c[k].id > 0 && c[1].id != c[0].id, "a container is created");
    }
    PDCprop_close(cp);
    prop_set();
    create();
    for (int s = 0; s < STEPS; s++) {
        int    op = (int)vt_fork(vt_range(0, 5));
        perr_t r;
        int    k;
        if (op == 0)
            create();
        else if (op == 1 && p.open)
            prop_set();
        else if (op == 2 && p.open) {
            r      = PDCprop_close(p.id);
            p.open = 0;
            VT_CHECK(r >= 0, "properties are closed");
        }
        else if (op == 3) {
            k = (int)vt_fork(vt_bool());
            r = PDCcont_close(c[k].id);
            VT_CHECK((r >= 0) == c[k].open, "a container is closed once");
            c[k].open = 0;
        }
        else if (op == 4 && no > 0) {
            k = (int)vt_fork(vt_range(0, (uint64_t)no - 1));
            r = PDCobj_close(o[k].id);
            VT_CHECK((r >= 0) == o[k].open, "an object is closed once");
            o[k].open = 0;
        }
        else if (op == 5 && no > 0) {
            k              = (int)vt_fork(vt_range(0, (uint64_t)no - 1));
            int      nd    = (int)vt_fork(vt_range(1, 3));
            uint64_t d[3];
            for (int i = 0; i < nd; i++)
                d[i] = vt_u64();
            refuse   = (int)vt_fork(vt_bool());
            to_reset = o[k].open && nd == (int)o[k].nd ? k : -1;
            r        = PDCobj_set_dims(o[k].id, nd, d);
            VT_CHECK((r >= 0) == (to_reset >= 0 && !refuse), "dimensions are changed when the object is open, their number fits and the servers agree");
            if (r >= 0)
                for (int i = 0; i < nd; i++)
                    o[k].d[i] = d[i];
            refuse = 0;
        }
        else
            continue;
    }
    check();
    iterate();
    perr_t r = PDCclose(pdc);
    VT_CHECK(r >= 0, "everything can be closed");
    VT_REACH("history");

}
