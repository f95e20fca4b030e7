/* Opening by name gives exactly the object or container the servers hold, and nothing when they hold none. */
#include "server.h"
static pdc_metadata_t held;
static int            there, cont_there;
static uint64_t       cont_meta;
static uint32_t       md_server;
perr_t PDC_Client_query_metadata_name_timestep(const char *n, int step, pdc_metadata_t **out, uint32_t *m)
{
    VT_CHECK(same(n, "ob") && step == 0, "the servers are asked for the object");
    *m = md_server;
    if (refuse)
        return FAIL;
    *out = NULL;
    if (there) {
        *out = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t));
        memcpy(*out, &held, sizeof(held));
    }
    return SUCCEED;
}
perr_t PDC_Client_query_metadata_name_timestep_agg(const char *n, int step, pdc_metadata_t **out, uint32_t *m) { return PDC_Client_query_metadata_name_timestep(n, step, out, m); }
perr_t PDC_Client_query_container_name(const char *n, uint64_t *id)
{
    VT_CHECK(same(n, "co"), "the servers are asked for the container");
    if (refuse)
        return FAIL;
    *id = cont_there ? cont_meta : 0;
    return SUCCEED;
}
perr_t PDC_Client_query_container_name_col(const char *n, uint64_t *id) { return PDC_Client_query_container_name(n, id); }
void harness(void)
{
    pdcid_t pdc = PDCinit("p");
    there       = (int)vt_fork(vt_bool());
    cont_there  = (int)vt_fork(vt_bool());
    refuse      = (int)vt_fork(vt_bool());
    strcpy(held.obj_name, "ob");
    if (vt_fork(vt_bool())) {
        held.app_name[0] = (char)vt_range(1, 127);
    }
    held.user_id = (int)vt_u32();
    held.obj_id  = vt_u64();
    held.cont_id = vt_u64();
    held.ndim    = (size_t)vt_fork(vt_range(0, 3));
    for (size_t i = 0; i < held.ndim; i++)
        held.dims[i] = vt_u64();
    held.data_type        = (pdc_var_type_t)vt_range(0, 20);
    held.region_partition = (pdc_region_partition_t)vt_range(0, 3);
    held.consistency      = (pdc_consistency_t)vt_range(0, 3);
    held.data_server_id   = vt_u32();
    held.time_step        = 0;
    md_server             = vt_u32();
    cont_meta             = vt_range(1, ~0ULL);

    int     col = (int)vt_fork(vt_bool());
    pdcid_t id = col ? PDCobj_open_col("ob", pdc) : PDCobj_open("ob", pdc), cid = 0;
    VT_CHECK((id != 0) == (there && !refuse), "an object is opened when it exists");
    if (id) {
        struct pdc_obj_info * a = PDCobj_get_info(id);
        struct _pdc_obj_info *b = PDC_obj_get_info(id);
        VT_CHECK(same(a->name, "ob") && a->meta_id == held.obj_id && a->local_id == id && a->metadata_server_id == md_server, "name and identity");
        VT_CHECK(a->obj_pt->ndim == held.ndim && b->obj_pt->obj_prop_pub->ndim == held.ndim, "the number of dimensions");
        for (size_t i = 0; i < held.ndim; i++)
            VT_CHECK(a->obj_pt->dims[i] == held.dims[i] && b->obj_pt->obj_prop_pub->dims[i] == held.dims[i], "the dimensions");
        VT_CHECK(a->obj_pt->type == held.data_type && a->obj_pt->region_partition == held.region_partition && a->obj_pt->consistency == held.consistency, "type, partition and consistency");
        VT_CHECK(b->obj_pt->user_id == (uint32_t)held.user_id && b->obj_pt->time_step == 0 && (held.app_name[0] ? same(b->obj_pt->app_name, held.app_name) : b->obj_pt->app_name == NULL), "user, time step and application");
        VT_CHECK(b->cont->cont_info_pub->meta_id == held.cont_id, "the container");
        VT_CHECK(b->location == PDC_OBJ_GLOBAL && a->server_id == 0, "where the object is known");
        pdcid_t again = PDCobj_open("ob", pdc);
        VT_CHECK(again != 0 && again != id, "each opening has a handle of its own");
        perr_t r = PDCobj_close(id);
        VT_CHECK(r >= 0, "closed");
        a = PDCobj_get_info(again);
        VT_CHECK(a != NULL && a->meta_id == held.obj_id && same(a->name, "ob"), "the other handle stays");
    }
    else
        VT_CHECK(PDC_id_list_null(PDC_OBJ) == 0, "nothing is left of an object that was not opened");
    cid = col ? PDCcont_open_col("co", pdc) : PDCcont_open("co", pdc);
    VT_CHECK((cid != 0) == (cont_there && !refuse), "a container is opened when it exists");
    if (cid) {
        struct _pdc_cont_info *a = PDC_cont_get_info(cid);
        VT_CHECK(same(a->cont_info_pub->name, "co") && a->cont_info_pub->meta_id == cont_meta && a->cont_info_pub->local_id == cid, "the container's description");
    }
    for (obj_handle *h = cid ? PDCobj_iter_start(cid) : NULL; !PDCobj_iter_null(h); h = PDCobj_iter_next(h, cid))
        VT_CHECK(0, "the object belongs to no open container");
    perr_t r = PDCclose(pdc);
    VT_CHECK(r >= 0, "everything can be closed");
    VT_REACH("open");

}
