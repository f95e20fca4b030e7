/* The metadata server, driven through the functions its requests call, next to a list of what it was told. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include "pdc_server_metadata.h"
#include "pdc_server.h"
#include "pdc_interface.h"
#ifndef NAMES
#define NAMES 3
#endif
#ifndef NOBJ
#define NOBJ 8
#endif
/* two of the names have the same hash, as have the two with a longer beginning in common */
static const char *const NAME[] = {"Aa", "B@", "Aac", "q"};
#ifndef WHOLE_SERVER
int       pdc_server_size_g = SRV, pdc_server_rank_g = 0, is_restart_g = 0, is_debug_g = 0, is_hash_table_init_g = 0, use_rocksdb_g = 0, use_sqlite3_g = 0;
double    total_mem_usage_g;
#endif
static struct { uint64_t id, cont; char name[4], app[2]; int live, nm, ts, user, ndim; uint64_t dims[4]; } O[NOBJ];
static int nO;

#ifndef WHOLE_SERVER
static void start(void)
{
    pdc_server_rank_g = (int)vt_fork(vt_range(0, SRV - 1));
    pdc_id_seq_g      = PDC_SERVER_ID_INTERVEL * ((uint64_t)pdc_server_rank_g + 1);
    PDC_Server_init_hash_table();
    n_metadata_g = 0;
}
#endif
static void check_id(uint64_t id)
{
    VT_CHECK(id != 0, "a new object or container has an id");
    VT_CHECK(PDC_get_server_by_obj_id(id, SRV) == (uint32_t)pdc_server_rank_g && PDC_Server_has_metadata(id), "the id leads back to the server that made it");
    for (int i = 0; i < nO; i++)
        VT_CHECK(O[i].id != id, "an id is never given twice");
}
static int same(int i, int nm, int ts, int user, const char *app)
{
    return O[i].live && O[i].nm == nm && O[i].ts == ts && (user <= 0 || O[i].user <= 0 || O[i].user == user) && (!app[0] || !O[i].app[0] || O[i].app[0] == app[0]);
}
static int any(int nm, int ts, int user, const char *app)
{
    for (int i = 0; i < nO; i++)
        if (same(i, nm, ts, user, app))
            return i;
    return -1;
}
/* creates an object and returns its index, or -1 when the server refuses */
static int create(int nm, int ts, int user, const char *app, int ndim)
{
    gen_obj_id_in_t  in;
    gen_obj_id_out_t out;
    int              dup = any(nm, ts, user, app);
    memset(&in, 0, sizeof(in));
    in.data.obj_name = NAME[nm], in.data.app_name = app, in.data.tags = "t", in.data.data_location = "/d", in.data.user_id = user, in.data.time_step = ts;
    in.data.ndim = (size_t)ndim, in.data.dims0 = 10, in.data.dims1 = 20, in.data.dims2 = 30, in.data.dims3 = 40, in.data.cont_id = 77;
    in.hash_value = PDC_get_hash_by_name(NAME[nm]);
    out.obj_id    = 1;
    PDC_insert_metadata_to_hash_table(&in, &out);
    if (dup >= 0) {
        VT_CHECK(out.obj_id == 0, "an object that exists is not created again");
        return -1;
    }
    check_id(out.obj_id);
    O[nO].id = out.obj_id, O[nO].live = 1, O[nO].nm = nm, O[nO].ts = ts, O[nO].user = user, O[nO].app[0] = app[0], O[nO].ndim = ndim;
    return nO++;
}
static void check_meta(int i, pdc_metadata_t *m)
{
    VT_CHECK(m->obj_id == O[i].id && strcmp(m->obj_name, NAME[O[i].nm]) == 0 && m->time_step == O[i].ts && m->user_id == O[i].user && m->app_name[0] == O[i].app[0] && m->ndim == (size_t)O[i].ndim,
             "an object keeps the properties it was created with");
    for (int d = 0; d < 4; d++)
        VT_CHECK(m->dims[d] == (d < O[i].ndim ? (uint64_t)(d + 1) * 10 : 0), "an object keeps the properties it was created with");
}
static int index_of(uint64_t id)
{
    for (int i = 0; i < nO; i++)
        if (O[i].id == id)
            return i;
    return -1;
}
static int nlive(void)
{
    int n = 0;
    for (int i = 0; i < nO; i++)
        n += O[i].live;
    return n;
}
static void remove_by_id(uint64_t id)
{
    metadata_delete_by_id_in_t  in = {id};
    metadata_delete_by_id_out_t out;
    int                         i = index_of(id);
    out.ret = 5;
    PDC_Server_delete_metadata_by_id(&in, &out);
    VT_CHECK((out.ret == 1) == (i >= 0 && O[i].live), "a delete by id succeeds exactly for objects that exist");
    if (i >= 0)
        O[i].live = 0;
}
static int remove_by_name(int nm, int ts)
{
    metadata_delete_in_t  in;
    metadata_delete_out_t out;
    pdc_metadata_t *      m;
    int                   i, gone = -1;
    in.obj_name = (char *)NAME[nm], in.time_step = ts, in.hash_value = PDC_get_hash_by_name(NAME[nm]);
    out.ret = 5;
    PDC_delete_metadata_from_hash_table(&in, &out);
    if (any(nm, ts, 0, "") < 0) {
        VT_CHECK(out.ret == -1, "a delete by name fails for objects that do not exist");
        return -1;
    }
    VT_CHECK(out.ret == 1, "a delete by name succeeds for objects that exist");
    for (i = 0; i < nO; i++) /* which of several is deleted is up to the server */
        if (O[i].live) {
            PDC_Server_get_local_metadata_by_id(O[i].id, &m);
            if (m == NULL) {
                VT_CHECK(gone < 0 && same(i, nm, ts, 0, ""), "a delete by name deletes one object of that name");
                gone = i;
            }
        }
    VT_CHECK(gone >= 0, "a deleted object is gone");
    O[gone].live = 0;
    return gone;
}
/* all lookups agree with the list */
static void check_all(void)
{
    pdc_metadata_t *m;
    for (int i = 0; i < nO; i++) {
        m = (pdc_metadata_t *)&m;
        PDC_Server_get_local_metadata_by_id(O[i].id, &m);
        VT_CHECK((m != NULL) == O[i].live, "an object is found by its id exactly while it exists");
        if (m)
            check_meta(i, m);
        VT_CHECK((find_metadata_by_id(O[i].id) != NULL) == O[i].live, "an object is found by its id exactly while it exists");
    }
    for (int nm = 0; nm < NAMES; nm++)
        for (int ts = 0; ts < 2; ts++) {
            uint32_t h = PDC_get_hash_by_name(NAME[nm]);
            PDC_Server_search_with_name_timestep(NAME[nm], h, (uint32_t)ts, &m);
            VT_CHECK((m != NULL) == (any(nm, ts, 0, "") >= 0), "an object is found by name and time step exactly while it exists");
            if (m) {
                int i = index_of(m->obj_id);
                VT_CHECK(i >= 0 && same(i, nm, ts, 0, ""), "an object found by name has that name");
            }
        }
}
static int search(metadata_query_transfer_in_t *q, uint64_t *ids, int max)
{
    uint32_t n = 0;
    void **  buf;
    VT_CHECK(PDC_Server_get_partial_query_result(q, &n, &buf) == SUCCEED && (int)n <= max, "a search finds every object once");
    for (uint32_t i = 0; i < n; i++)
        ids[i] = ((pdc_metadata_t *)buf[i])->obj_id;
    free(buf);
    return (int)n;
}
static void check_list_all(void)
{
    metadata_query_transfer_in_t q;
    uint64_t                     ids[NOBJ];
    int                          n, k;
    memset(&q, 0, sizeof(q));
    q.is_list_all = 1;
    n = search(&q, ids, NOBJ);
    VT_CHECK(n == nlive(), "a list of all objects holds every object once");
    for (k = 0; k < n; k++) {
        int i = index_of(ids[k]);
        VT_CHECK(i >= 0 && O[i].live, "a list of all objects holds every object once");
        for (int l = 0; l < k; l++)
            VT_CHECK(ids[l] != ids[k], "a list of all objects holds every object once");
    }
}
/* ---- containers */
static struct { uint64_t id; int nm, live; uint64_t *obj; int n; } C[4];
static int nC;
static int cont_named(int nm)
{
    for (int i = 0; i < nC; i++)
        if (C[i].live && C[i].nm == nm)
            return i;
    return -1;
}
static int create_cont(int nm)
{
    gen_cont_id_in_t  in;
    gen_cont_id_out_t out;
    int               c = cont_named(nm);
    in.cont_name = NAME[nm], in.hash_value = PDC_get_hash_by_name(NAME[nm]);
    VT_CHECK(PDC_Server_create_container(&in, &out) == SUCCEED, "a container can be created");
    if (c >= 0) {
        VT_CHECK(out.cont_id == C[c].id, "a container of a name that exists is that container");
        return c;
    }
    for (int i = 0; i < nC; i++)
        VT_CHECK(C[i].id != out.cont_id, "containers of different names are different containers");
    check_id(out.cont_id);
    C[nC].id = out.cont_id, C[nC].nm = nm, C[nC].live = 1;
    return nC++;
}
static void remove_cont(int c)
{
    metadata_delete_by_id_in_t  in = {C[c].id};
    metadata_delete_by_id_out_t out;
    out.ret = 5;
    PDC_Server_delete_metadata_by_id(&in, &out);
    VT_CHECK((out.ret == 1) == C[c].live, "a delete by id succeeds exactly for containers that exist");
    C[c].live = 0;
}
