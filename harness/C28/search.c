#include "../C16/model.h"
static char otags[NOBJ][TAG_LEN_MAX + 16];
static char oapp[NOBJ][8], oloc[NOBJ][8];
static const char *const APP[] = {" ", "a", "bcd"};
static const char *const TAG[] = {" ", "ab", " s", "t,a", "q"};

static void check_props(void)
{
    pdc_metadata_t *m;
    for (int i = 0; i < nO; i++)
        if (O[i].live) {
            PDC_Server_get_local_metadata_by_id(O[i].id, &m);
            VT_CHECK(m != NULL, "an object is found by its id exactly while it exists");
            VT_CHECK(strcmp(m->tags, otags[i]) == 0, "an object has the tags that were added, in order");
            VT_CHECK(strcmp(m->app_name, oapp[i]) == 0 && m->time_step == O[i].ts && strcmp(m->data_location, oloc[i]) == 0, "an object has the properties it was last given");
            VT_CHECK(strcmp(m->obj_name, NAME[O[i].nm]) == 0 && m->user_id == O[i].user && m->ndim == (size_t)O[i].ndim && m->dims[0] == (O[i].ndim ? 10 : 0), "other properties of an object are as they were");
        }
}
static void look(void)
{
    metadata_query_transfer_in_t q;
    uint64_t                     ids[NOBJ];
    int                          n, i, k, app, tag, nm;
    memset(&q, 0, sizeof(q));
    app = (int)vt_fork(vt_range(0, 2));
    tag = (int)vt_fork(vt_range(0, 4));
    nm  = (int)vt_fork(vt_range(0, NAMES));
    q.user_id        = (int)vt_range(0, 3);
    q.app_name       = APP[app];
    q.obj_name       = nm == NAMES ? " " : NAME[nm];
    q.time_step_from = (int)vt_range(0, 4);
    q.time_step_to   = (int)vt_range(0, 4);
    q.ndim           = vt_range(0, 3);
    q.tags           = TAG[tag];
    n = search(&q, ids, NOBJ);
    for (i = 0; i < nO; i++) {
        int want = O[i].live && (q.user_id == 0 || O[i].user == q.user_id) && (app == 0 || strcmp(oapp[i], APP[app]) == 0) && (nm == NAMES || O[i].nm == nm) &&
                   (q.time_step_from == 0 || q.time_step_to == 0 || (O[i].ts >= q.time_step_from && O[i].ts <= q.time_step_to)) && (q.ndim == 0 || O[i].ndim == (int)q.ndim) &&
                   (tag == 0 || strstr(otags[i], TAG[tag]) != NULL);
        int got = 0;
        for (k = 0; k < n; k++)
            got += ids[k] == O[i].id;
        VT_CHECK(got == want, "a search finds exactly the objects that satisfy all its constraints");
    }
    for (k = 0; k < n; k++)
        VT_CHECK(index_of(ids[k]) >= 0, "a search finds exactly the objects that satisfy all its constraints");
}
static int fits(int i, const char *t) { return strlen(otags[i]) + 1 + strlen(t) < TAG_LEN_MAX; }
static void add_tag(int i, const char *t)
{
    metadata_add_tag_in_t  in;
    metadata_add_tag_out_t out;
    int                    ok = O[i].live && t[0] && strcmp(t, " ") != 0;
    in.obj_id = O[i].id, in.hash_value = PDC_get_hash_by_name(NAME[O[i].nm]), in.new_tag = t;
    out.ret = 5;
    PDC_Server_add_tag_metadata(&in, &out);
    VT_CHECK((out.ret == 1) == (ok && fits(i, t)), "a tag is added to an object that exists while there is room");
    if (out.ret == 1)
        strcat(strcat(otags[i], ","), t);
}
static void update(int i, int ts, const char *app, const char *loc, const char *t)
{
    metadata_update_in_t  in;
    metadata_update_out_t out;
    memset(&in, 0, sizeof(in));
    in.obj_id = O[i].id, in.hash_value = PDC_get_hash_by_name(NAME[O[i].nm]);
    in.new_metadata.time_step = ts, in.new_metadata.app_name = app, in.new_metadata.data_location = loc, in.new_metadata.tags = t, in.new_metadata.obj_name = "other";
    out.ret = 5;
    PDC_Server_update_metadata(&in, &out);
    VT_CHECK((out.ret == 1) == (O[i].live && (strcmp(t, " ") == 0 || fits(i, t))), "an object that exists can be updated");
    if (out.ret == 1) {
        if (ts != -1)
            O[i].ts = ts;
        if (strcmp(app, " ") != 0)
            strcpy(oapp[i], app), O[i].app[0] = app[0];
        if (strcmp(loc, " ") != 0)
            strcpy(oloc[i], loc);
        if (strcmp(t, " ") != 0)
            strcat(strcat(otags[i], ","), t);
    }
}

void
harness(void)
{
    start();
    for (int i = 0; i < OBJ; i++) {
        int nm = i % NAMES, ts = i < FREE ? (int)vt_range(0, 3) : i, user = i < FREE ? (int)vt_range(0, 2) : 1, nd = 1 + i % 2;
        int k  = create(nm, ts, user, APP[1 + i % 2], nd);
        if (k >= 0)
            strcpy(otags[k], "t"), strcpy(oloc[k], "/d"), strcpy(oapp[k], APP[1 + i % 2]);
    }
#ifdef MAKE
    {
        static char      t[TAG_LEN_MAX + 64];
        gen_obj_id_in_t  in;
        gen_obj_id_out_t out;
        pdc_metadata_t * m;
        int              which = (int)vt_fork(vt_range(0, 4)), n;
        static const size_t LIM[] = {sizeof(m->obj_name), sizeof(m->app_name), sizeof(m->tags), sizeof(m->data_location), sizeof(((pdc_cont_hash_table_entry_t *)0)->cont_name)};
        n = (int)LIM[which] - 3 + (int)vt_fork(vt_range(0, 9));
        memset(t, 'x', (size_t)n);
        if (which == 4) {
            gen_cont_id_in_t             cin;
            gen_cont_id_out_t            cout;
            pdc_cont_hash_table_entry_t *e = NULL;
            cin.cont_name = t, cin.hash_value = PDC_get_hash_by_name(t);
            VT_CHECK(PDC_Server_create_container(&cin, &cout) == SUCCEED && (cout.cont_id != 0) == (n < (int)LIM[4]), "a container is created when its name fits");
            PDC_Server_find_container_by_name(t, &e);
            VT_CHECK((e != NULL) == (n < (int)LIM[4]) && (!e || (e->cont_id == cout.cont_id && strcmp(e->cont_name, t) == 0)), "a container is found by its name exactly while it exists");
            VT_REACH("end");
            return;
        }
        PDC_Server_search_with_name_timestep(t, PDC_get_hash_by_name(t), 0, &m);
        VT_CHECK(m == NULL, "no object is found before it is created");
        PDC_Server_search_with_name_hash(t, PDC_get_hash_by_name(t), &m);
        VT_CHECK(m == NULL, "no object is found before it is created");
        memset(&in, 0, sizeof(in));
        in.data.obj_name = which == 0 ? t : "n", in.data.app_name = which == 1 ? t : "a", in.data.tags = which == 2 ? t : "t", in.data.data_location = which == 3 ? t : "/d";
        in.data.ndim = 1, in.data.dims0 = 10, in.hash_value = PDC_get_hash_by_name(in.data.obj_name);
        out.obj_id = 1;
        PDC_insert_metadata_to_hash_table(&in, &out);
        VT_CHECK((out.obj_id != 0) == (n < (int)LIM[which]), "an object is created when its name and properties fit");
        if (out.obj_id) {
            PDC_Server_search_with_name_timestep(in.data.obj_name, in.hash_value, 0, &m);
            VT_CHECK(m && m->obj_id == out.obj_id, "an object is found by name and time step exactly while it exists");
            PDC_Server_get_local_metadata_by_id(out.obj_id, &m);
            VT_CHECK(m && strcmp(m->obj_name, in.data.obj_name) == 0 && strcmp(m->app_name, in.data.app_name) == 0 && strcmp(m->tags, in.data.tags) == 0 && strcmp(m->data_location, in.data.data_location) == 0, "an object keeps the properties it was created with");
        }
        {
            metadata_delete_in_t  din;
            metadata_delete_out_t dout;
            din.obj_name = in.data.obj_name, din.time_step = 0, din.hash_value = in.hash_value;
            dout.ret = 5;
            PDC_delete_metadata_from_hash_table(&din, &dout);
            VT_CHECK((dout.ret == 1) == (out.obj_id != 0), "a delete by name succeeds exactly for objects that exist");
        }
    }
#endif
#ifdef LONG
    {
        static char t[TAG_LEN_MAX + 64];
        int         n = (int)vt_fork(vt_range(LONG, TAG_LEN_MAX + 8)), which = (int)vt_fork(vt_range(0, 1));
        memset(t, 'x', (size_t)n);
        if (which)
            add_tag(0, t);
        else
            update(0, -1, " ", " ", t);
        check_props();
    }
#endif
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vt_fork(vt_range(0, LOOK ? 2 : 3)), i = (int)vt_fork(vt_range(0, (uint64_t)nO - 1));
        if (op == 0)
            add_tag(i, TAG[vt_fork(vt_range(0, 2))]);
        else if (op == 1) {
            int a = (int)vt_fork(vt_range(0, 2));
            int l = (int)vt_fork(vt_range(0, 1));
            int t = (int)vt_fork(vt_range(0, 2));
            update(i, (int)vt_range(0, 3) - 1, APP[a], l ? "/" : " ", TAG[t]);
        }
        else if (op == 2)
            remove_by_id(O[i].id);
        else {
            int a = (int)vt_fork(vt_range(1, 2));
            int k = create(O[i].nm, (int)vt_range(0, 2), 1, APP[a], 1);
            if (k >= 0)
                strcpy(otags[k], "t"), strcpy(oloc[k], "/d"), strcpy(oapp[k], APP[a]);
        }
        check_props();
        check_all();
    }
    if (LOOK)
        look();
    VT_REACH("end");
}
