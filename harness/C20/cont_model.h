#ifndef OPLO
#define OPLO 0
#endif
#ifndef NMAX
#define NMAX 5
#define NID 4
#endif
static uint64_t in_cont[4][64];
static int      n_in[4];
static char     ctags[4][TAG_LEN_MAX + 8];

static void check_containers(void)
{
    for (int c = 0; c < nC; c++) {
        pdc_cont_hash_table_entry_t *e = NULL;
        int                          k, n = 0;
        PDC_Server_find_container_by_name(NAME[C[c].nm], &e);
        VT_CHECK((e != NULL) == (cont_named(C[c].nm) >= 0), "a container is found by its name exactly while it exists");
        if (!C[c].live)
            continue;
        VT_CHECK(e->cont_id == C[c].id && strcmp(e->cont_name, NAME[C[c].nm]) == 0, "a container found by name has that name");
        for (k = 0; k < e->n_obj; k++)
            if (e->obj_ids[k] != 0) {
                int m = 0, h = 0;
                n++;
                for (int i = 0; i < e->n_obj; i++)
                    m += e->obj_ids[i] == e->obj_ids[k];
                for (int i = 0; i < n_in[c]; i++)
                    h += in_cont[c][i] == e->obj_ids[k];
                VT_CHECK(m == h, "a container holds the objects that were added and not removed");
            }
        VT_CHECK(n == n_in[c] && e->n_obj - e->n_deleted == n_in[c], "a container holds the objects that were added and not removed");
        VT_CHECK(strcmp(e->tags, ctags[c]) == 0, "a container keeps the tags that were added");
    }
}
