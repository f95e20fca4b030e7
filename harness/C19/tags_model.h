#define NT 8
static const char *const KEY[] = {"k", "kx"};
static struct { int live, tgt, key, type; uint32_t size; uint8_t val[8]; } T[NT];
static int nT;
/* targets from CONT on are containers, the others objects */
#define CONT 100
static uint64_t tgt_id(int t) { return t < CONT ? O[t].id : C[t - CONT].id; }
static int tgt_live(int t) { return t < CONT ? O[t].live : C[t - CONT].live; }
static uint32_t tgt_hash(int t) { return PDC_get_hash_by_name(NAME[t < CONT ? O[t].nm : C[t - CONT].nm]); }
static int equal(const uint8_t *a, const uint8_t *b, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return 0;
    return 1;
}
static void check_gets(void)
{
    for (int t = nO ? 0 : CONT; t < CONT + nC; t = t == nO - 1 ? CONT : t + 1)
        for (int k = 0; k < 2; k++) {
            metadata_get_kvtag_in_t  in;
            metadata_get_kvtag_out_t out;
            int                      have = 0, found = 0;
            memset(&out, 0, sizeof(out));
            in.obj_id = tgt_id(t), in.hash_value = tgt_hash(t), in.key = (char *)KEY[k];
            PDC_Server_get_kvtag(&in, &out);
            VT_CHECK((out.ret == 1) == tgt_live(t), "tags can be read from what exists");
            if (!tgt_live(t))
                continue;
            for (int i = 0; i < nT; i++)
                if (T[i].live && T[i].tgt == t && T[i].key == k) {
                    have = 1;
                    if (out.kvtag.value && out.kvtag.size == T[i].size && out.kvtag.type == T[i].type && strcmp(out.kvtag.name, KEY[k]) == 0)
                        found |= equal((uint8_t *)out.kvtag.value, T[i].val, T[i].size);
                }
            VT_CHECK(!have || found, "a tag is read back with the type, size and value it was given");
            VT_CHECK(have || (out.kvtag.size == 0 && out.kvtag.value == NULL), "a tag that is not there has no value");
        }
}
static void add(int t, int key, int type, uint32_t size, const uint8_t *val)
{
    metadata_add_kvtag_in_t in;
    metadata_add_tag_out_t  out;
    uint8_t *               v = (uint8_t *)malloc(size);
    in.obj_id = tgt_id(t), in.hash_value = tgt_hash(t);
    in.kvtag.name = (char *)vt_dup(KEY[key], strlen(KEY[key]) + 1), in.kvtag.type = (int8_t)type, in.kvtag.size = size, in.kvtag.value = v;
    memcpy(v, val, size);
    out.ret = 5;
    PDC_Server_add_kvtag(&in, &out);
    VT_CHECK((out.ret == 1) == tgt_live(t), "tags can be added to what exists");
    if (out.ret == 1) {
        T[nT].live = 1, T[nT].tgt = t, T[nT].key = key, T[nT].type = type, T[nT].size = size;
        memcpy(T[nT++].val, val, size);
    }
    free(in.kvtag.name); /* the request's memory is given back */
    free(v);
}
static void del(int t, int key)
{
    metadata_get_kvtag_in_t in;
    metadata_add_tag_out_t  out;
    in.obj_id = tgt_id(t), in.hash_value = tgt_hash(t), in.key = (char *)KEY[key];
    out.ret = 5;
    PDC_Server_del_kvtag(&in, &out);
    VT_CHECK((out.ret == 1) == tgt_live(t), "tags can be deleted from what exists");
    for (int i = 0; i < nT; i++) /* of several with one key the oldest goes */
        if (T[i].live && T[i].tgt == t && T[i].key == key) {
            T[i].live = 0;
            break;
        }
}
/* does the object have a tag the query is looking for */
static int has(int t, const char *name, int star, int type, uint32_t size, const uint8_t *val)
{
    int r = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].live && T[i].tgt == t && (star ? strncmp(KEY[T[i].key], name, strlen(name)) == 0 : strcmp(KEY[T[i].key], name) == 0) && T[i].type == type && T[i].size == size)
            r |= equal(T[i].val, val, size);
    return r;
}
static void query(const char *name, int star, int type, uint32_t size, const uint8_t *val)
{
    pdc_kvtag_t in;
    uint32_t    n;
    uint64_t *  ids;
    uint8_t *   v = (uint8_t *)malloc(size);
    char        pat[8];
    strcpy(pat, name);
    if (star)
        strcat(pat, "*");
    memcpy(v, val, size);
    in.name = pat, in.type = (int8_t)type, in.size = size, in.value = v;
    VT_CHECK(PDC_Server_get_kvtag_query_result(&in, &n, &ids) == SUCCEED, "tags can be searched for");
    for (int t = 0; t < nO; t++)
        if (O[t].live) {
            int want = has(t, name, star, type, size, val), got = 0;
            for (uint32_t i = 0; i < n; i++)
                got |= ids[i] == O[t].id;
            VT_CHECK(want == got, "a search for a tag finds exactly the objects that have it");
        }
    for (uint32_t i = 0; i < n; i++) {
        int k = index_of(ids[i]);
        VT_CHECK(k >= 0 && O[k].live, "a search for a tag finds objects only");
    }
    free(ids);
    free(v);
}
/* any object or container */
static int any_target(void)
{
    int t = (int)vt_fork(vt_range(0, (uint64_t)(nO + nC) - 1));
    return t < nO ? t : CONT + t - nO;
}
