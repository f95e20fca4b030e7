#include "../C16/model.h"
#include "tags_model.h"

void
harness(void)
{
    uint8_t v[8];
    start();
#ifdef MANY
    for (int i = 0; i < MANY; i++) {
        O[0].live = 0, nO = 0;
        create(0, i, 0, "", 1);
        v[0] = (uint8_t)(i & 1);
        nT = 0;
        add(0, 0, PDC_CHAR, 1, v);
    }
    {
        pdc_kvtag_t in;
        uint32_t    n, i, j;
        uint64_t *  ids;
        v[0] = 0;
        in.name = "k", in.type = PDC_CHAR, in.size = 1, in.value = v;
        VT_CHECK(PDC_Server_get_kvtag_query_result(&in, &n, &ids) == SUCCEED && n == (MANY + 1) / 2, "a search finds every object that has the tag");
        for (i = 0; i < n; i++)
            for (j = 0; j < i; j++)
                VT_CHECK(ids[i] != ids[j], "a search finds every object once");
    }
    VT_REACH("end");
    return;
#endif
    create(0, 0, 0, "", 1);
    create(1, 0, 0, "", 1); /* its name hashes alike */
    if (vt_fork(vt_range(0, 1)))
        create_cont(0);
    for (int s = 0; s < STEPS; s++) {
        int op  = (int)vt_fork(vt_range(0, s == 0 ? 0 : s == STEPS - 1 ? 3 : 2));
        int t   = op == 3 ? 0 : op == 2 ? (int)vt_fork(vt_range(0, (uint64_t)nO - 1)) : any_target();
        int key = op == 2 ? 0 : (int)vt_fork(vt_range(0, 1));
        if (op == 0) {
            int      big  = (int)vt_fork(vt_range(0, 1));
            uint32_t size = big ? 4 : 2;
            for (uint32_t i = 0; i < size; i++)
                v[i] = vt_u8();
            add(t, key, big ? PDC_INT : PDC_INT16, size, v);
        }
        else if (op == 1)
            del(t, key);
        else if (op == 3) {
            uint32_t size = vt_fork(vt_range(0, 1)) ? 4 : 2;
            int      star = (int)vt_fork(vt_range(0, 1));
            for (uint32_t i = 0; i < size; i++)
                v[i] = vt_u8();
            query(KEY[key], star, vt_fork(vt_range(0, 1)) ? PDC_INT : PDC_INT16, size, v);
        }
        else
            remove_by_id(O[t].id);
        check_gets();
    }
    VT_REACH("end");
}
