#include "boot.h"
#include "../C16/model.h"
#include "../C19/tags_model.h"
#include "../C20/cont_model.h"

/* any container that exists */
static int any_cont(void)
{
    int c = (int)vt_fork(vt_range(0, (uint64_t)nC - 1));
    vt_assume(C[c].live);
    return c;
}
static void one(int op)
{
    uint8_t v[8];
    if (op == 0) { /* an object of one of the names, the second time with another time step */
        int nm = (int)vt_fork(vt_range(0, NAMES - 1));
        create(nm, any(nm, 0, 0, "") >= 0, 0, "", 1 + nm);
    }
    else if (op == 1) {
        create_cont((int)vt_fork(vt_range(2, 3)));
    }
    else if (op == 2) { /* delete an object */
        int i = (int)vt_fork(vt_range(0, (uint64_t)nO - 1));
        if (vt_fork(vt_range(0, 1)))
            remove_by_id(O[i].id);
        else
            remove_by_name(O[i].nm, O[i].ts);
    }
    else if (op == 3) { /* members of a container */
        int       c = any_cont();
        int       n = (int)vt_fork(vt_range(1, 3));
        uint64_t *req = (uint64_t *)malloc(sizeof(uint64_t) * (size_t)n);
        for (int i = 0; i < n; i++)
            req[i] = 1 + vt_range(0, 1000), in_cont[c][n_in[c]++] = req[i];
        VT_CHECK(PDC_Server_container_add_objs(n, req, C[c].id) == SUCCEED, "objects can be added to containers that exist");
        free(req);
    }
    else if (op == 4) { /* one member less */
        int c = any_cont();
        if (n_in[c]) {
            uint64_t id = in_cont[c][0];
            VT_CHECK(PDC_Server_container_del_objs(1, &id, C[c].id) == SUCCEED, "objects can be removed from containers that exist");
            for (int j = 0; j < n_in[c]; j++)
                if (in_cont[c][j] == id) {
                    in_cont[c][j] = in_cont[c][--n_in[c]];
                    break;
                }
        }
    }
    else if (op == 5) {
        int c = any_cont();
        VT_CHECK(PDC_Server_container_add_tags(C[c].id, "xyz") == SUCCEED, "tags can be added while there is room");
        strcat(ctags[c], "xyz");
    }
    else if (op == 6) {
        int      t = any_target();
        int      big = (int)vt_fork(vt_range(0, 1));
        uint32_t size = big ? 4 : 1;
        for (uint32_t i = 0; i < size; i++)
            v[i] = vt_u8();
        add(t, (int)vt_fork(vt_range(0, 1)), big ? PDC_INT : PDC_CHAR, size, v);
    }
    else if (op == 7) {
        int t = any_target();
        del(t, (int)vt_fork(vt_range(0, 1)));
    }
    else
        remove_cont(any_cont());
}

void
harness(void)
{
    uint8_t v[8] = {7};
    int     s;
    start();
#ifdef BASE
    create(0, 0, 0, "", 1);
    create(1, 0, 0, "", 2); /* its name hashes alike */
    create_cont(2);
    create_cont(3);
    add(0, 0, PDC_CHAR, 1, v);
    add(CONT, 1, PDC_CHAR, 1, v);
#endif
    for (s = 0; s < BEFORE; s++) {
        int op = (int)vt_fork(vt_range(OPS_LO, OPS_HI));
        vt_assume((op < 2 || op == 6 || op == 7 || nO > 0) && ((op < 3) || op == 6 || op == 7 || nC > 0) && ((op != 6 && op != 7) || nO + nC > 0));
        one(op);
    }
    reboot();
    check_all();
    check_list_all();
    check_containers();
    check_gets();
    for (s = 0; s < AFTER; s++) {
        int op = (int)vt_fork(vt_range(0, 8));
        vt_assume((op != 2 || nO > 0) && (op < 3 || op == 6 || op == 7 || nC > 0) && ((op != 6 && op != 7) || nO + nC > 0));
        one(op);
        if (op != 0 && op != 1) {
                    check_gets();
        }
        check_all();
        check_list_all();
        check_containers();
        VT_REACH("after");
    }
    if (AGAIN) {
        reboot();
        check_all();
        check_list_all();
        check_containers();
    }
    VT_REACH("end");
}
