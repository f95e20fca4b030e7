#include "../C16/model.h"
#include "cont_model.h"

void
harness(void)
{
    uint64_t ids[8];
    int      last[2] = {3, COLLIDE};
    start();
    create_cont(last[0]);
    create_cont(0);
#ifdef PROBE
    create_cont(1); /* hashes like name 0 */
#endif
#ifdef PRETAG
    for (int i = 0; i < 2; i++) {
        static char t[1100];
        memset(t, 'a' + i, 1000);
        VT_CHECK(PDC_Server_container_add_tags(C[0].id, t) == SUCCEED, "tags can be added while there is room");
        strcat(ctags[0], t);
    }
#endif
    check_containers();
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vt_fork(vt_range(OPLO, 4)), c = (int)vt_fork(vt_range(0, (uint64_t)nC)), n = op < 2 ? (int)vt_fork(vt_range(1, NMAX)) : 0, i, j;
        uint64_t id = c < nC ? C[c].id : 4711;
        int      live = c < nC && C[c].live;
        if (op == 0) {
            for (i = 0; i < n; i++) {
                ids[i] = 100 + vt_range(0, NID - 1);
            }
            uint64_t *req = (uint64_t *)vt_dup(ids, sizeof(uint64_t) * (size_t)n);
            VT_CHECK((PDC_Server_container_add_objs(n, req, id) == SUCCEED) == live, "objects can be added to containers that exist");
            free(req);
            if (live)
                for (i = 0; i < n; i++)
                    in_cont[c][n_in[c]++] = ids[i];
        }
        else if (op == 1) {
            for (i = 0; i < n; i++)
                ids[i] = 100 + vt_range(0, NID - 1);
            VT_CHECK((PDC_Server_container_del_objs(n, ids, id) == SUCCEED) == live, "objects can be removed from containers that exist");
            if (live)
                for (i = 0; i < n; i++)
                    for (j = 0; j < n_in[c]; j++)
                        if (in_cont[c][j] == ids[i]) {
                            in_cont[c][j] = in_cont[c][--n_in[c]];
                            break;
                        }
        }
        else if (op == 2) {
            if (c < nC)
                remove_cont(c);
        }
        else if (op == 3) {
            create_cont(last[vt_fork(vt_range(0, 1))]);
        }
        else {
            static char t[1100];
            int         len = vt_fork(vt_range(0, 1)) ? 1000 : 3;
            perr_t      r;
            memset(t, 'x', (size_t)len);
            t[len] = 0;
            r = PDC_Server_container_add_tags(id, t);
            VT_CHECK(live || r != SUCCEED, "tags can be added to containers that exist");
            if (live) {
                VT_CHECK(r == SUCCEED || strlen(ctags[c]) + (size_t)len >= TAG_LEN_MAX, "tags can be added while there is room");
                if (r == SUCCEED)
                    strcat(ctags[c], t);
            }
        }
        check_containers();
    }
    VT_REACH("end");
}
