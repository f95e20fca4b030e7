#include "model.h"
void
harness(void)
{
    start();
#ifdef PRE
    for (int i = 0; i < PRE; i++)
        create(0, i, 1, "a", 1);
#endif
    for (int s = 0; s < STEPS; s++) {
        int op = (int)vt_fork(vt_range(0, 3));
        if (op == 0) {
            const char *app[] = {"", "a", "b"};
            int         nm = (int)vt_fork(vt_range(0, NAMES - 1)), ts = (int)vt_fork(vt_range(0, 1)), user = (int)vt_fork(vt_range(0, USERS));
            create(nm, ts, user, app[USERS ? vt_fork(vt_range(0, 1)) : 0], s % 5);
        }
        else if (op == 1) {
            int i = (int)vt_fork(vt_range(0, (uint64_t)(nO + nC)));
            if (i < nO + nC && i >= nO)
                remove_cont(i - nO);
            else
                remove_by_id(i < nO ? O[i].id : 4711);
        }
        else if (op == 2) {
            int nm = (int)vt_fork(vt_range(0, NAMES - 1)), ts = (int)vt_fork(vt_range(0, 1));
            remove_by_name(nm, ts);
        }
        else
            create_cont(3);
        check_all();
        check_list_all();
    }
    VT_REACH("end");
}
