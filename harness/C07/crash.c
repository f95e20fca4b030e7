/* The machine stops while a checkpoint is written: the restart finds the state of the last complete one or of this one. */
#include "boot.h"
#include "../C16/model.h"
#include "../C19/tags_model.h"
#include "../C20/cont_model.h"

void
harness(void)
{
    uint8_t         v[8] = {7};
    pdc_metadata_t *m;
    int             n, late;
    start();
    create(0, 0, 0, "", 1);
    create_cont(2);
    add(0, 0, PDC_CHAR, 1, v);
    VT_CHECK(PDC_Server_checkpoint() == SUCCEED, "the server saves its state");
    create(1, 0, 0, "", 2);
    create_cont(3);
    fs_left = (int)vt_fork(vt_range(0, WRITES));
    PDC_Server_checkpoint();
    n       = fs_left; /* what is left shows that all was written */
    fs_left = -1, fs_down = 0;
    boot(1);
    PDC_Server_get_local_metadata_by_id(O[1].id, &m);
    late = m != NULL;
    if (n > 0)
        VT_CHECK(late, "a complete checkpoint is the one that is restored");
    if (!late)
        O[1].live = 0, C[1].live = 0;
    check_all();
    check_list_all();
    check_containers();
    check_gets();
    VT_REACH("end");
}
