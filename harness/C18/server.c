/* The server's handlers of locks and mapped regions */
#ifndef IS_PDC_SERVER
#define IS_PDC_SERVER 1
#endif
#include "vt_rpc.h"
/* the server's empty versions of functions that the client has */
#define PDC_Client_get_data_from_server_shm_cb vt_unused_1
#define PDC_recv_read_coords_data vt_unused_x5
#define PDC_Client_recv_bulk_storage_meta_cb vt_unused_x4
#define PDC_Client_recv_bulk_storage_meta vt_unused_x3
#define PDC_Client_query_read_complete vt_unused_x2
#define PDC_Client_work_done_cb vt_unused_x1
#include "src/server/pdc_client_server_common.c"
void vt_server_boot(void)
{
    static hg_class_t cls;
    PDC_region_lock_register(&cls);
    PDC_region_release_register(&cls);
    PDC_buf_map_register(&cls);
    PDC_buf_unmap_register(&cls);
}
