/* The server's RPC handlers for region transfers, the requests' status list, and the region placement queries. */
#ifndef IS_PDC_SERVER
#define IS_PDC_SERVER 1
#endif
#include "vt_rpc.h"
/* the server's empty versions of functions that the client has */
#define PDC_Client_get_data_from_server_shm_cb vt_unused_1
#define PDC_recv_read_coords_data vt_unused_x5
#define PDC_Client_recv_bulk_storage_meta_cb vt_unused_x4
#define PDC_Client_recv_bulk_storage_meta vt_unused_x3
#define PDC_Client_query_read_complete vt_unused_x2
#define PDC_Client_work_done_cb vt_unused_x1
#include "src/server/pdc_client_server_common.c"
#include "src/server/pdc_server_region/pdc_server_region_transfer.c"
#include "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c"
pdc_transfer_request_status *vt_status_list(void) { return transfer_request_status_list; }
