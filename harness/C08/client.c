/* The client's side of the same RPCs */
#include "vt_rpc.h"
#include "src/api/pdc_client_connect.c"
#include "src/api/pdc_region/pdc_region_transfer.c"
void vt_client_boot(int servers)
{
    static hg_class_t   cls;
    static hg_context_t ctx;
    pdc_server_num_g      = servers;
    pdc_nclient_per_server_g = 1;
    send_context_g        = &ctx;
    ctx.cls               = &cls;
    debug_server_id_count = (int *)calloc((size_t)servers, sizeof(int));
    pdc_server_info_g     = (struct _pdc_server_info *)calloc((size_t)servers, sizeof(struct _pdc_server_info));
    for (int i = 0; i < servers; i++)
        pdc_server_info_g[i].addr_valid = 1;
    transfer_request_register_id_g                 = PDC_transfer_request_register(&cls);
    transfer_request_all_register_id_g             = PDC_transfer_request_all_register(&cls);
    transfer_request_metadata_query_register_id_g  = PDC_transfer_request_metadata_query_register(&cls);
    transfer_request_metadata_query2_register_id_g = PDC_transfer_request_metadata_query2_register(&cls);
    transfer_request_status_register_id_g          = PDC_transfer_request_status_register(&cls);
    transfer_request_wait_all_register_id_g        = PDC_transfer_request_wait_all_register(&cls);
    transfer_request_wait_register_id_g            = PDC_transfer_request_wait_register(&cls);
}
