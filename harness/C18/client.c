/* The client's side of the same calls */
#include "vt_rpc.h"
#define cache_percentage_g vt_client_cache_percentage_g
#include "src/api/pdc_client_connect.c"
void vt_client_boot(void)
{
    static hg_class_t   cls;
    static hg_context_t ctx;
    pdc_server_num_g         = 1;
    pdc_nclient_per_server_g = 1;
    send_context_g           = &ctx;
    ctx.cls                  = &cls;
    debug_server_id_count    = (int *)calloc(1, sizeof(int));
    pdc_server_info_g        = (struct _pdc_server_info *)calloc(1, sizeof(struct _pdc_server_info));
    pdc_server_info_g[0].addr_valid = 1;
    region_lock_register_id_g    = PDC_region_lock_register(&cls);
    region_release_register_id_g = PDC_region_release_register(&cls);
    buf_map_register_id_g        = PDC_buf_map_register(&cls);
    buf_unmap_register_id_g      = PDC_buf_unmap_register(&cls);
}
