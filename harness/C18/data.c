/* The server's locks and mappings */
#define IS_PDC_SERVER 1
#define PDC_recv_nhits vt_server_PDC_recv_nhits
#define PDC_recv_coords vt_server_PDC_recv_coords
#include "src/server/pdc_server_region/pdc_server_data.c"
