/* The server's half of the wire formats, compiled the way the server is. */
#ifndef IS_PDC_SERVER
#define IS_PDC_SERVER 1
#endif
#include "src/server/pdc_server_region/pdc_server_region_transfer.c"
#include "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c"
