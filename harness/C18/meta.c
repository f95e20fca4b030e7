/* The server's metadata */
#define IS_PDC_SERVER 1
#define find_metadata_by_id vt_find_metadata_by_id
#define PDC_Server_get_obj_metadata vt_get_obj_metadata
#include "src/server/pdc_server_metadata.c"
