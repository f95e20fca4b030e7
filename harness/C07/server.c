/* The whole server program; its main function is not used. */
#include "pdc_config.h"
#define main vt_server_main
#include "src/server/pdc_server.c"
