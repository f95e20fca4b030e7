/* CBMC side of vt.h plus empty bodies for logging. */
#include <stdint.h>
uint64_t vt_in_log;
