/* The server's metadata module; Bloom filters are built after two objects (instead of 64) and sized for a few. */
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include "pdc_server_metadata.h"
#undef CREATE_BLOOM_THRESHOLD
#define CREATE_BLOOM_THRESHOLD BLOOM_AT
#ifdef ALLOC_BASE
#undef PDC_ALLOC_BASE_NUM
#define PDC_ALLOC_BASE_NUM ALLOC_BASE
#endif
#include "pdc_dablooms.h"
static counting_bloom_t *vt_small_bloom(unsigned int capacity, double rate) { (void)capacity; (void)rate; return new_counting_bloom(4, 0.05); }
#define new_counting_bloom vt_small_bloom
#include "src/server/pdc_server_metadata.c"
