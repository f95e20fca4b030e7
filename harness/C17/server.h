/* The client library with the servers replaced: each call to a server is answered from what the harness holds, and may be
 * refused where a real server may refuse it. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_id_pkg.h"
#include "pdc.h"
#include "pdc_obj.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont.h"
#include "pdc_cont_pkg.h"
#include "pdc_prop.h"
#include "pdc_prop_pkg.h"
#include "pdc_region.h"
#include "pdc_region_pkg.h"
#include "pdc_interface.h"
#include "pdc_malloc.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_analysis_pkg.h"
#include "pdc_transforms_pkg.h"

struct pdc_id_list *pdc_id_list_g;
int                 pdc_client_mpi_rank_g;
static int          refuse;   /* the servers refuse the next call */
static uint64_t     next_meta; /* the identity the servers will give next */
static uint32_t     next_data, next_md;
static struct { char name[8]; uint64_t cont; uint64_t meta; pdcid_t prop; } sent; /* what the servers were told last */

perr_t PDC_Client_init() { return SUCCEED; }
perr_t PDC_Client_finalize() { return SUCCEED; }
perr_t PDC_iterator_end() { return SUCCEED; }
perr_t PDC_analysis_end() { return SUCCEED; }
perr_t PDC_transform_end() { return SUCCEED; }
int    PDC_check_transform(pdc_obj_transform_t t, struct pdc_region_info *r) { (void)t, (void)r; return 0; }
_pdc_loci_t PDC_get_execution_locus() { return CLIENT_MEMORY; }
perr_t PDC_Client_create_cont_id(const char *n, pdcid_t p, pdcid_t *id)
{
    (void)n, (void)p;
    if (refuse)
        return FAIL;
    *id = next_meta;
    return SUCCEED;
}
perr_t PDC_Client_create_cont_id_mpi(const char *n, pdcid_t p, pdcid_t *id) { return PDC_Client_create_cont_id(n, p, id); }
perr_t PDC_Client_send_name_recv_id(const char *n, uint64_t cont, pdcid_t prop, pdcid_t *id, uint32_t *d, uint32_t *m)
{
    if (refuse)
        return FAIL;
    strncpy(sent.name, n, 7);
    sent.cont = cont;
    sent.prop = prop;
    *id = next_meta, *d = next_data, *m = next_md;
    return SUCCEED;
}
static char same(const char *a, const char *b) { return a == NULL || b == NULL ? a == b : strcmp(a, b) == 0; }
