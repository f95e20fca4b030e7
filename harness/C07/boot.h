/* Starting and stopping the whole server, with files in memory. */
#define WHOLE_SERVER
#include "vt.h"
#include <mpi.h>
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include "pdc_server_metadata.h"
#include "pdc_server_data.h"
#include "pdc_server.h"
#include "pdc_interface.h"
#include "pdc_server_region_transfer_metadata_query.h"
#include "files.h"
#include "pdc_utlist.h"
extern int            pdc_server_rank_g, pdc_server_size_g, is_restart_g, is_hash_table_init_g;
extern char           pdc_server_tmp_dir_g[];
extern data_server_region_t *dataserver_region_g;
perr_t PDC_Server_init(int, hg_class_t **, hg_context_t **);
char *vt_getenv(const char *n) { return strcmp(n, "PDC_CHECKPOINT_TMPFS") == 0 ? (char *)TMPFS : NULL; }
void  PDC_mkdir(const char *d) { (void)d; }
int   gethostname(char *n, size_t l) { (void)l; strcpy(n, "h"); return 0; }
void HG_Cleanup(void) {}
hg_class_t *  HG_Init_opt(const char *s, hg_bool_t l, const struct hg_init_info *i) { (void)s; (void)l; (void)i; return (hg_class_t *)8; }
hg_return_t   HG_Class_set_handle_create_callback(hg_class_t *c, hg_return_t (*f)(hg_handle_t, void *), void *a) { (void)c; (void)f; (void)a; return HG_SUCCESS; }
hg_context_t *HG_Context_create(hg_class_t *c) { (void)c; return (hg_context_t *)16; }
perr_t        PDC_get_self_addr(hg_class_t *c, char *s) { (void)c; strcpy(s, "a"); return SUCCEED; }
void          PDC_Server_dart_init(void) {}
int           PDC_region_server_cache_init(void) { return 0; }
int           MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c)
{
    (void)t; (void)m; (void)u; (void)c;
    for (int i = 0; i < pdc_server_size_g; i++)
        memcpy((char *)r + i * n, s, (size_t)n);
    return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
    (void)n; (void)t; (void)o; (void)root; (void)c;
    *(int *)r = *(const int *)s;
    return 0;
}

/* the memory of the process is as it is when a program starts */
static void boot(int restart)
{
    hg_class_t *  c;
    hg_context_t *x;
    extern uint64_t pdc_id_seq_g;
    extern HashTable *metadata_hash_table_g, *container_hash_table_g;
    strcpy(pdc_server_tmp_dir_g, "/s");
    pdc_id_seq_g = PDC_SERVER_ID_INTERVEL, is_hash_table_init_g = 0, is_restart_g = restart, n_metadata_g = 0;
    metadata_hash_table_g = container_hash_table_g = NULL;
    dataserver_region_g = NULL;
    VT_CHECK(PDC_Server_init(7000, &c, &x) == SUCCEED, "the server starts");
}
static void start(void)
{
    pdc_server_size_g = SRV;
    pdc_server_rank_g = (int)vt_fork(vt_range(0, SRV - 1));
    boot(0);
}
static void reboot(void)
{
    VT_CHECK(PDC_Server_checkpoint() == SUCCEED, "the server saves its state");
    boot(1);
}
