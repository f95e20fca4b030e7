/* Every RPC message: decoding what was encoded gives back every field, and reads exactly the bytes written. */
#include "vt.h"
#include "pdc_client_server_common.h"
#include "pdc_transforms_common.h"
#include "pdc_analysis_and_transforms_common.h"
#include "messages.h"

static unsigned len0, nstr;

static char *
mkstr(void)
{
    unsigned i, n = (len0 + nstr++) % 3;
    char *   s = (char *)malloc(n + 1);
    for (i = 0; i < n; i++)
        s[i] = (char)vt_range(1, 255);
    s[n] = 0;
    return s;
}
static void fill_pdc_kvtag_t(pdc_kvtag_t *a)
{
    a->name  = mkstr();
    a->size  = (uint32_t)vt_fork(vt_range(0, 3));
    a->type  = (pdc_c_var_type_t)(int8_t)vt_u8();
    a->value = malloc(a->size + 1);
    for (unsigned i = 0; i < a->size; i++)
        ((char *)a->value)[i] = (char)vt_u8();
}
static int eq_pdc_kvtag_t(pdc_kvtag_t *a, pdc_kvtag_t *b)
{
    return strcmp(a->name, b->name) == 0 && a->size == b->size && a->type == b->type &&
           (a->size == 0 || memcmp(a->value, b->value, a->size) == 0);
}
static void fill_pdc_histogram_t(pdc_histogram_t *a)
{
    a->dtype = (pdc_var_type_t)vt_i32();
    a->nbin  = (int)vt_fork(vt_range(0, 2));
    { uint64_t v = vt_u64(); memcpy(&a->incr, &v, 8); }
    a->range = (double *)malloc(sizeof(double) * 2 * (a->nbin + 1));
    a->bin   = (uint64_t *)malloc(sizeof(uint64_t) * (a->nbin + 1));
    for (int i = 0; i < a->nbin; i++) {
        ((uint64_t *)a->range)[2 * i]     = vt_u64();
        ((uint64_t *)a->range)[2 * i + 1] = vt_u64();
        a->bin[i]                         = vt_u64();
    }
}
static int eq_pdc_histogram_t(pdc_histogram_t *a, pdc_histogram_t *b)
{
    return a->dtype == b->dtype && a->nbin == b->nbin && memcmp(&a->incr, &b->incr, 8) == 0 &&
           (a->nbin == 0 || (memcmp(a->range, b->range, 16 * a->nbin) == 0 && memcmp(a->bin, b->bin, 8 * a->nbin) == 0));
}

#define NUM(f) { uint64_t v_ = vt_u64(); memcpy(&a->f, &v_, sizeof(a->f)); }
#define STR(f) a->f = mkstr();
#define SUB(T, f) fill_##T(&a->f);
#define HIST(f) fill_pdc_histogram_t(&a->f);
#define ARR(f) for (unsigned i_ = 0; i_ < sizeof(a->f); i_++) a->f[i_] = (i_ < 3) ? (char)vt_u8() : 0;
#define OPT(f, n) NUM(f)
#define X(T) static void fill_##T(T *a) { F_##T }
MESSAGES(X)
#undef NUM
#undef OPT
#undef STR
#undef SUB
#undef HIST
#undef ARR
#undef X
#define NUM(f) && a->f == b->f
#define STR(f) && strcmp(a->f, b->f) == 0
#define SUB(T, f) && eq_##T(&a->f, &b->f)
#define HIST(f) && (a->has_hist != 1 || eq_pdc_histogram_t(&a->f, &b->f))
#define ARR(f) && memcmp(a->f, b->f, 4) == 0
#define OPT(f, n) && (a->n == 0 || a->f == b->f)
#define X(T) static int eq_##T(T *a, T *b) { return 1 F_##T; }
MESSAGES(X)
#undef X

static void fill_pdc_query_xfer_t(pdc_query_xfer_t *a)
{
    int i;
    a->query_id = vt_i32(); a->manager = vt_i32(); a->client_id = vt_i32(); a->n_unique_obj = vt_i32(); a->query_op = vt_i32();
    a->get_op = vt_i32(); a->next_server_id = vt_i32(); a->prev_server_id = vt_i32();
    fill_region_info_transfer_t(&a->region);
    a->n_constraints = (int)vt_fork(vt_range(0, 2));
    a->n_combine_ops = a->n_constraints ? (int)vt_fork(vt_range(0, 2)) : 0;
    a->combine_ops   = (int *)malloc(4 * 3);
    a->constraints   = (pdc_query_constraint_t *)calloc(3, sizeof(pdc_query_constraint_t));
    for (i = 0; i < a->n_combine_ops; i++)
        a->combine_ops[i] = vt_i32();
    for (i = 0; i < a->n_constraints; i++) {
        a->constraints[i].obj_id = vt_u64();
        a->constraints[i].op     = (pdc_query_op_t)vt_u8();
        a->constraints[i].type   = (pdc_var_type_t)vt_u8();
        uint64_t v = vt_u64();
        memcpy(&a->constraints[i].value, &v, 8);
        a->constraints[i].is_range = vt_i32();
        a->constraints[i].value2   = 2.5;
    }
}
static int eq_pdc_query_xfer_t(pdc_query_xfer_t *a, pdc_query_xfer_t *b)
{
    return a->query_id == b->query_id && a->manager == b->manager && a->client_id == b->client_id && a->n_unique_obj == b->n_unique_obj &&
           a->query_op == b->query_op && a->get_op == b->get_op && a->next_server_id == b->next_server_id &&
           a->prev_server_id == b->prev_server_id && a->n_constraints == b->n_constraints && a->n_combine_ops == b->n_combine_ops &&
           eq_region_info_transfer_t(&a->region, &b->region) &&
           (a->n_combine_ops == 0 || memcmp(a->combine_ops, b->combine_ops, 4 * a->n_combine_ops) == 0) &&
           (a->n_constraints == 0 || memcmp(a->constraints, b->constraints, sizeof(pdc_query_constraint_t) * a->n_constraints) == 0);
}

static uint8_t wire[8192];
#define RUN(T) \
    static void run_##T(void) \
    { \
        T a, b; struct vt_proc e = {HG_ENCODE, wire, 0, sizeof(wire)}, d = {HG_DECODE, wire, 0, 0}; \
        memset(&a, 0, sizeof(a)); memset(&b, 0x5a, sizeof(b)); \
        fill_##T(&a); \
        VT_CHECK(hg_proc_##T(&e, &a) == HG_SUCCESS, "encoding " #T " succeeds"); \
        d.cap = e.pos; \
        VT_CHECK(hg_proc_##T(&d, &b) == HG_SUCCESS, "decoding " #T " succeeds"); \
        VT_CHECK(d.pos == e.pos, "decoding " #T " reads exactly the bytes that encoding wrote"); \
        VT_CHECK(eq_##T(&a, &b), "every field of " #T " survives the wire"); \
    }
#define X(T) RUN(T)
MESSAGES(X)
RUN(pdc_kvtag_t)
RUN(pdc_histogram_t)
RUN(pdc_query_xfer_t)
#undef X

void
harness(void)
{
    unsigned i = 0, n = 0, k;
#define X(T) n++;
    MESSAGES(X)
#undef X
    k    = (unsigned)vt_fork(vt_range(0, n + 2));
    len0 = (unsigned)vt_fork(vt_range(0, 2));
#define X(T) if (k == i++) run_##T();
    MESSAGES(X)
#undef X
    if (k == i++)
        run_pdc_kvtag_t();
    if (k == i++)
        run_pdc_histogram_t();
    if (k == i++)
        run_pdc_query_xfer_t();
    VT_REACH("end");
}
