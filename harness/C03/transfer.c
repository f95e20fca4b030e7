/* Region transfers through the public client API, against a model of the data servers: a write puts exactly the local
 * region's cells into the remote region of the object, a read brings them back, nothing else changes. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_id_pkg.h"
#include "pdc_obj.h"
#include "pdc_obj_pkg.h"
#include "pdc_prop_pkg.h"
#include "pdc_region.h"
#include "pdc_region_pkg.h"
#include "pdc_interface.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_server_region_transfer_metadata_query.h"
#define CELLS (N0 * N1 * N2)
#ifndef OBJS
#define OBJS 1
#endif
#define REQS 24

int             pdc_server_num_g = SRV, pdc_client_mpi_rank_g = 0;
uint32_t        PDC_get_client_data_server(void) { return SRV - 1; }
static const uint64_t N[3] = {N0, N1, N2};

/* ---- data servers: each keeps the cells it was sent */
static uint8_t store[SRV][OBJS][CELLS * UNIT];
static struct { pdcid_t id; uint32_t server; int access, obj, done, waited, asked; uint64_t o[3], n[3]; char *buf; int *users; } rq[REQS];
static int nrq, eager;

static int obj_index(pdcid_t id)
{
    VT_CHECK(id >= 5000 && id < 5000 + OBJS, "requests name an existing object");
    return (int)(id - 5000);
}
static void apply(int r)
{
    uint64_t i, j, k, b;
    char *   p = rq[r].buf;
    if (rq[r].done)
        return;
    rq[r].done = 1;
    for (i = 0; i < rq[r].n[0]; i++)
        for (j = 0; j < rq[r].n[1]; j++)
            for (k = 0; k < rq[r].n[2]; k++)
                for (b = 0; b < UNIT; b++, p++) {
                    uint8_t *c = &store[rq[r].server][rq[r].obj][(((rq[r].o[0] + i) * N1 + rq[r].o[1] + j) * N2 + rq[r].o[2] + k) * UNIT + b];
                    if (rq[r].access == PDC_WRITE)
                        *c = (uint8_t)*p;
                    else
                        *p = (char)*c;
                }
}
static uint64_t record(pdcid_t obj, uint32_t server, int obj_ndim, const uint64_t *dims, int ndim, const uint64_t *off, const uint64_t *len, size_t unit, int access, char *buf)
{
    uint64_t t = 1;
    VT_CHECK(server < SRV, "requests go to an existing server");
    VT_CHECK(obj_ndim == DIM && ndim == DIM && unit == UNIT, "a request describes the object as it is");
    VT_CHECK(nrq < REQS, "no more requests than pieces");
    rq[nrq].obj = obj_index(obj), rq[nrq].server = server, rq[nrq].access = access, rq[nrq].buf = buf;
    for (int d = 0; d < 3; d++) {
        rq[nrq].o[d] = d < DIM ? off[d] : 0;
        rq[nrq].n[d] = d < DIM ? len[d] : 1;
        VT_CHECK(d >= DIM || dims[d] == N[d], "a request describes the object as it is");
        VT_CHECK(rq[nrq].n[d] >= 1 && rq[nrq].o[d] < N[d] && rq[nrq].n[d] <= N[d] - rq[nrq].o[d], "every piece lies inside the object");
        t *= rq[nrq].n[d];
    }
    rq[nrq].id = 900 + (pdcid_t)nrq;
    nrq++;
    return t * UNIT;
}
perr_t PDC_Client_transfer_request(void *buf, pdcid_t obj, uint32_t server, int obj_ndim, uint64_t *dims, int ndim, uint64_t *off, uint64_t *len, size_t unit, pdc_access_t access, pdcid_t *id)
{
    record(obj, server, obj_ndim, dims, ndim, off, len, unit, access, buf);
    *id = rq[nrq - 1].id;
    if (eager)
        apply(nrq - 1);
    return SUCCEED;
}
perr_t PDC_Client_transfer_request_all(int n, pdc_access_t access, uint32_t server, char *bulk, hg_size_t size, uint64_t *ids)
{
    transfer_request_all_data d;
    uint64_t                  at = 0;
    d.n_objs = n;
    parse_bulk_data(bulk, &d, access); /* the server's own parser */
    for (int i = 0; i < n; i++) {
        char *where = access == PDC_WRITE ? d.data_buf[i] : bulk + at; /* reads are answered back to back */
        at += record(d.obj_id[i], server, d.obj_ndim[i], d.obj_dims[i], d.remote_ndim[i], d.remote_offset[i], d.remote_length[i], d.unit[i], access, where);
        ids[i] = rq[nrq - 1].id;
    }
    VT_CHECK(access == PDC_WRITE || at <= size, "a bulk buffer has room for all answers");
    for (int i = nrq - n; i < nrq; i++)
        if (eager)
            apply(i);
    return SUCCEED;
}
static int find(pdcid_t id, uint32_t server)
{
    int i;
    for (i = 0; i < nrq && !(rq[i].id == id && rq[i].server == server); i++)
        ;
    VT_CHECK(i < nrq, "a request is asked about at the server it was sent to");
    return i;
}
static void finish(int r)
{
    VT_CHECK(!rq[r].waited, "a request is waited for once");
    rq[r].waited = 1;
    apply(r);
}
perr_t PDC_Client_transfer_request_wait(pdcid_t id, uint32_t server, int access) { (void)access; finish(find(id, server)); return SUCCEED; }
perr_t PDC_Client_transfer_request_wait_all(int n, pdcid_t *ids, uint32_t server)
{
    for (int i = 0; i < n; i++)
        finish(find(ids[i], server));
    return SUCCEED;
}
perr_t PDC_Client_transfer_request_status(pdcid_t id, uint32_t server, pdc_transfer_status_t *st)
{
    int r = find(id, server);
    if (!eager && !rq[r].asked) {
        rq[r].asked = 1;
        *st         = PDC_TRANSFER_STATUS_PENDING;
        return SUCCEED;
    }
    apply(r);
    rq[r].waited = 1;
    *st          = PDC_TRANSFER_STATUS_COMPLETE;
    return SUCCEED;
}
/* ---- metadata server: the real one */
perr_t PDC_Client_transfer_request_metadata_query(char *buf, uint64_t size, int n, uint32_t server, uint8_t is_write, uint64_t *out_size, uint64_t *id)
{
    char *copy = vt_dup(buf, size);
    (void)server;
    *id = transfer_request_metadata_query_parse(n, copy, is_write, out_size);
    free(copy);
    return SUCCEED;
}
perr_t PDC_Client_transfer_request_metadata_query2(char *buf, uint64_t size, uint64_t id, uint32_t server)
{
    char *b = NULL;
    (void)server;
    transfer_request_metadata_query_lookup_query_buf(id, &b);
    VT_CHECK(b != NULL, "the answer to a placement query is kept until it is fetched");
    memcpy(buf, b, size);
    free(b);
    return SUCCEED;
}

/* ---- the user */
static struct pdc_id_list     ids;
static struct _pdc_obj_info   oi[OBJS];
static struct pdc_obj_info    op[OBJS];
static struct _pdc_obj_prop   pp;
static struct pdc_obj_prop    pub;
static pdc_metadata_t         md[OBJS];
static pdcid_t                oid[OBJS];
static uint8_t                last[OBJS][CELLS * UNIT], written[OBJS][CELLS];
typedef struct { int obj, access; uint64_t o[3], n[3], lo[3], t; uint8_t *buf, *was; size_t len; pdcid_t id; struct pdc_region_info lr, rr; uint64_t ln[3]; } xfer;

static void box(uint64_t *o, uint64_t *n)
{
    for (int d = 0; d < 3; d++) {
        uint64_t k = N[d] * (N[d] + 1) / 2, v = vt_fork(vt_range(0, k - 1)), c = 0;
        for (o[d] = 0; o[d] < N[d]; o[d]++) {
            if (v < c + N[d] - o[d])
                break;
            c += N[d] - o[d];
        }
        n[d] = v - c + 1;
#ifdef MINN
        if (d == 0)
            vt_assume(n[d] >= MINN);
#endif
    }
}
/* position in the user's buffer of the region's cell (i,j,k) */
static uint64_t at(const xfer *x, uint64_t i, uint64_t j, uint64_t k)
{
#if LDIM == 1
    return x->lo[0] + (i * x->n[1] + j) * x->n[2] + k;
#else
    return ((x->lo[0] + i) * N1 + x->lo[1] + j) * N2 + x->lo[2] + k;
#endif
}
static void make(xfer *x, int obj, int access)
{
    uint64_t i;
    pdcid_t  l, r;
    memset(x, 0, sizeof(*x));
    x->obj = obj, x->access = access;
    box(x->o, x->n);
    x->t = x->n[0] * x->n[1] * x->n[2];
#if LDIM == 1
    x->lo[0] = vt_fork(vt_range(0, 1));
    x->ln[0] = x->t;
    x->len   = (x->lo[0] + x->t) * UNIT;
#else
    for (int d = 0; d < 3; d++) {
        x->lo[d] = x->n[d] < N[d] && vt_fork(vt_range(0, 1)) ? N[d] - x->n[d] : 0;
        x->ln[d] = x->n[d];
    }
    x->len = CELLS * UNIT;
#endif
    x->buf = (uint8_t *)malloc(x->len);
    x->was = (uint8_t *)malloc(x->len);
    for (i = 0; i < x->len; i++)
        x->was[i] = x->buf[i] = access == PDC_WRITE ? vt_u8() : 0x77;
    x->lr.ndim = LDIM, x->lr.offset = x->lo, x->lr.size = x->ln;
    x->rr.ndim = DIM, x->rr.offset = x->o, x->rr.size = x->n;
    l     = PDC_id_register(PDC_REGION, &x->lr);
    r     = PDC_id_register(PDC_REGION, &x->rr);
    x->id = PDCregion_transfer_create(x->buf, (pdc_access_t)access, oid[obj], l, r);
    VT_CHECK(PDC_dec_ref(l) == 0 && PDC_dec_ref(r) == 0, "regions may be closed once the request exists");
}
static void wrote(const xfer *x)
{
    for (uint64_t i = 0; i < x->n[0]; i++)
        for (uint64_t j = 0; j < x->n[1]; j++)
            for (uint64_t k = 0; k < x->n[2]; k++) {
                uint64_t c = ((x->o[0] + i) * N1 + x->o[1] + j) * N2 + x->o[2] + k;
                memcpy(&last[x->obj][c * UNIT], x->was + at(x, i, j, k) * UNIT, UNIT);
                written[x->obj][c] = 1;
            }
}
static void check(const xfer *x)
{
    uint8_t inside[CELLS + 2];
    memset(inside, 0, sizeof(inside));
    if (x->access == PDC_READ)
        for (uint64_t i = 0; i < x->n[0]; i++)
            for (uint64_t j = 0; j < x->n[1]; j++)
                for (uint64_t k = 0; k < x->n[2]; k++) {
                    uint64_t c = ((x->o[0] + i) * N1 + x->o[1] + j) * N2 + x->o[2] + k, a = at(x, i, j, k);
                    inside[a] = 1;
                    if (written[x->obj][c])
                        VT_CHECK(memcmp(x->buf + a * UNIT, &last[x->obj][c * UNIT], UNIT) == 0, "a read brings back what was written last to each cell");
                }
    for (uint64_t a = 0; a < x->len / UNIT; a++)
        if (!inside[a])
            VT_CHECK(memcmp(x->buf + a * UNIT, x->was + a * UNIT, UNIT) == 0, "the user's buffer changes only inside the local region of a read");
}
static void done(xfer *x)
{
    check(x);
    free(x->buf);
    free(x->was);
    VT_CHECK(PDCregion_transfer_close(x->id) == SUCCEED, "a finished request can be closed");
}
static void go(xfer *x, int mode)
{
    pdc_transfer_status_t st = PDC_TRANSFER_STATUS_PENDING;
    int                   tries;
    if (mode == 1 || mode == 4)
        VT_CHECK(PDCregion_transfer_start_all(&x->id, 1) == SUCCEED, "a request can be started");
    else
        VT_CHECK(PDCregion_transfer_start(x->id) == SUCCEED, "a request can be started");
    if (pub.consistency == PDC_CONSISTENCY_POSIX)
        return;
    switch (mode) {
    case 0:
    case 4:
        VT_CHECK(PDCregion_transfer_wait(x->id) == SUCCEED, "a started request can be waited for");
        break;
    case 1:
    case 3:
        VT_CHECK(PDCregion_transfer_wait_all(&x->id, 1) == SUCCEED, "a started request can be waited for");
        break;
    default:
        for (tries = 0; tries < 12 && st != PDC_TRANSFER_STATUS_COMPLETE; tries++)
            VT_CHECK(PDCregion_transfer_status(x->id, &st) == SUCCEED, "the status of a request can be asked for");
        VT_CHECK(st == PDC_TRANSFER_STATUS_COMPLETE, "a request completes once its servers have");
    }
    if (mode < 2)
        VT_CHECK(PDCregion_transfer_wait(x->id) == SUCCEED, "waiting again for a finished request is harmless");
}

void
harness(void)
{
    static uint64_t dims[3] = {N0, N1, N2};
    static xfer     x[4];
    int             i, mode;
    pdc_id_list_g = &ids;
    PDC_register_type(PDC_REGION, NULL);
    PDC_register_type(PDC_TRANSFER_REQUEST, NULL);
    PDC_register_type(PDC_OBJ, NULL);
    transfer_request_metadata_query_init(SRV, NULL);
    pub.ndim = DIM, pub.dims = dims, pub.type = UNIT == 1 ? PDC_CHAR : UNIT == 2 ? PDC_INT16 : UNIT == 8 ? PDC_DOUBLE : PDC_INT;
#ifdef ONE_MODE
    pub.consistency = PDC_CONSISTENCY_EVENTUAL;
#else
    pub.consistency = vt_fork(vt_range(0, 1)) ? PDC_CONSISTENCY_POSIX : PDC_CONSISTENCY_EVENTUAL;
#endif
    pp.obj_prop_pub = &pub;
    for (i = 0; i < OBJS; i++) {
        oi[i].obj_info_pub       = &op[i];
        oi[i].obj_pt             = &pp;
        oi[i].metadata           = &md[i];
        op[i].meta_id            = 5000 + (pdcid_t)i;
        op[i].metadata_server_id = (uint32_t)i % SRV;
        md[i].region_partition   = PART;
        md[i].data_server_id     = (uint32_t)(SRV - 1 - i % SRV);
        oid[i]                   = PDC_id_register(PDC_OBJ, &oi[i]);
    }
#ifndef ONE_MODE
    eager = vt_fork(vt_range(0, 1));
#endif
#ifdef BATCH
    /* two writes at once, then two reads and a write at once */
#ifdef SAME
    make(&x[0], 0, PDC_WRITE);
#else
    make(&x[0], 1, PDC_WRITE);
#endif
    make(&x[1], 0, PDC_WRITE);
    {
        pdcid_t b[3];
#ifdef SAME /* concurrent writes to one cell have no order */
        for (i = 0; i < 3; i++)
            if (!(x[0].o[i] < x[1].o[i] + x[1].n[i] && x[1].o[i] < x[0].o[i] + x[0].n[i]))
                break;
        vt_assume(i < 3);
#endif
        b[0] = x[0].id, b[1] = x[1].id;
        VT_CHECK(PDCregion_transfer_start_all(b, 2) == SUCCEED, "requests can be started together");
        if (pub.consistency != PDC_CONSISTENCY_POSIX)
            VT_CHECK(PDCregion_transfer_wait_all(b, 2) == SUCCEED, "requests can be waited for together");
        for (i = 0; i < 2; i++) {
            wrote(&x[i]);
            done(&x[i]);
        }
        make(&x[0], 0, PDC_READ);
        make(&x[1], OBJS - 1, PDC_READ);
        b[0] = x[0].id, b[1] = x[1].id;
        VT_CHECK(PDCregion_transfer_start_all(b, 2) == SUCCEED, "requests can be started together");
        if (pub.consistency != PDC_CONSISTENCY_POSIX)
            VT_CHECK(PDCregion_transfer_wait_all(b, 2) == SUCCEED, "requests can be waited for together");
        for (i = 0; i < 2; i++)
            done(&x[i]);
    }
#else
#ifdef ONE_MODE
    mode = (int)vt_fork(vt_range(2, 3));
#else
    mode = (int)vt_fork(vt_range(0, pub.consistency == PDC_CONSISTENCY_POSIX ? 1 : 4));
#endif
    for (i = 0; i < NW; i++) {
        make(&x[0], 0, PDC_WRITE);
        go(&x[0], mode);
        wrote(&x[0]);
        done(&x[0]);
    }
    make(&x[0], 0, PDC_READ);
    go(&x[0], mode);
    done(&x[0]);
#endif
    for (i = 0; i < OBJS; i++)
        VT_CHECK(oi[i].local_transfer_request_head == NULL && oi[i].local_transfer_request_size == 0, "finished requests are taken off their object");
    for (i = 0; i < nrq; i++)
        VT_CHECK(rq[i].waited, "every request sent is waited for");
    VT_REACH("end");
}
