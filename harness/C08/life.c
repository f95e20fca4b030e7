/* The life of transfer requests: the client's calls, the messages they send and the server's handlers together, with every
 * order in which the network may carry out the bulk transfers between them. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_id_pkg.h"
#include "pdc_obj.h"
#include "pdc_obj_pkg.h"
#include "pdc_prop_pkg.h"
#include "pdc_region.h"
#include "pdc_region_pkg.h"
#include "pdc_interface.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_server_region_transfer_metadata_query.h"
#define MSG 256
#define MAXB 8

void vt_client_boot(int);
struct pdc_transfer_request_status;
void *vt_status_list(void);
perr_t PDC_server_transfer_request_init(void);

/* ---- Mercury: calls are carried out at once, bulk transfers when the schedule says so */
static struct { hg_proc_cb_t in, out; hg_rpc_cb_t cb; } rpc[8];
static int nrpc;
struct hg_handle {
    int      id, refs, answered, called;
    uint8_t  in[MSG], out[MSG];
    hg_cb_t  cb;
    void *   arg;
};
struct hg_bulk { char *p; hg_size_t n; };
static struct { hg_cb_t cb; void *arg; hg_bulk_op_t op; hg_bulk_t far, near; hg_size_t n; } q[MAXB];
static int        nq;
static hg_handle_t call;

static hg_return_t run(hg_proc_cb_t f, hg_proc_op_t op, uint8_t *buf, void *d)
{
    struct vt_proc p;
    p.op = op, p.buf = buf, p.pos = 0, p.cap = MSG;
    return f(&p, d);
}
hg_id_t HG_Register_name(hg_class_t *c, const char *n, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    (void)c, (void)n;
    rpc[nrpc].in = in, rpc[nrpc].out = out, rpc[nrpc].cb = cb;
    return (hg_id_t)nrpc++;
}
hg_class_t *HG_Context_get_class(const hg_context_t *c) { return c->cls; }
hg_return_t HG_Create(hg_context_t *c, hg_addr_t a, hg_id_t id, hg_handle_t *h)
{
    (void)c, (void)a;
    *h         = (hg_handle_t)calloc(1, sizeof(**h));
    (*h)->id   = (int)id;
    (*h)->refs = 2; /* the client's and the server's */
    return HG_SUCCESS;
}
hg_return_t HG_Destroy(hg_handle_t h)
{
    if (--h->refs == 0)
        free(h);
    return HG_SUCCESS;
}
const struct hg_info *HG_Get_info(hg_handle_t h)
{
    static hg_class_t     cls;
    static hg_context_t   ctx;
    static struct hg_info i;
    VT_CHECK(h->refs > 0, "a handle in use exists");
    ctx.cls = i.hg_class = &cls, i.context = &ctx;
    return &i;
}
hg_return_t HG_Get_input(hg_handle_t h, void *in) { return run(rpc[h->id].in, HG_DECODE, h->in, in); }
hg_return_t HG_Free_input(hg_handle_t h, void *in) { (void)in; VT_CHECK(h->refs > 0, "a handle in use exists"); return HG_SUCCESS; }
hg_return_t HG_Get_output(hg_handle_t h, void *out) { return run(rpc[h->id].out, HG_DECODE, h->out, out); }
hg_return_t HG_Free_output(hg_handle_t h, void *out) { (void)h, (void)out; return HG_SUCCESS; }
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out)
{
    (void)cb, (void)arg;
    VT_CHECK(!h->answered, "a call is answered once");
    h->answered = 1;
    return run(rpc[h->id].out, HG_ENCODE, h->out, out);
}
static void deliver(int i)
{
    struct hg_cb_info ci;
    hg_cb_t           cb = q[i].cb;
    memset(&ci, 0, sizeof(ci));
    ci.arg = q[i].arg;
    VT_CHECK(q[i].n <= q[i].far->n && q[i].n <= q[i].near->n, "a bulk transfer fits both buffers");
    if (q[i].op == HG_BULK_PULL)
        memcpy(q[i].near->p, q[i].far->p, q[i].n);
    else
        memcpy(q[i].far->p, q[i].near->p, q[i].n);
    for (nq--; i < nq; i++)
        q[i] = q[i + 1];
    cb(&ci);
}
/* any number of the pending transfers happen, in any order */
static void breathe(void)
{
    while (nq) {
        int i = (int)vt_fork(vt_range(0, (uint64_t)nq));
        if (i == nq)
            break;
        deliver(i);
    }
}
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    VT_CHECK(call == NULL, "one call at a time");
    breathe();
    h->cb = cb, h->arg = arg;
    VT_CHECK(run(rpc[h->id].in, HG_ENCODE, h->in, in) == HG_SUCCESS, "a message can be encoded");
    call = h;
    return rpc[h->id].cb(h);
}
hg_return_t HG_Progress(hg_context_t *c, unsigned t)
{
    (void)c, (void)t;
    if (call && call->answered)
        return HG_SUCCESS;
    VT_CHECK(nq > 0, "every call is answered once the transfers it depends on are done");
    deliver((int)vt_fork(vt_range(0, (uint64_t)nq - 1)));
    return HG_SUCCESS;
}
hg_return_t HG_Trigger(hg_context_t *c, unsigned t, unsigned m, unsigned *n)
{
    struct hg_cb_info ci;
    (void)c, (void)t, (void)m;
    *n = 0;
    if (!call || !call->answered)
        return HG_TIMEOUT;
    memset(&ci, 0, sizeof(ci));
    ci.arg = call->arg, ci.info.forward.handle = call;
    {
        hg_handle_t h = call;
        call          = NULL;
        *n            = 1;
        h->cb(&ci);
    }
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **p, const hg_size_t *s, hg_uint8_t f, hg_bulk_t *b)
{
    (void)c, (void)n, (void)f;
    VT_CHECK(n == 1, "bulk buffers are in one piece");
    *b      = (hg_bulk_t)malloc(sizeof(**b));
    (*b)->p = (char *)p[0], (*b)->n = s[0];
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_free(hg_bulk_t b) { free(b); return HG_SUCCESS; }
hg_return_t HG_Bulk_transfer(hg_context_t *c, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t a, hg_bulk_t far, hg_size_t fo, hg_bulk_t near, hg_size_t no, hg_size_t n, hg_op_id_t *id)
{
    (void)c, (void)a, (void)fo, (void)no, (void)id;
    VT_CHECK(nq < MAXB && fo == 0 && no == 0, "as many transfers as requests");
    q[nq].cb = cb, q[nq].arg = arg, q[nq].op = op, q[nq].far = far, q[nq].near = near, q[nq].n = n;
    nq++;
    return HG_SUCCESS;
}

/* ---- storage: an array per object */
static uint8_t store[OBJS][N0];
perr_t PDC_transfer_request_data_write_out(uint64_t obj, int ndim, const uint64_t *dims, struct pdc_region_info *r, void *buf, size_t unit)
{
    (void)ndim, (void)dims;
    VT_CHECK(obj - 5000 < OBJS && unit == 1 && r->offset[0] <= N0 && r->size[0] <= N0 - r->offset[0], "requests lie inside their object");
    memcpy(&store[obj - 5000][r->offset[0]], buf, r->size[0]);
    return SUCCEED;
}
perr_t PDC_transfer_request_data_read_from(uint64_t obj, int ndim, const uint64_t *dims, struct pdc_region_info *r, void *buf, size_t unit)
{
    (void)ndim, (void)dims;
    VT_CHECK(obj - 5000 < OBJS && unit == 1 && r->offset[0] <= N0 && r->size[0] <= N0 - r->offset[0], "requests lie inside their object");
    memcpy(buf, &store[obj - 5000][r->offset[0]], r->size[0]);
    return SUCCEED;
}

/* ---- the user */
static struct pdc_id_list   ids;
static struct _pdc_obj_info oi[OBJS];
static struct pdc_obj_info  op[OBJS];
static struct _pdc_obj_prop pp;
static struct pdc_obj_prop  pub;
static pdc_metadata_t       md[OBJS];
static uint8_t              before[OBJS][N0];
static struct { pdcid_t id; int obj, access, started, over; uint64_t lo, n, zero; uint8_t buf[N0], was[N0]; } x[REQS];

/* a request that is over has done its work */
static void over(int i)
{
    uint64_t c;
    x[i].over = 1;
    for (c = 0; c < N0; c++) {
        int in = c >= x[i].lo && c < x[i].lo + x[i].n;
        if (x[i].access == PDC_WRITE) {
            if (in)
                VT_CHECK(store[x[i].obj][c] == x[i].was[c - x[i].lo], "a write reported complete has reached the server");
        }
        else if (c < x[i].n)
            VT_CHECK(x[i].buf[c] == before[x[i].obj][c + x[i].lo], "a read reported complete has delivered the data");
    }
}
static void start(int from, int to, int together)
{
    pdcid_t b[REQS];
    int     i;
    if (!together)
        for (i = from; i < to; i++)
            VT_CHECK(PDCregion_transfer_start(x[i].id) == SUCCEED, "requests can be started");
    for (i = from; i < to; i++) {
        b[i - from]  = x[i].id;
        x[i].started = 1;
    }
    if (together)
        VT_CHECK(PDCregion_transfer_start_all(b, to - from) == SUCCEED, "requests can be started");
}
static int bound(uint64_t k) { return (int)vt_fork(vt_range(0, k)); }

void
harness(void)
{
    static uint64_t dims[1] = {N0};
    int             i, j, n, s, together;
    pdcid_t         oid[OBJS], l, r, b[REQS];
    pdc_id_list_g = &ids;
    PDC_register_type(PDC_REGION, NULL);
    PDC_register_type(PDC_TRANSFER_REQUEST, NULL);
    PDC_register_type(PDC_OBJ, NULL);
    vt_client_boot(SRV);
    PDC_server_transfer_request_init();
    transfer_request_metadata_query_init(SRV, NULL);
    pub.ndim = 1, pub.dims = dims, pub.type = PDC_CHAR;
    pub.consistency = PDC_CONSISTENCY_EVENTUAL;
    pp.obj_prop_pub = &pub;
    for (i = 0; i < OBJS; i++) {
        oi[i].obj_info_pub = &op[i], oi[i].obj_pt = &pp, oi[i].metadata = &md[i];
        op[i].meta_id           = 5000 + (pdcid_t)i;
        md[i].region_partition  = PART;
        md[i].data_server_id    = (uint32_t)(SRV - 1);
        oid[i]                  = PDC_id_register(PDC_OBJ, &oi[i]);
        for (j = 0; j < N0; j++)
            store[i][j] = before[i][j] = (uint8_t)(50 * i + j + 1);
    }
    for (i = 0; i < REQS; i++) {
        struct pdc_region_info a, c;
        int                    v = FIXED ? 0 : bound(1);
        memset(&a, 0, sizeof(a)), memset(&c, 0, sizeof(c));
        x[i].obj    = i % OBJS;
        x[i].access = (FIXED == 3 ? 0 : FIXED == 2 ? i : bound(1)) ? PDC_READ : PDC_WRITE;
        /* the requests of one object lie in halves of their own */
        x[i].lo = OBJS >= REQS || PER_HALF == 0 ? (uint64_t)v : (uint64_t)((i / OBJS) * PER_HALF);
        x[i].n  = OBJS >= REQS || PER_HALF == 0 ? N0 - (uint64_t)v : PER_HALF;
        for (j = 0; j < N0; j++)
            x[i].buf[j] = x[i].was[j] = vt_u8();
        a.ndim = 1, a.offset = &x[i].zero, a.size = &x[i].n;
        c.ndim = 1, c.offset = &x[i].lo, c.size = &x[i].n;
        l       = PDC_id_register(PDC_REGION, &a);
        r       = PDC_id_register(PDC_REGION, &c);
        x[i].id = PDCregion_transfer_create(x[i].buf, (pdc_access_t)x[i].access, oid[x[i].obj], l, r);
        b[i]    = x[i].id;
    }
    together = bound(1);
    start(0, REQS - LATE, together);
    for (s = 0; s < STEPS; s++) {
        if (LATE && s == 1)
            start(REQS - LATE, REQS, together);
        i = bound(REQS - 1);
        if (!x[i].started)
            continue;
        switch (bound(2)) {
        case 0: {
            pdc_transfer_status_t st = PDC_TRANSFER_STATUS_NOT_FOUND;
            VT_CHECK(PDCregion_transfer_status(x[i].id, &st) == SUCCEED, "the status of a request can be asked for");
            if (x[i].over)
                break;
            VT_CHECK(st == PDC_TRANSFER_STATUS_COMPLETE || st == PDC_TRANSFER_STATUS_PENDING, "a started request is pending or complete");
            if (nq == 0)
                VT_CHECK(st == PDC_TRANSFER_STATUS_COMPLETE, "a request is complete when the servers have nothing left to do");
            if (st == PDC_TRANSFER_STATUS_COMPLETE)
                over(i);
            break;
        }
        case 1:
            VT_CHECK(PDCregion_transfer_wait(x[i].id) == SUCCEED, "a started request can be waited for");
            if (!x[i].over)
                over(i);
            break;
        default:
            for (n = i = 0; i < REQS; i++)
                if (x[i].started && !x[i].over)
                    b[n++] = x[i].id;
            VT_CHECK(PDCregion_transfer_wait_all(b, n) == SUCCEED, "started requests can be waited for together");
            for (i = 0; i < REQS; i++)
                if (x[i].started && !x[i].over)
                    over(i);
        }
    }
    if (STEPS == 1 && LATE)
        start(REQS - LATE, REQS, together);
    for (n = i = 0; i < REQS; i++)
        if (!x[i].over)
            b[n++] = x[i].id;
    VT_CHECK(PDCregion_transfer_wait_all(b, n) == SUCCEED, "started requests can be waited for together");
    while (nq)
        deliver(0);
    for (i = 0; i < REQS; i++) {
        if (!x[i].over)
            over(i);
        VT_CHECK(PDCregion_transfer_close(x[i].id) == SUCCEED, "a finished request can be closed");
    }
    VT_CHECK(vt_status_list() == NULL, "the server forgets requests whose end it has reported");
    for (i = 0; i < OBJS; i++)
        VT_CHECK(oi[i].local_transfer_request_head == NULL && oi[i].local_transfer_request_size == 0, "finished requests are taken off their object");
    VT_REACH("end");
}
