/* Mercury: a call's message reaches its handler at once, bulk transfers happen when the schedule says so */
#define MSG 512
#define MAXB 4
static struct { hg_proc_cb_t in, out; hg_rpc_cb_t cb; } rpc[8];
static int nrpc;
struct hg_handle {
    int     id, refs, answered, answer;
    uint8_t in[MSG], out[MSG];
    hg_cb_t cb;
    void *  arg;
};
struct hg_bulk { char *p; hg_size_t n; int refs; };
static struct { hg_cb_t cb; void *arg; hg_bulk_op_t op; hg_bulk_t far, near; hg_size_t n; } q[MAXB];
static int nq;
static hg_return_t run(hg_proc_cb_t f, hg_proc_op_t op, uint8_t *buf, void *d)
{
    struct vt_proc p;
    p.op = op, p.buf = buf, p.pos = 0, p.cap = MSG;
    return f(&p, d);
}
hg_id_t HG_Register_name(hg_class_t *c, const char *n, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    (void)c, (void)n;
    rpc[nrpc].in = in, rpc[nrpc].out = out, rpc[nrpc].cb = cb;
    return (hg_id_t)nrpc++;
}
hg_class_t *HG_Context_get_class(const hg_context_t *c) { return c->cls; }
hg_return_t HG_Addr_dup(hg_class_t *c, hg_addr_t a, hg_addr_t *b) { (void)c; *b = a; return HG_SUCCESS; }
hg_return_t HG_Addr_free(hg_class_t *c, hg_addr_t a) { (void)c, (void)a; return HG_SUCCESS; }
hg_return_t HG_Create(hg_context_t *c, hg_addr_t a, hg_id_t id, hg_handle_t *h)
{
    (void)c, (void)a;
    *h         = (hg_handle_t)calloc(1, sizeof(**h));
    (*h)->id   = (int)id;
    (*h)->refs = 2; /* the client's and the server's */
    return HG_SUCCESS;
}
hg_return_t HG_Destroy(hg_handle_t h)
{
    if (--h->refs == 0)
        free(h);
    return HG_SUCCESS;
}
const struct hg_info *HG_Get_info(hg_handle_t h)
{
    static hg_class_t     cls;
    static hg_context_t   ctx;
    static struct hg_info i;
    VT_CHECK(h->refs > 0, "a handle in use exists");
    ctx.cls = i.hg_class = &cls, i.context = &ctx;
    return &i;
}
hg_return_t HG_Get_input(hg_handle_t h, void *in) { return run(rpc[h->id].in, HG_DECODE, h->in, in); }
hg_return_t HG_Free_input(hg_handle_t h, void *in) { (void)in; VT_CHECK(h->refs > 0, "a handle in use exists"); return HG_SUCCESS; }
hg_return_t HG_Get_output(hg_handle_t h, void *out) { return run(rpc[h->id].out, HG_DECODE, h->out, out); }
hg_return_t HG_Free_output(hg_handle_t h, void *out) { (void)h, (void)out; return HG_SUCCESS; }
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out)
{
    (void)cb, (void)arg;
    VT_CHECK(h->refs > 0 && !h->answered, "a call is answered once");
    h->answered = 1;
    return run(rpc[h->id].out, HG_ENCODE, h->out, out);
}
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **p, const hg_size_t *s, hg_uint8_t f, hg_bulk_t *b)
{
    (void)c, (void)f;
    VT_CHECK(n == 1, "bulk buffers are in one piece");
    *b      = (hg_bulk_t)malloc(sizeof(**b));
    (*b)->p = (char *)p[0], (*b)->n = s[0], (*b)->refs = 1;
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_ref_incr(hg_bulk_t b) { b->refs++; return HG_SUCCESS; }
hg_return_t HG_Bulk_free(hg_bulk_t b)
{
    if (--b->refs == 0)
        free(b);
    return HG_SUCCESS;
}
hg_size_t   HG_Bulk_get_size(hg_bulk_t b) { return b->n; }
hg_return_t HG_Bulk_transfer(hg_context_t *c, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t a, hg_bulk_t far, hg_size_t fo, hg_bulk_t near, hg_size_t no, hg_size_t n, hg_op_id_t *id)
{
    (void)c, (void)a, (void)fo, (void)no, (void)id;
    VT_CHECK(nq < MAXB && fo == 0 && no == 0, "as many transfers as releases");
    q[nq].cb = cb, q[nq].arg = arg, q[nq].op = op, q[nq].far = far, q[nq].near = near, q[nq].n = n;
    nq++;
    return HG_SUCCESS;
}
static void deliver(int i)
{
    struct hg_cb_info ci;
    hg_cb_t           cb = q[i].cb;
    memset(&ci, 0, sizeof(ci));
    ci.arg = q[i].arg;
    VT_CHECK(q[i].n <= q[i].far->n && q[i].n <= q[i].near->n, "a bulk transfer fits both buffers");
    if (q[i].op == HG_BULK_PULL)
        memcpy(q[i].near->p, q[i].far->p, q[i].n);
    else
        memcpy(q[i].far->p, q[i].near->p, q[i].n);
    for (nq--; i < nq; i++)
        q[i] = q[i + 1];
    cb(&ci);
}
/* the state of the server that the handlers use */
int                         pdc_server_rank_g = 0, pdc_server_size_g = 1;
extern data_server_region_t *dataserver_region_g;
