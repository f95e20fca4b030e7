/* A data query from its building on the client to the hits a server selects: the elements selected are exactly
   those of which the values stored satisfy the conditions, for any values stored. */
#include "vt.h"
#include <stdio.h>
#include "pdc_client_server_common.h"
#include "pdc_server_data.h"
#include "pdc_query.h"
#include "pdc_obj_pkg.h"
#include "pdc_id_pkg.h"
#include "pdc_utlist.h"
#define NOBJ 2
#ifndef NDIM
#define NDIM 1
#endif
#ifndef D0
#define D0 3
#endif
#ifndef D1
#define D1 1
#endif
#ifndef D2
#define D2 1
#endif
#define N (D0 * D1 * D2)
#ifndef TYPE
#define TYPE int
#define PTYPE PDC_INT
#endif
static const uint64_t dims[3] = {D0, D1, D2};
static TYPE data[NOBJ][N]; /* by element, row major */
static int  stored[NOBJ][N];
#ifdef WRITTEN
/* ---- storage as the server writes it ---- */
#define FS_CAP 64
#include "../C09/fakefs.h"
void  PDC_mkdir(const char *d) { (void)d; }
static char fh[FS_FILES];
FILE *vt_fopen(const char *p, const char *m)
{
    (void)m;
    int fd = vt_open(p, O_RDONLY);
    VT_CHECK(fd >= 10, "opens a file that does not exist");
    return (FILE *)&fh[fd - 10];
}
static int fo(FILE *f) { return (int)((char *)f - fh); }
int vt_fclose(FILE *f) { (void)f; return 0; }
long vt_ftell(FILE *f) { return (long)fs_[fo(f)].pos; }
int vt_fseek(FILE *f, long off, int wh) { vt_lseek(10 + fo(f), off, wh); return 0; }
size_t vt_fread(void *b, size_t n, size_t m, FILE *f)
{
    VT_CHECK(fs_[fo(f)].pos + n * m <= fs_[fo(f)].len, "reads past the end of the file");
    memcpy(b, fs_[fo(f)].data + fs_[fo(f)].pos, n * m);
    fs_[fo(f)].pos += n * m;
    return m;
}
#else
/* ---- storage: one file per object, the regions one after the other ---- */
static char     file[NOBJ][N * sizeof(TYPE)];
static uint64_t fpos[NOBJ];
static char     fobj[NOBJ];
FILE *vt_fopen(const char *p, const char *m) { (void)m; int o = p[0] - 'a'; VT_CHECK(o >= 0 && o < NOBJ, "opens a file that does not exist"); fpos[o] = 0; return (FILE *)&fobj[o]; }
static int fo(FILE *f) { return (int)((char *)f - fobj); }
int vt_fclose(FILE *f) { (void)f; return 0; }
long vt_ftell(FILE *f) { return (long)fpos[fo(f)]; }
int vt_fseek(FILE *f, long off, int wh) { if (wh == SEEK_SET) fpos[fo(f)] = (uint64_t)off; else fpos[fo(f)] += (uint64_t)off; return 0; }
size_t vt_fread(void *b, size_t n, size_t m, FILE *f)
{
    int o = fo(f);
    VT_CHECK(fpos[o] + n * m <= sizeof(file[o]), "reads past the end of the file");
    memcpy(b, file[o] + fpos[o], n * m);
    fpos[o] += n * m;
    return m;
}
#endif
/* ---- what the client library needs ---- */
struct _pdc_id_info *PDC_find_id(pdcid_t id) { (void)id; return NULL; }
struct _pdc_obj_info *PDC_obj_get_info(pdcid_t id) { (void)id; return NULL; }
perr_t PDC_send_data_query(pdc_query_t *q, pdc_query_get_op_t op, uint64_t *n, pdc_selection_t *s, void *d) { (void)q; (void)op; (void)n; (void)s; (void)d; return FAIL; }
perr_t PDC_Client_get_sel_data(pdcid_t o, pdc_selection_t *s, void *d) { (void)o; (void)s; (void)d; return FAIL; }
/* ---- what the server needs ---- */
/* ---- messages to the client ---- */
#define NHITS_ID 7
#define BULK_ID 8
hg_id_t            send_nhits_register_id_g = NHITS_ID, send_bulk_rpc_register_id_g = BULK_ID;
pdc_client_info_t  clients[1];
pdc_client_info_t *pdc_client_info_g = clients;
int                pdc_client_num_g  = 1;
hg_class_t *hg_class_g; hg_context_t *hg_context_g;
static struct { void *buf; hg_size_t size; } bulk;
static int         hnd[2], nfwd, got_kind, got_id, got_op, got_ndim;
static uint64_t    got_n;
static void *      got_buf;
hg_return_t HG_Create(hg_context_t *c, hg_addr_t a, hg_id_t id, hg_handle_t *h) { (void)c; (void)a; *h = (hg_handle_t)(id == NHITS_ID ? &hnd[0] : &hnd[1]); return HG_SUCCESS; }
hg_return_t HG_Destroy(hg_handle_t h) { (void)h; return HG_SUCCESS; }
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **b, const hg_size_t *z, hg_uint8_t f, hg_bulk_t *h) { (void)c; (void)n; (void)f; bulk.buf = b[0]; bulk.size = z[0]; *h = (hg_bulk_t)&bulk; return HG_SUCCESS; }
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    (void)cb; (void)arg;
    nfwd++;
    if (h == (hg_handle_t)&hnd[0]) {
        send_nhits_t *m = in;
        got_kind = NHITS_ID; got_id = m->query_id; got_n = m->nhits;
    }
    else {
        bulk_rpc_in_t *m = in;
        got_kind = BULK_ID; got_id = m->seq_id; got_n = (uint64_t)m->cnt; got_op = m->op_id; got_ndim = (int)m->ndim; got_buf = NULL;
        if (got_n > 0) {
            VT_CHECK(m->bulk_handle == (hg_bulk_t)&bulk, "hits are sent without a buffer");
            VT_CHECK(bulk.size == got_n * (got_op == PDC_BULK_QUERY_COORDS ? NDIM * sizeof(uint64_t) : sizeof(TYPE)), "a buffer of a wrong size is sent");
            got_buf = bulk.buf;
        }
    }
    return HG_SUCCESS;
}
hg_return_t PDC_Server_recv_data_query(const struct hg_cb_info *callback_info);
hg_return_t PDC_Server_recv_read_sel_obj_data(const struct hg_cb_info *callback_info);
extern data_server_region_t *  dataserver_region_g;
extern cache_storage_region_t *cache_storage_region_head_g;
pdc_data_server_io_list_t *pdc_data_server_read_list_head_g;
int pdc_server_size_g, pdc_server_rank_g, gen_hist_g, use_fastbit_idx_g, gen_fastbit_idx_g, is_debug_g, n_fopen_g;
static uint64_t coord_of(int e, int d) { for (int i = NDIM - 1; i > d; i--) e /= (int)dims[i]; return (uint64_t)(e % (int)dims[d]); }
#ifdef WRITTEN
/* a region of an object is written, any values */
static void write_some(int o, uint64_t from, uint64_t to, uint64_t f1, uint64_t t1)
{
    struct pdc_region_info r;
    uint64_t off[3] = {from, f1, 0}, n[3] = {to - from, t1 - f1, 1};
    TYPE buf[N];
    memset(&r, 0, sizeof r);
    r.ndim = NDIM; r.offset = off; r.size = n;
    int k = 0;
    for (int e = 0; e < N; e++)
        if (coord_of(e, 0) >= from && coord_of(e, 0) < to && (NDIM < 2 || (coord_of(e, 1) >= f1 && coord_of(e, 1) < t1))) {
            uint64_t b = vt_u64();
            memcpy(&data[o][e], &b, sizeof(TYPE));
            stored[o][e] = 1;
            buf[k++]     = data[o][e];
        }
    VT_CHECK(PDC_Server_data_write_out((uint64_t)(100 + o), &r, buf, sizeof(TYPE)) == SUCCEED, "a region can be written");
}
static void write_any(int o)
{
    uint64_t lo[2] = {0, 0}, hi[2] = {1, 1};
    for (int d = 0; d < NDIM; d++) { lo[d] = vt_fork(vt_range(0, dims[d] - 1)); hi[d] = vt_fork(vt_range(lo[d] + 1, dims[d])); }
    write_some(o, lo[0], hi[0], lo[1], hi[1]);
}
#else
static data_server_region_t objs[NOBJ];
static uint64_t foff;
static void add_region(int o, int axis, uint64_t from, uint64_t to)
{
    if (to <= from) return;
    region_list_t *r = calloc(1, sizeof(*r));
    r->ndim          = NDIM;
    r->unit_size     = sizeof(TYPE);
    for (int d = 0; d < NDIM; d++) { r->start[d] = d == axis ? from : 0; r->count[d] = d == axis ? to - from : dims[d]; }
    r->storage_location[0] = (char)('a' + o);
    r->offset              = foff;
    for (int e = 0; e < N; e++)
        if (coord_of(e, axis) >= from && coord_of(e, axis) < to) { memcpy(file[o] + foff, &data[o][e], sizeof(TYPE)); foff += sizeof(TYPE); stored[o][e] = 1; r->data_size += sizeof(TYPE); }
    DL_APPEND(objs[o].region_storage_head, r);
}
#endif
#define MAXL 4
static pdc_query_op_t lop[MAXL];
static TYPE           lval[MAXL];
static int            lobj[MAXL], nl;
static int holds(int l, int e)
{
    TYPE v = data[lobj[l]][e], c = lval[l];
    pdc_query_op_t op = lop[l];
    int r = (op == PDC_GT) & (v > c);
    r |= (op == PDC_LT) & (v < c);
    r |= (op == PDC_GTE) & (v >= c);
    r |= (op == PDC_LTE) & (v <= c);
    r |= (op == PDC_EQ) & (v == c);
    return r & stored[lobj[l]][e];
}
static const pdc_query_op_t OP[5] = {PDC_GT, PDC_LT, PDC_GTE, PDC_LTE, PDC_EQ};
#ifndef OPS
#define OPS {0, 1, 2, 3, 4}
#define NOPS 5
#endif
static const int opsel[NOPS] = OPS;
static pdc_query_t *leaf(void)
{
    int k   = (int)vt_fork(vt_range(0, NOPS - 1));
    lop[nl] = OP[opsel[k]];
#ifdef LOBJ
    static const int of[MAXL] = LOBJ;
    lobj[nl] = of[nl];
#else
    lobj[nl] = nl == 0 ? 0 : (int)vt_fork(vt_range(0, 1)); /* the objects are alike */
#endif
    uint64_t b = vt_u64();
    memcpy(&lval[nl], &b, sizeof(TYPE));
    pdc_query_t *q = PDCquery_create((pdcid_t)(100 + lobj[nl]), lop[nl], PTYPE, &lval[nl]);
    nl++;
    VT_CHECK(q != NULL, "a condition is refused");
    return q;
}
static int cop[3], ncop;
static pdc_query_t *comb(pdc_query_t *a, pdc_query_t *b)
{
    int k       = (int)vt_fork(vt_range(0, 1));
    cop[ncop++] = k;
    return k ? PDCquery_or(a, b) : PDCquery_and(a, b);
}
static int cv(int k, int a, int b) { return k ? a | b : a & b; }
#ifndef TREE
#define TREE 0
#endif
static pdc_query_t *build(void)
{
#if TREE == 0
    return leaf();
#else
    pdc_query_t *a = leaf(), *b = leaf(), *c, *d, *x;
#if TREE == 1
    return comb(a, b);
#elif TREE == 2 || TREE == 3
    c = leaf();
    x = TREE == 2 ? comb(a, b) : comb(b, c);
    (void)d;
    return TREE == 2 ? comb(x, c) : comb(a, x);
#elif TREE == 4
    c = leaf(); d = leaf();
    x = comb(a, b);
    pdc_query_t *y = comb(c, d);
    return comb(x, y);
#endif
#endif
}
static int expect(int e)
{
#if TREE == 0
    return holds(0, e);
#elif TREE == 1
    return cv(cop[0], holds(0, e), holds(1, e));
#elif TREE == 2
    return cv(cop[1], cv(cop[0], holds(0, e), holds(1, e)), holds(2, e));
#elif TREE == 3
    return cv(cop[1], holds(0, e), cv(cop[0], holds(1, e), holds(2, e)));
#else
    return cv(cop[2], cv(cop[0], holds(0, e), holds(1, e)), cv(cop[1], holds(2, e), holds(3, e)));
#endif
}
static pdc_query_xfer_t *make(int id)
{
    pdc_query_t *q = build();
    VT_CHECK(q != NULL, "a combination is refused");
#ifdef BOX
    static struct pdc_region_info box;
    static uint64_t               bo[3], bs[3];
    box.ndim = NDIM; box.offset = bo; box.size = bs;
    for (int d = 0; d < NDIM; d++) { bo[d] = vt_fork(vt_range(0, dims[d] - 1)); bs[d] = vt_fork(vt_range(1, dims[d])); }
    PDCquery_sel_region(q, &box);
    for (int e = 0; e < N; e++)
        for (int d = 0; d < NDIM; d++)
            if (coord_of(e, d) < bo[d] || coord_of(e, d) >= bo[d] + bs[d]) stored[0][e] = stored[1][e] = 0; /* nothing else counts */
#endif
    pdc_query_xfer_t *x = PDC_serialize_query(q);
    x->query_id = id; x->client_id = 0; x->manager = 0; x->n_unique_obj = 1; x->get_op = PDC_QUERY_GET_SEL;
    x->next_server_id = x->prev_server_id = -1;
    PDCquery_free_all(q);
    return x;
}
static void ask(int id, int get_op)
{
    struct hg_cb_info cb;
    memset(&cb, 0, sizeof cb);
    pdc_query_xfer_t *x = make(id);
    x->get_op = get_op;
    cb.arg    = x;
    nfwd      = 0;
    PDC_Server_recv_data_query(&cb);
    VT_CHECK(nfwd == 1 && got_id == id, "the query is not answered");
    const uint64_t *coords = got_buf;
    if (get_op == PDC_QUERY_GET_NHITS) {
        uint64_t total = 0;
        for (int e = 0; e < N; e++) total += (uint64_t)expect(e);
        VT_CHECK(got_kind == NHITS_ID, "answered in a wrong form");
        VT_CHECK(got_n == total, "wrong number of hits");
        return;
    }
    VT_CHECK(got_kind == BULK_ID && got_op == PDC_BULK_QUERY_COORDS && (got_n == 0 || got_ndim == NDIM), "answered in a wrong form");
    static uint8_t seen[N];
    memset(seen, 0, sizeof seen);
    for (uint64_t h = 0; h < got_n; h++) {
        uint64_t e = 0;
        for (int d = 0; d < NDIM; d++) {
            VT_CHECK(coords[h * NDIM + (uint64_t)d] < dims[d], "a place that does not exist is selected");
            e = e * dims[d] + coords[h * NDIM + (uint64_t)d];
        }
        VT_CHECK(!seen[e], "an element is selected twice");
        seen[e] = 1;
    }
    for (int e = 0; e < N; e++) {
        int x1 = expect(e);
        VT_CHECK(seen[e] >= x1, "an element that satisfies the query is not selected");
        VT_CHECK(seen[e] <= x1, "an element is selected against the query");
    }
#ifdef READ
    /* the values of the hits, of either object */
    get_sel_data_rpc_in_t in;
    memset(&in, 0, sizeof in);
    in.query_id = id;
    cache_storage_region_t c[NOBJ];
    memset(c, 0, sizeof c);
    cache_storage_region_head_g = NULL;
    for (int o = 0; o < NOBJ; o++) { c[o].obj_id = (uint64_t)(100 + o); c[o].data_type = PTYPE; c[o].storage_region_head = objs[o].region_storage_head; DL_APPEND(cache_storage_region_head_g, (&c[o])); }
    int o = (int)vt_fork(vt_range(0, NOBJ - 1));
    in.obj_id = (uint64_t)(100 + o);
    get_sel_data_rpc_in_t *inp = malloc(sizeof in);
    *inp   = in;
    cb.arg = inp;
    nfwd   = 0;
    uint64_t nhits = got_n;
    PDC_Server_recv_read_sel_obj_data(&cb);
    if (nhits == 0) return;
    VT_CHECK(nfwd == 1 && got_kind == BULK_ID && got_op == PDC_BULK_SEND_QUERY_DATA && got_id == id && got_n == nhits, "no data is sent for the hits");
    const char *sent = got_buf;
    int bad = 0;
    for (uint64_t h = 0; h < got_n; h++) {
        uint64_t e = 0;
        for (int d = 0; d < NDIM; d++) e = e * dims[d] + coords[h * NDIM + (uint64_t)d];
        bad |= memcmp(sent + h * sizeof(TYPE), &data[o][e], sizeof(TYPE)) != 0;
    }
    VT_CHECK(!bad, "a value read is not that of the element selected");
#endif
}
void harness(void)
{
    for (int o = 0; o < NOBJ; o++)
        for (int e = 0; e < N; e++) {
#ifdef ALIKE
            if (e > 0) { data[o][e] = data[o][0]; continue; }
#endif
            uint64_t b = vt_u64();
            memcpy(&data[o][e], &b, sizeof(TYPE));
        }
    pdc_server_size_g = 1;
    clients[0].addr_valid = 1;
#ifdef WRITTEN
    for (int w = 0; w < WRITTEN; w++) write_any(0);
#if TREE > 0
    write_any(1);
#endif
#else
    for (int o = 0; o < NOBJ; o++) {
        int axis = 0;
#ifdef SPLIT
        axis = NDIM > 1 ? (int)vt_fork(vt_range(0, NDIM - 1)) : 0;
        uint64_t s = vt_fork(vt_range(1, dims[axis]));
#else
        uint64_t s = o == 0 ? 1 : dims[0] - 1;
#endif
        objs[o].obj_id = (uint64_t)(100 + o);
        foff           = 0;
        add_region(o, axis, 0, s);
#ifdef HOLE
        if (!(o == HOLE))
#endif
        add_region(o, axis, s, dims[axis]);
        DL_APPEND(dataserver_region_g, (&objs[o]));
    }
#endif
#ifdef NHITS
    ask(1, PDC_QUERY_GET_NHITS);
#else
    ask(1, PDC_QUERY_GET_SEL);
#endif
#ifdef TWICE
    nl = ncop = 0;
#ifdef WRITTEN
    write_any(0);
#endif
    ask(2, PDC_QUERY_GET_SEL);
#endif
    VT_REACH("end");
}
