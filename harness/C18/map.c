/* Regions mapped to buffers: the client's calls, their messages and the server's handlers together. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_id_pkg.h"
#include "pdc_obj.h"
#include "pdc_obj_pkg.h"
#include "pdc_prop_pkg.h"
#include "pdc_region.h"
#include "pdc_region_pkg.h"
#include "pdc_interface.h"
#include "pdc_client_connect.h"
#include "pdc_client_server_common.h"
#include "pdc_server_data.h"
#include "hg.h"
#define OBJ 5000
void vt_client_boot(void);
static const uint64_t dims[3] = {D0, D1, D2};
#define CELLS (D0 * D1 * D2)

/* ---- calls */
static hg_handle_t call;
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    VT_CHECK(call == NULL, "one call at a time");
    h->cb = cb, h->arg = arg;
    VT_CHECK(run(rpc[h->id].in, HG_ENCODE, h->in, in) == HG_SUCCESS, "a message can be encoded");
    call = h;
    return rpc[h->id].cb(h);
}
hg_return_t HG_Progress(hg_context_t *c, unsigned t)
{
    (void)c, (void)t;
    if (call && call->answered)
        return HG_SUCCESS;
    VT_CHECK(nq > 0, "every call is answered once the transfers it depends on are done");
    deliver(0);
    return HG_SUCCESS;
}
hg_return_t HG_Trigger(hg_context_t *c, unsigned t, unsigned m, unsigned *n)
{
    struct hg_cb_info ci;
    hg_handle_t       h = call;
    (void)c, (void)t, (void)m;
    *n = 0;
    if (!call || !call->answered)
        return HG_TIMEOUT;
    memset(&ci, 0, sizeof(ci));
    ci.arg = call->arg, ci.info.forward.handle = call;
    call = NULL, *n = 1;
    h->cb(&ci);
    return HG_SUCCESS;
}

/* ---- storage: the cells of the object */
static uint8_t  store[CELLS][8], shadow[CELLS][8];
static unsigned width;
static uint64_t cell(const uint64_t *off, const uint64_t *size, uint64_t k)
{
    uint64_t at = 0, stride = 1;
    int      d;
    for (d = NDIM - 1; d >= 0; d--) {
        at += (off[d] + k % size[d]) * stride;
        k /= size[d], stride *= dims[d];
    }
    return at;
}
static void io(uint64_t o, struct pdc_region_info *r, uint8_t *b, size_t unit, int w)
{
    uint64_t k, n = 1;
    unsigned i;
    int      d;
    VT_CHECK(o == OBJ && unit == width && r->ndim == NDIM, "transfers are of the object mapped");
    for (d = 0; d < NDIM; d++) {
        VT_CHECK(r->offset[d] <= dims[d] && r->size[d] <= dims[d] - r->offset[d], "transfers lie inside the object");
        n *= r->size[d];
    }
    for (k = 0; k < n; k++)
        for (i = 0; i < width; i++)
            if (w)
                store[cell(r->offset, r->size, k)][i] = b[k * width + i];
            else
                b[k * width + i] = store[cell(r->offset, r->size, k)][i];
}
perr_t PDC_transfer_request_data_write_out(uint64_t o, int nd, const uint64_t *ds, struct pdc_region_info *r, void *b, size_t unit) { (void)nd, (void)ds; io(o, r, (uint8_t *)b, unit, 1); return SUCCEED; }
perr_t PDC_transfer_request_data_read_from(uint64_t o, int nd, const uint64_t *ds, struct pdc_region_info *r, void *b, size_t unit) { (void)nd, (void)ds; io(o, r, (uint8_t *)b, unit, 0); return SUCCEED; }
static pdc_metadata_t md;
pdc_metadata_t *find_metadata_by_id(uint64_t id) { VT_CHECK(id == OBJ, "the metadata asked for are the object's"); return &md; }
pdc_metadata_t *PDC_Server_get_obj_metadata(pdcid_t id) { (void)id; return &md; }
void PDC_mkdir(const char *d) { (void)d; }
perr_t PDC_check_transform(pdc_obj_transform_t op, struct pdc_region_info *r) { (void)op, (void)r; return SUCCEED; }
int  vt_open(const char *p, int f, ...) { (void)p, (void)f; return 10; }
int  vt_close(int fd) { (void)fd; return 0; }

/* ---- the user */
static struct pdc_id_list   ids;
static struct _pdc_obj_info oi;
static struct pdc_obj_info  op;
static struct _pdc_obj_prop pp;
static struct pdc_obj_prop  pub;
static struct { pdcid_t l, r; struct pdc_region_info a, c; uint64_t off[3], size[3], zero[3], n; int mapped; uint8_t buf[CELLS * 8]; } g[REGS];
static int bound(uint64_t k) { return (int)vt_fork(vt_range(0, k)); }

void
harness(void)
{
    static const struct { pdc_var_type_t t; unsigned n; } types[3] = {{PDC_CHAR, 1}, {PDC_INT, 4}, {PDC_DOUBLE, 8}};
    int      i, j, d, s, k, acc;
    uint64_t c;
    unsigned b;
    pdcid_t  oid;
    pdc_id_list_g = &ids;
    PDC_register_type(PDC_REGION, NULL);
    PDC_register_type(PDC_OBJ, NULL);
    vt_client_boot();
    i = TYPE;
    width    = types[i].n;
    pub.ndim = NDIM, pub.dims = (uint64_t *)dims, pub.type = types[i].t;
    pp.obj_prop_pub  = &pub;
    oi.obj_info_pub  = &op, oi.obj_pt = &pp, oi.metadata = &md;
    op.meta_id       = OBJ;
    oid              = PDC_id_register(PDC_OBJ, &oi);
    for (c = 0; c < CELLS; c++)
        for (b = 0; b < width; b++)
            store[c][b] = shadow[c][b] = vt_u8();
    for (i = 0; i < REGS; i++) {
        g[i].n = 1;
        for (d = 0; d < NDIM; d++) {
            g[i].off[d]  = (uint64_t)bound(dims[d] - 1);
            g[i].size[d] = 1 + (uint64_t)bound(dims[d] - 1 - g[i].off[d]);
            g[i].n *= g[i].size[d];
        }
        for (j = 0; j < i; j++) {
            int same = 1;
            for (d = 0; d < NDIM; d++)
                same &= g[i].off[d] == g[j].off[d] && g[i].size[d] == g[j].size[d];
            vt_assume(!same);
        }
        g[i].a.ndim = NDIM, g[i].a.offset = g[i].zero, g[i].a.size = g[i].size;
        g[i].c.ndim = NDIM, g[i].c.offset = g[i].off, g[i].c.size = g[i].size;
        g[i].l      = PDC_id_register(PDC_REGION, &g[i].a);
        g[i].r      = PDC_id_register(PDC_REGION, &g[i].c);
        VT_CHECK(PDCbuf_obj_map(g[i].buf, pub.type, g[i].l, oid, g[i].r) == SUCCEED, "a region can be mapped");
        g[i].mapped = 1;
    }
    for (s = 0; s < STEPS; s++) {
        k = bound(REGS - 1);
        if (s > 0 && g[k].mapped && bound(1)) {
            VT_CHECK(PDCbuf_obj_unmap(oid, g[k].r) == SUCCEED, "a mapped region can be unmapped");
            g[k].mapped = 0;
            continue;
        }
        acc = bound(1) ? PDC_READ : PDC_WRITE;
        VT_CHECK(PDCreg_obtain_lock(oid, g[k].r, (pdc_access_t)acc, bound(1) ? PDC_BLOCK : PDC_NOBLOCK) == SUCCEED, "a region nobody holds can be locked");
        for (c = 0; c < g[k].n * width; c++)
            g[k].buf[c] = vt_u8();
        if (g[k].mapped && acc == PDC_WRITE)
            for (c = 0; c < g[k].n; c++)
                for (b = 0; b < width; b++)
                    shadow[cell(g[k].off, g[k].size, c)][b] = g[k].buf[c * width + b];
        VT_CHECK(PDCreg_release_lock(oid, g[k].r, (pdc_access_t)acc) == SUCCEED, "the holder of a lock can release it");
        VT_CHECK(nq == 0, "a release is over when it returns");
        for (c = 0; c < CELLS; c++)
            for (b = 0; b < width; b++)
                VT_CHECK(store[c][b] == shadow[c][b], "a write release stores the mapped buffer, in its region and nowhere else");
        if (g[k].mapped && acc == PDC_READ)
            for (c = 0; c < g[k].n; c++)
                for (b = 0; b < width; b++)
                    VT_CHECK(g[k].buf[c * width + b] == store[cell(g[k].off, g[k].size, c)][b], "a read release fetches the data of the region");
    }
    VT_REACH("end");
}
