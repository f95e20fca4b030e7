/* Region locks: several clients lock and release regions through the server's handlers. */
#include "vt.h"
#include "pdc_config.h"
#include "pdc_client_server_common.h"
#include "pdc_server_data.h"
#include "hg.h"
void  vt_server_boot(void);
#define REG 2
#define UNIT 4
#define LEN 2
#define FREE (-1)
enum { IDLE, WAITS, HOLDS, LEAVES };
static struct { int state, reg, access; hg_handle_t h; } cl[CL];
static int                    holder[REG];
static region_info_transfer_t reg[REG], elem;
static uint64_t               obj[REG];
static hg_id_t                id_lock, id_release, id_map;

/* ---- storage of region 0, and the buffer of client 0 that is mapped to it */
static uint8_t        store[LEN * UNIT], buf[LEN * UNIT], want[LEN * UNIT];
static struct hg_bulk mapped;
static pdc_metadata_t meta;
pdc_metadata_t *find_metadata_by_id(uint64_t id) { (void)id; return &meta; }
pdc_metadata_t *PDC_Server_get_obj_metadata(pdcid_t id) { (void)id; return &meta; }
static int fd_ok(uint64_t o)
{
    data_server_region_t *r = PDC_Server_get_obj_region(o);
    return r != NULL && (r->fd == 10 || r->fd == -1 || r->fd == -2) && (r->close_flag == 0 || r->close_flag == 1) && r->storage_location != NULL;
}
perr_t PDC_transfer_request_data_write_out(uint64_t o, int ndim, const uint64_t *dims, struct pdc_region_info *r, void *b, size_t unit)
{
    (void)ndim, (void)dims;
    VT_CHECK(o == obj[0] && unit == UNIT && r->ndim == 1 && r->offset[0] == elem.start_0 && r->size[0] == LEN, "a write covers the mapped region");
    VT_CHECK(fd_ok(o), "the file of an object is known");
    memcpy(store, b, sizeof(store));
    return SUCCEED;
}
perr_t PDC_transfer_request_data_read_from(uint64_t o, int ndim, const uint64_t *dims, struct pdc_region_info *r, void *b, size_t unit)
{
    (void)ndim, (void)dims;
    VT_CHECK(o == obj[0] && unit == UNIT && r->ndim == 1 && r->offset[0] == elem.start_0 && r->size[0] == LEN, "a read covers the mapped region");
    VT_CHECK(fd_ok(o), "the file of an object is known");
    memcpy(b, store, sizeof(store));
    return SUCCEED;
}
void PDC_mkdir(const char *d) { (void)d; }
int  vt_open(const char *p, int f, ...) { (void)p, (void)f; return 10; }
int  vt_close(int fd) { (void)fd; return 0; }

/* ---- the clients */
static hg_handle_t send(hg_id_t id, void *in)
{
    hg_handle_t h;
    HG_Create(NULL, NULL, id, &h);
    VT_CHECK(run(rpc[id].in, HG_ENCODE, h->in, in) == HG_SUCCESS, "a message can be encoded");
    rpc[id].cb(h);
    return h;
}
static hg_handle_t ask(hg_id_t id, int r, int access, int mode)
{
    region_lock_in_t in;
    memset(&in, 0, sizeof(in));
    in.obj_id = obj[r], in.access_type = (pdc_access_t)access, in.lock_mode = (uint8_t)mode, in.region = reg[r], in.data_unit = UNIT;
    return send(id, &in);
}
static int answer(hg_handle_t h)
{
    region_lock_out_t out;
    VT_CHECK(h->answered, "a call is answered");
    memset(&out, 0, sizeof(out));
    HG_Get_output(h, &out);
    HG_Destroy(h);
    return out.ret;
}
/* what the clients see of the answers that have arrived */
static void look(void)
{
    int c, r, waits;
    for (c = 0; c < CL; c++)
        if (cl[c].state == LEAVES && cl[c].h->answered) {
            VT_CHECK(answer(cl[c].h) == 1, "the holder of a lock can release it");
            cl[c].state = IDLE;
            VT_CHECK(holder[cl[c].reg] == c, "(model) the holder releases");
            holder[cl[c].reg] = FREE;
            if (MAPPED && c == 0 && cl[c].reg == 0) {
                if (cl[c].access == PDC_WRITE)
                    VT_CHECK(memcmp(store, want, sizeof(store)) == 0, "a write release has stored the buffer");
                else
                    VT_CHECK(memcmp(buf, store, sizeof(store)) == 0, "a read release has fetched the data");
            }
        }
    for (c = 0; c < CL; c++)
        if (cl[c].state == WAITS && cl[c].h->answered) {
            VT_CHECK(holder[cl[c].reg] == FREE, "a region has one holder at a time");
            VT_CHECK(answer(cl[c].h) == 1, "a client that waits gets the lock in the end");
            cl[c].state = HOLDS, holder[cl[c].reg] = c;
        }
    for (r = 0; r < REG; r++) {
        for (c = waits = 0; c < CL; c++)
            waits += cl[c].state == WAITS && cl[c].reg == r;
        VT_CHECK(holder[r] != FREE || waits == 0, "nobody waits for a region that is free");
    }
}
static void lock(int c, int r)
{
    int     mode = vt_u8(), ret;
    vt_assume(mode == PDC_BLOCK || mode == PDC_NOBLOCK);
    cl[c].h   = ask(id_lock, r, PDC_READ + (int)vt_range(0, 1) * (PDC_WRITE - PDC_READ), mode);
    cl[c].reg = r;
    if (holder[r] == FREE) {
        VT_CHECK(cl[c].h->answered, "a region nobody holds is locked at once");
        VT_CHECK(answer(cl[c].h) == 1, "a region nobody holds can be locked");
        cl[c].state = HOLDS, holder[r] = c;
    }
    else if (mode == PDC_NOBLOCK)
        VT_CHECK(answer(cl[c].h) != 1, "a client that does not wait is refused a region held by another");
    else
        cl[c].state = WAITS;
}
static void release(int c)
{
    cl[c].access = vt_fork(vt_range(0, 1)) ? PDC_READ : PDC_WRITE;
    cl[c].state  = LEAVES;
    if (MAPPED && c == 0 && cl[c].reg == 0) {
        int i;
        for (i = 0; i < LEN * UNIT; i++)
            buf[i] = want[i] = vt_u8();
    }
    cl[c].h = ask(id_release, cl[c].reg, cl[c].access, 0);
}
static int pick(int n) { return (int)vt_fork(vt_range(0, (uint64_t)n - 1)); }

void
harness(void)
{
    int s, c, d, k, r, nd;
    vt_server_boot();
    id_lock = 0, id_release = 1, id_map = 2;
    for (r = 0; r < REG; r++)
        holder[r] = FREE;
    /* two regions of one object that differ somewhere, or one region of two objects */
    nd     = SHAPES ? 1 + pick(3) : 1;
    obj[0] = obj[1] = MAPPED ? 77 : vt_u64();
    reg[0].ndim = (size_t)nd;
    reg[0].start_0 = vt_u64(), reg[0].count_0 = vt_u64();
    if (nd > 1)
        reg[0].start_1 = vt_u64(), reg[0].count_1 = vt_u64();
    if (nd > 2)
        reg[0].start_2 = vt_u64(), reg[0].count_2 = vt_u64();
    if (MAPPED) {
        elem.ndim = 1, elem.start_0 = 3 * vt_fork(vt_range(0, 1)), elem.count_0 = LEN;
        reg[0].start_0 = elem.start_0 * UNIT, reg[0].count_0 = LEN * UNIT;
    }
    reg[1] = reg[0];
    d      = SHAPES ? pick(2 * nd + 1) : 0;
    if (d == 2 * nd) {
        obj[1] = vt_u64();
        vt_assume(obj[1] != obj[0]);
    }
    else {
        uint64_t x   = vt_u64();
        uint64_t *at = d == 0 ? &reg[1].start_0 : d == 1 ? &reg[1].count_0 : d == 2 ? &reg[1].start_1 : d == 3 ? &reg[1].count_1 : d == 4 ? &reg[1].start_2 : &reg[1].count_2;
        vt_assume(x != *at);
        *at = x;
    }
    if (MAPPED && vt_fork(vt_range(0, 1)))
        lock(1, 1), look(); /* the object is first seen by a lock */
    if (MAPPED) {
        buf_map_in_t in;
        hg_handle_t  h;
        memset(&in, 0, sizeof(in));
        mapped.p = (char *)buf, mapped.n = sizeof(buf), mapped.refs = 1;
        in.remote_obj_id = obj[0], in.ndim = 1, in.remote_unit = UNIT, in.local_bulk_handle = &mapped;
        in.local_region.ndim = 1, in.local_region.count_0 = LEN * UNIT, in.remote_region_unit = reg[0], in.remote_region_nounit = elem;
        h = send(id_map, &in);
        VT_CHECK(h->answered, "a region can be mapped");
    }
    for (s = 0; s < STEPS; s++) {
        k = pick(2 * REG + MAPPED);
        r = k / 2;
        if (k == 2 * REG) {
            if (nq == 0)
                break;
            deliver(0);
        }
        else if (k % 2 == 0) {
            int lo = 0;
            if (MAPPED && r == 0 && cl[0].state == IDLE && vt_fork(vt_range(0, 1)))
                lo = 0;
            else
                lo = MAPPED ? 1 : 0;
            for (c = lo; c < CL && cl[c].state != IDLE; c++)
                ;
            if (c == CL)
                break;
            lock(c, r);
        }
        else if (holder[r] == FREE) {
            VT_CHECK(answer(ask(id_release, r, PDC_WRITE, 0)) != 1, "a region that is not locked is not released");
        }
        else if (cl[holder[r]].state == HOLDS)
            release(holder[r]);
        else
            break;
        look();
    }
    /* all who hold a lock release it: all who wait get theirs */
    for (s = 0; s < CL + 1; s++) {
        for (r = 0; r < REG; r++)
            if (holder[r] != FREE && cl[holder[r]].state == HOLDS) {
                cl[holder[r]].access = PDC_WRITE;
                release(holder[r]);
                look();
            }
        while (nq)
            deliver(0), look();
    }
    for (c = 0; c < CL; c++)
        VT_CHECK(cl[c].state == IDLE, "nobody waits for ever");
    VT_REACH("end");
}
