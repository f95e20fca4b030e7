/* Storage regions, data in storage and the placement of regions after a restart. */
#include "boot.h"
#define FS_FILES2
#undef FS_FILES
#undef FS_CAP
#define FS_CAP 64
#define fs_ ds_
#include "../C09/fakefs.h"
#undef fs_
#include "../C16/model.h"
static char *place(int obj, int write, uint64_t off, uint64_t size)
{
    char     buf[256], *p = buf, *out = NULL;
    uint64_t total = 0, id = O[obj].id, q;
    uint32_t ds = write ? (uint32_t)vt_range(0, SRV - 1) : 0;
    uint8_t  part = PDC_REGION_LOCAL;
    int      nd = 1;
    size_t   unit = 1;
    memcpy(p, &id, 8), p += 8;
    memcpy(p, &ds, 4), p += 4;
    *p++ = (char)part;
    memcpy(p, &nd, 4), p += 4;
    memcpy(p, &unit, 8), p += 8;
    memcpy(p, &off, 8), p += 8;
    memcpy(p, &size, 8);
    q = transfer_request_metadata_query_parse(1, buf, (uint8_t)write, &total);
    transfer_request_metadata_query_lookup_query_buf(q, &out);
    VT_CHECK(out != NULL, "a placement query has an answer");
    return out;
}
static void check_place(int obj, uint64_t off, uint64_t size, const char *was)
{
    char *now = place(obj, 0, off, size);
    int   n   = *(const int *)was;
    VT_CHECK(n == *(int *)now && memcmp(was, now, (size_t)(4 + 4 + n * (4 + 16))) == 0, "a restarted server knows where each region is");
    free(now);
}
static void rw(int write, uint64_t id, uint64_t off, uint64_t n, uint8_t *b)
{
    struct pdc_region_info r;
    memset(&r, 0, sizeof(r));
    r.ndim = 1, r.offset = &off, r.size = &n;
    if (write)
        VT_CHECK(PDC_Server_data_write_out(id, &r, b, 1) == SUCCEED, "a region can be written");
    else
        VT_CHECK(PDC_Server_data_read_from(id, &r, b, 1) == SUCCEED, "a region can be read");
}

void
harness(void)
{
    uint64_t off[3], n[3], i;
    uint8_t  last[2][8], known[2][8] = {{0}}, b[8];
    int      k, o;
    start();
    create(0, 0, 0, "", 1);
    create(1, 0, 0, "", 1);
#ifdef PLACE
    for (k = 0; k < 3; k++)
        off[k] = vt_range(0, 1000), n[k] = 1 + vt_range(0, 1000);
    o = (int)vt_fork(vt_range(0, 1));
    free(place(0, 1, off[0], n[0]));
    free(place(o, 1, off[1], n[1]));
    char *was0 = place(0, 0, off[2], n[2]), *was1 = place(1, 0, off[2], n[2]);
    reboot();
    check_place(0, off[2], n[2], was0);
    check_place(1, off[2], n[2], was1);
#endif
#ifdef DATA
    for (k = 0; k < DATA; k++) {
        o    = (int)vt_fork(vt_range(0, 1));
        off[0] = vt_fork(vt_range(0, 3));
        n[0]   = vt_fork(vt_range(1, 4 - off[0]));
        for (i = 0; i < n[0]; i++)
            b[i] = last[o][off[0] + i] = vt_u8(), known[o][off[0] + i] = 1;
        rw(1, O[o].id, off[0], n[0], b);
        if (k == AT)
            reboot();
    }
    for (o = 0; o < 2; o++) {
        memset(b, 0x77, 8);
        rw(0, O[o].id, 0, 4, b);
        for (i = 0; i < 4; i++)
            VT_CHECK(b[i] == (known[o][i] ? last[o][i] : 0x77), "data written before a restart is read after it");
    }
#endif
#ifdef STORE
    {
        region_list_t * r;
        pdc_metadata_t *m;
        pdc_histogram_t h;
        double          range[4] = {vt_f64(), 0, 0, 0};
        uint64_t        bin[2] = {1, 2}, c;
        int             hist = (int)vt_fork(vt_range(0, 1)), two = (int)vt_fork(vt_range(0, 1)), swap = two ? (int)vt_fork(vt_range(0, 1)) : 0;
        range[3]             = vt_f64();
        bin[1]               = vt_u64();
        h.dtype = PDC_DOUBLE, h.nbin = 2, h.range = range, h.bin = bin, h.incr = 0.5;
        for (k = 0; k < 1 + two; k++) {
            r         = (region_list_t *)calloc(1, sizeof(region_list_t));
            r->ndim   = 1;
            off[k]    = 100 * (uint64_t)(k ^ swap);
            off[k]   += vt_range(0, 99);
            n[k]      = 1 + vt_range(0, 50);
            r->start[0] = off[k], r->count[0] = n[k], r->offset = 17 + (uint64_t)k, r->data_size = n[k];
            strcpy(r->storage_location, "/d/s.bin");
            r->region_hist = hist && k == 0 ? &h : NULL;
            VT_CHECK(PDC_Server_update_local_region_storage_loc(r, O[1].id, PDC_UPDATE_STORAGE) == SUCCEED, "a storage region can be recorded");
            free(r);
        }
        reboot();
        PDC_Server_get_local_metadata_by_id(O[1].id, &m);
        VT_CHECK(m != NULL, "an object is found by its id exactly while it exists");
        DL_COUNT(m->storage_region_list_head, r, c);
        VT_CHECK(c == 1 + (uint64_t)two, "the storage regions survive a restart");
        for (k = 0; k < 1 + two; k++) {
            int f = 0;
            DL_FOREACH(m->storage_region_list_head, r)
            {
                if (r->start[0] != off[k])
                    continue;
                f++;
                VT_CHECK(r->ndim == 1 && r->count[0] == n[k] && r->offset == 17 + (uint64_t)k && r->data_size == n[k] && strcmp(r->storage_location, "/d/s.bin") == 0 && r->obj_id == O[1].id && r->meta == m,
                         "the storage regions survive a restart");
                VT_CHECK((r->region_hist != NULL) == (hist && k == 0), "the histogram of a region survives a restart");
                if (r->region_hist)
                    VT_CHECK(r->region_hist->nbin == 2 && r->region_hist->dtype == PDC_DOUBLE && memcmp(r->region_hist->range, range, 32) == 0 && memcmp(r->region_hist->bin, bin, 16) == 0 && r->region_hist->incr == 0.5,
                             "the histogram of a region survives a restart");
            }
            VT_CHECK(f == 1, "the storage regions survive a restart");
        }
        PDC_Server_get_local_metadata_by_id(O[0].id, &m);
        VT_CHECK(m && m->storage_region_list_head == NULL, "the storage regions survive a restart");
    }
#endif
    VT_REACH("end");
}
