/* Writing regions of an object to server storage and reading them back: every cell reads as last written. */
#include "vt.h"
#include "pdc_client_server_common.h"
#include "pdc_server_data.h"
#define FS_CAP 256
#include "fakefs.h"
#ifndef NW
#define NW 2
#endif
#define CELLS (N0 * N1 * N2)

int pdc_server_rank_g = 0, pdc_server_size_g = 1;
void PDC_mkdir(const char *d) { (void)d; }
static uint64_t o[3], n[3], abs_o[3], abs_n[3];
static const uint64_t N[3] = {N0, N1, N2};
static uint64_t base[3];
static int nd = DIM;

/* any non-empty box of the object */
static void pick(void)
{
    for (int d = 0; d < 3; d++) {
        uint64_t k = N[d] * (N[d] + 1) / 2, v = vt_fork(vt_range(0, k - 1)), c = 0;
        for (o[d] = 0; o[d] < N[d]; o[d]++) {
            if (v < c + N[d] - o[d])
                break;
            c += N[d] - o[d];
        }
        n[d]     = v - c + 1;
        abs_o[d] = base[d] + o[d];
        abs_n[d] = n[d];
    }
}

void
harness(void)
{
    static uint8_t          last[CELLS * UNIT], written[CELLS];
    struct pdc_region_info  r;
    uint64_t                i, j, k, c, b, id = 1000000 + 7;
    int                     w;
    data_sieving_g = DIM > 1 ? (int)vt_fork(vt_range(0, 1)) : 0;
    for (i = 0; i < DIM; i++)
        base[i] = vt_range(0, 1u << 20);
    memset(&r, 0, sizeof(r));
    r.ndim   = DIM;
    r.offset = abs_o;
    r.size   = abs_n;
    for (w = 0; w < NW; w++) {
        uint8_t *buf;
        pick();
        c   = n[0] * n[1] * n[2] * UNIT;
        buf = (uint8_t *)malloc(c);
        for (i = 0; i < c; i++)
            buf[i] = vt_u8();
        for (i = 0; i < n[0]; i++)
            for (j = 0; j < n[1]; j++)
                for (k = 0; k < n[2]; k++) {
                    c = ((o[0] + i) * N1 + o[1] + j) * N2 + o[2] + k;
                    for (b = 0; b < UNIT; b++)
                        last[c * UNIT + b] = buf[((i * n[1] + j) * n[2] + k) * UNIT + b];
                    written[c] = 1;
                }
        VT_CHECK(PDC_Server_data_write_out(id, &r, buf, UNIT) == SUCCEED, "a region can be written");
        free(buf);
    }
    if (TWO) { /* another object in between */
        uint8_t *buf = (uint8_t *)malloc(CELLS * UNIT);
        memset(buf, 0xee, CELLS * UNIT);
        for (i = 0; i < 3; i++)
            abs_o[i] = base[i], abs_n[i] = N[i];
        VT_CHECK(PDC_Server_data_write_out(id + 1, &r, buf, UNIT) == SUCCEED, "another object can be written");
        free(buf);
    }
    pick();
    {
        uint64_t t   = n[0] * n[1] * n[2] * UNIT;
        uint8_t *buf = (uint8_t *)malloc(t);
        memset(buf, 0x77, t);
        VT_CHECK(PDC_Server_data_read_from(id, &r, buf, UNIT) == SUCCEED, "a region can be read");
        for (i = 0; i < n[0]; i++)
            for (j = 0; j < n[1]; j++)
                for (k = 0; k < n[2]; k++) {
                    c = ((o[0] + i) * N1 + o[1] + j) * N2 + o[2] + k;
                    for (b = 0; b < UNIT; b++) {
                        uint8_t got = buf[((i * n[1] + j) * n[2] + k) * UNIT + b];
                        if (written[c])
                            VT_CHECK(got == last[c * UNIT + b], "a read returns what was written last to each cell");
                        else
                            VT_CHECK(got == 0x77, "cells that were never written are not made up");
                    }
                }
    }
    VT_REACH("end");
}
