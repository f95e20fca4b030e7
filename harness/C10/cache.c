/* Region writes and reads through the server's write-back cache: a read returns what was written last, whatever the
 * cache flushed in between and whoever else used it. */
#include "vt.h"
#include "pdc_client_server_common.h"
#include "pdc_server_data.h"
#include "pdc_server_region_cache.h"
#include <mpi.h>
#define CELLS (N0 * N1 * N2)
#define FS_CAP (CELLS * UNIT + 256)
#include "fakefs.h"
#ifndef NW
#define NW 2
#endif

int             pdc_server_rank_g = 0, pdc_server_size_g = 1;
void            PDC_mkdir(const char *d) { (void)d; }
int             MPI_Comm_rank(MPI_Comm c, int *r) { (void)c; *r = 0; return 0; }
static uint64_t dims[3] = {N0, N1, N2};
static uint64_t O[2][3], S[2][3], *o = O[0], *n = S[0]; /* [1]: of a second thread */
static struct pdc_region_info RR[2];
#define R (RR[o == O[1]])
static uint8_t  last[CELLS * UNIT], other[CELLS * UNIT], written[CELLS], by_other[CELLS];
static int      odim;
static const uint64_t ID = 1000007;

/* locks: a second thread may run whenever one is released */
static int  held, nested, budget, checking;
static long now = 100;
static void (*second)(void);
int vt_mtx_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m, (void)a; return 0; }
int vt_mtx_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int vt_mtx_lock(pthread_mutex_t *m)
{
    if (m != &pdc_obj_cache_list_mutex)
        return 0;
    VT_CHECK(!held, "the cache lock is never taken twice");
    held = 1;
    return 0;
}
int vt_mtx_unlock(pthread_mutex_t *m)
{
    if (m != &pdc_obj_cache_list_mutex)
        return 0;
    VT_CHECK(held, "the cache lock is released by its owner");
    held = 0;
    if (second && !nested && vt_fork(vt_range(0, 1))) {
        void (*f)(void) = second;
        second          = NULL;
        nested          = 1;
        f();
        nested = 0;
    }
    return 0;
}
int vt_thread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { (void)t, (void)a, (void)f, (void)x; return 0; }
int vt_thread_join(pthread_t t, void **r) { (void)t, (void)r; return 0; }
int vt_time(struct timeval *tv, void *z) { (void)z; tv->tv_sec = now; tv->tv_usec = 0; return 0; }
char *vt_getenv(const char *s)
{
#ifdef MAXSZ
    static char v[] = MAXSZ;
    if (strcmp(s, "PDC_SERVER_CACHE_MAX_SIZE") == 0)
        return v;
#endif
    (void)s;
    return NULL;
}

static uint64_t pick(void)
{
    for (int d = 0; d < 3; d++) {
        uint64_t k = dims[d] * (dims[d] + 1) / 2, v = vt_fork(vt_range(0, k - 1)), c = 0;
        for (o[d] = 0; o[d] < dims[d]; o[d]++) {
            if (v < c + dims[d] - o[d])
                break;
            c += dims[d] - o[d];
        }
        n[d] = v - c + 1;
    }
    memset(&R, 0, sizeof(R));
    R.ndim   = DIM;
    R.offset = o;
    R.size   = n;
    return n[0] * n[1] * n[2];
}
static uint64_t cell(uint64_t i, uint64_t j, uint64_t k) { return ((o[0] + i) * N1 + o[1] + j) * N2 + o[2] + k; }

static void write_any(int second_thread)
{
    uint64_t i, j, k, b, t = pick() * UNIT;
    uint8_t *buf = (uint8_t *)malloc(t), *p = buf;
    for (i = 0; i < t; i++)
        buf[i] = vt_u8();
    for (i = 0; i < n[0]; i++)
        for (j = 0; j < n[1]; j++)
            for (k = 0; k < n[2]; k++)
                for (b = 0; b < UNIT; b++) {
                    (second_thread ? other : last)[cell(i, j, k) * UNIT + b] = *p++;
                    if (second_thread)
                        by_other[cell(i, j, k)] = 1;
                    else
                        written[cell(i, j, k)] = 1;
                }
    VT_CHECK(PDC_transfer_request_data_write_out(ID, odim, odim ? dims : NULL, &R, buf, UNIT) == SUCCEED, "a region can be written");
    free(buf);
}
static uint8_t *read_R(uint64_t t)
{
    uint8_t *buf = (uint8_t *)malloc(t);
    memset(buf, 0x77, t);
    VT_CHECK(PDC_transfer_request_data_read_from(ID, odim, odim ? dims : NULL, &R, buf, UNIT) == SUCCEED, "a region can be read");
    return buf;
}
static void check_R(void)
{
    uint64_t i, j, k, b, t = n[0] * n[1] * n[2] * UNIT;
    uint8_t *buf = read_R(t), *p = buf;
    for (i = 0; i < n[0]; i++)
        for (j = 0; j < n[1]; j++)
            for (k = 0; k < n[2]; k++)
                for (b = 0; b < UNIT; b++, p++) {
                    uint64_t c = cell(i, j, k);
                    if (written[c])
                        VT_CHECK(*p == last[c * UNIT + b], "a read returns what was written last to each cell");
                }
    free(buf);
}
static void all(void)
{
    for (int d = 0; d < 3; d++)
        o[d] = 0, n[d] = dims[d];
    check_R();
}
#ifdef CONC
static void second_write(void)
{
    o = O[1], n = S[1];
    write_any(1);
    o = O[0], n = S[0];
}

#endif
/* a second thread: the periodic flusher, or a read of the whole object that forces a flush */
static int iterations;
int vt_sleep(unsigned us)
{
    (void)us;
    iterations++;
    second = NULL;
    pick();
    check_R();
    PDC_region_server_cache_finalize();
    all();
    VT_CHECK(!held, "the cache lock is free when nobody uses the cache");
    VT_REACH("flusher");
    return 0;
}
static void flush_one(void)
{
    vt_mtx_lock(&pdc_obj_cache_list_mutex);
    PDC_region_cache_flush(ID);
    vt_mtx_unlock(&pdc_obj_cache_list_mutex);
}

void
harness(void)
{
    int w;
#if ODIM0
    odim = 0; /* the object's shape is not known: storage keeps the regions themselves */
#else
    odim = DIM;
#endif
    PDC_region_server_cache_init();
#ifdef CONC
    {   /* two threads write: one of the two orders must result, and stay */
        uint64_t i;
        uint8_t *b1, *b2;
        second = second_write;
        write_any(0);
        if (second) {
            second = NULL, nested = 1;
            write_any(1);
            nested = 0;
        }
        for (int d = 0; d < 3; d++)
            o[d] = 0, n[d] = dims[d];
        pick();
        i  = n[0] * n[1] * n[2] * UNIT;
        b1 = read_R(i);
        if (vt_fork(vt_range(0, 1)))
            flush_one();
        else
            PDC_region_cache_flush_all();
        b2 = read_R(i);
        for (i = 0; i < n[0] * n[1] * n[2]; i++) {
            uint64_t c = cell(i / (n[1] * n[2]), i / n[2] % n[1], i % n[2]);
            if (!written[c] && !by_other[c])
                continue;
            VT_CHECK(memcmp(b1 + i * UNIT, b2 + i * UNIT, UNIT) == 0, "what concurrent writes left behind does not change with a flush");
            VT_CHECK((written[c] && memcmp(b1 + i * UNIT, last + c * UNIT, UNIT) == 0) || (by_other[c] && memcmp(b1 + i * UNIT, other + c * UNIT, UNIT) == 0),
                     "each cell holds what one of the concurrent writes put there");
        }
        free(b1);
        free(b2);
        VT_REACH("end");
        return;
    }
#endif
    for (w = 0; w < NW; w++) {
        second = w == FLUSH_IN ? flush_one : NULL;
        write_any(0);
    }
    second = NULL;
    if (vt_fork(vt_range(0, 1))) { /* the flusher wakes up */
        now += (long)vt_range(0, 100000);
        PDC_region_cache_clock_cycle(NULL);
        VT_CHECK(iterations == 1, "the flusher ends when the server does");
    }
    else {
        pick();
        check_R();
        PDC_region_cache_flush_all();
        all();
        VT_CHECK(!held, "the cache lock is free when nobody uses the cache");
        VT_REACH("end");
    }
}
