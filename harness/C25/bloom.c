/* Counting and scaling Bloom filters: the hash of each key is an arbitrary fixed value, so the statement holds for
 * any hash function and any keys
 * (the scaling variant bounds the hash words).  No false negatives; removal of one key never loses another; an emptied filter
 * reports nothing. */
#include "vt.h"
#include "pdc_dablooms.h"
#define NK 3
static uint32_t hs[NK][2];
void MurmurHash3_x64_128(const void *key, int len, uint32_t seed, void *out)
{
    int k = *(const char *)key - 'a';
    VT_CHECK(len == 2 && ((const char *)key)[1] == 'x', "hash applied to something else than the key");
    ((uint32_t *)out)[0] = hs[k][0];
    ((uint32_t *)out)[1] = hs[k][1];
    ((uint32_t *)out)[2] = ((uint32_t *)out)[3] = 77;
}
static char names[NK][3] = {"ax", "bx", "cx"};
#ifdef SCALE
#define PICK() ((uint32_t)vt_fork(vt_range(0, 2)))
#else
#define PICK() vt_u32()
#endif
void harness(void)
{
    int cap = CAP, in[NK] = {0}, tot = 0;
    for (int k = 0; k < NK; k++) { hs[k][0] = PICK(); hs[k][1] = PICK(); }
#ifdef SCALE
    scaling_bloom_t *b = new_scaling_bloom(cap, ERR);
    uint64_t         id = 0, ids[NK];
#else
    counting_bloom_t *b = new_counting_bloom(cap, ERR);
#endif
    VT_CHECK(b != NULL, "no filter");
    for (int i = 0; i < K; i++) {
        int k = (int)vt_fork(vt_range(0, NK - 1)), rm = in[k] ? (int)vt_fork(vt_range(0, 1)) : 0;
#ifdef SCALE
        if (rm) VT_CHECK(scaling_bloom_remove(b, names[k], 2, ids[k]) == 1, "remove failed");
        else { if (in[k]) break; ids[k] = id; id += 1 + i % 2; VT_CHECK(scaling_bloom_add(b, names[k], 2, ids[k]) == 1, "add failed"); }
#else
        if (rm) VT_CHECK(counting_bloom_remove(b, names[k], 2) == 0, "remove failed");
        else VT_CHECK(counting_bloom_add(b, names[k], 2) == 0, "add failed");
#endif
        in[k] += rm ? -1 : 1;
        tot += rm ? -1 : 1;
    }
    for (int k = 0; k < NK; k++) {
#ifdef SCALE
        int r = scaling_bloom_check(b, names[k], 2);
#else
        int r = counting_bloom_check(b, names[k], 2);
#endif
        VT_CHECK(!in[k] || r, "false negative: a key in the filter is reported absent");
        VT_CHECK(tot || !r, "an empty filter reports a key");
    }
#ifdef SCALE
    free_scaling_bloom(b);
#else
    free_counting_bloom(b);
#endif
    VT_REACH("end");
}
