/* The hash reads exactly the key's bytes, and depends on nothing else. */
#include "vt.h"
#include "pdc_murmur.h"
void harness(void)
{
    int      n = (int)vt_fork(vt_range(0, MAXN)), sh = (int)vt_fork(vt_range(0, 1));
    char     a[MAXN + 1];
    uint64_t o1[2] = {1, 2}, o2[2] = {3, 4}; /* every output word must be written */
    for (int i = 0; i < n; i++) a[i] = (char)vt_u8();
    char *x = vt_dup(a, n), *y = malloc(n + 8);
    for (int i = 0; i < n + 8; i++) y[i] = (char)(i * 37);
    for (int i = 0; i < n; i++) y[i + sh] = a[i];
    uint32_t seed = vt_u32();
    MurmurHash3_x64_128(x, n, seed, o1);
    MurmurHash3_x64_128(y + sh, n, seed, o2);
    VT_CHECK(o1[0] == o2[0] && o1[1] == o2[1], "the hash depends on more than the key's bytes");
    for (int i = 0; i < n; i++) VT_CHECK(x[i] == a[i], "the key is modified");
    VT_REACH("end");
}
