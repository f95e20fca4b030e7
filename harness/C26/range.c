#include "vt.h"
#include "query_utils.h"
void harness(void)
{
    char list[40];
    int  x = (int)vt_range(0, 99), y = (int)vt_range(0, 9), lo = vt_i32(), hi = vt_i32(), which = (int)vt_fork(vt_range(0, 2));
    char a[] = "k=00,m=0";
    a[2] = (char)('0' + x / 10); a[3] = (char)('0' + x % 10); a[7] = (char)('0' + y);
    strcpy(list, a);
    int want = which == 0 ? (x >= lo && x <= hi) : which == 1 ? (y >= lo && y <= hi) : 0;
    VT_CHECK((is_value_in_range(list, which == 0 ? "k" : which == 1 ? "m" : "z", lo, hi) != 0) == want, "range test wrong");
    VT_REACH("end");
}
