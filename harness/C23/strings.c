#include "vt.h"
#include "pdc_hash_table.h"
#include "pdc_hash.h"
#include "pdc_compare.h"
extern int pdc_default_string_equal_func(void *, void *);
extern unsigned pdc_default_string_hash_func(void *);
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void harness(void)
{
    char x[4], y[4];
    int  ascii = 1;
    vt_str(x, 3, 1, 255); vt_str(y, 3, 1, 255);
    int cmp = 0, ncmp = 0;
    for (int i = 0; i < 4 && !cmp; i++) cmp = (int)(unsigned char)x[i] - (int)(unsigned char)y[i];
    for (int i = 0; i < 4 && !ncmp; i++) ncmp = lower((unsigned char)x[i]) - lower((unsigned char)y[i]);
    VT_CHECK((pdc_default_string_equal_func(x, y) != 0) == (cmp == 0), "string equality");
    VT_CHECK((string_equal(x, y) != 0) == (cmp == 0), "string key equality");
    VT_CHECK((string_nocase_equal(x, y) != 0) == (ncmp == 0), "case-insensitive equality");
    int c = string_compare(x, y), d = string_nocase_compare(x, y);
    VT_CHECK((c < 0) == (cmp < 0) && (c > 0) == (cmp > 0), "string order");
    for (int i = 0; i < 3; i++) ascii &= ((unsigned char)x[i] < 128) & ((unsigned char)y[i] < 128);
    VT_CHECK((!ascii || (d < 0) == (ncmp < 0)) && (!ascii || (d > 0) == (ncmp > 0)), "case-insensitive order");
    /* equal strings (other bytes after the end), and strings equal up to case, hash equally */
    char z[6], l[3];
    size_t n = strlen(x);
    for (size_t i = 0; i < 6; i++) z[i] = i < n ? x[i] : i == n ? 0 : 'z';
    VT_CHECK(pdc_default_string_hash_func(x) == pdc_default_string_hash_func(z) && string_hash(x) == string_hash(z) && string_nocase_hash(x) == string_nocase_hash(z), "equal strings hash differently");
    if (n < 3) {
        for (size_t i = 0; i < 3; i++) l[i] = (char)lower((unsigned char)x[i]);
        VT_CHECK(string_nocase_hash(x) == string_nocase_hash(l), "strings equal up to case hash differently");
    }
    VT_REACH("end");
}
