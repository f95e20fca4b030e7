#include "vt.h"
#include "string_utils.h"
#include "query_utils.h"
void harness(void)
{
    char   sb[NS + 1];
    size_t n  = vt_str(sb, NS, 1, 255);
    char * s  = vt_dup(sb, n + 1);
    int    st = (int)vt_fork(vt_range(0, NS + 3)) - 1, en = (int)vt_fork(vt_range(0, NS + 3)) - 1;
    char * r  = substring(s, st, en);
    if (st < 0 || en < st || st > (int)n) VT_CHECK(r == NULL, "an invalid range yields a string");
    else {
        int e = en > (int)n ? (int)n : en;
        VT_CHECK(r != NULL && (int)strlen(r) == e - st, "substring has a wrong length");
        for (int i = st; i < e; i++) VT_CHECK(r[i - st] == s[i], "substring differs");
    }
    if (st >= 0) {
        char *a = substr(s, st), *b = subrstr(s, st);
        if (st <= (int)n) VT_CHECK(a && strcmp(a, s + st) == 0, "substr differs");
        else VT_CHECK(a == NULL, "substr beyond the string");
        VT_CHECK(b && (int)strlen(b) == (st < (int)n ? st : (int)n) && strncmp(b, s, strlen(b)) == 0, "subrstr differs");
    }
    char *v = reverse_str(s);
    VT_CHECK(v && strlen(v) == n, "reversal has a wrong length");
    for (size_t i = 0; i < n; i++) VT_CHECK(v[i] == s[n - 1 - i], "reversal differs");
    char d  = (char)vt_range(1, 255);
    int  at = -1;
    for (size_t i = n; i-- > 0;) at = s[i] == d ? (int)i : at;
    at = (int)vt_fork((uint64_t)(at + 1)) - 1;
    VT_CHECK(indexOf(s, d) == at, "indexOf wrong");
    char *k = get_key(s, d), *w = get_value(s, d);
    if (at < 0) VT_CHECK(k == NULL && w == NULL, "key or value without a delimiter");
    else VT_CHECK(k && w && (int)strlen(k) == at && strncmp(k, s, at) == 0 && strcmp(w, s + at + 1) == 0, "key and value are not the parts around the first delimiter");
    VT_REACH("end");
}
