/* Tag lists "k=v,k=v,...": the tests answer exactly by the pairs that occur. */
#include "vt.h"
#include "query_utils.h"
#define N 2
static char ks[N][3], vs[N][3];
static void word(char *b, size_t max)
{
    size_t n = vt_fork(vt_range(1, max));
    for (size_t i = 0; i < n; i++) b[i] = vt_bool() ? 'b' : 'a';
    b[n] = 0;
}
void harness(void)
{
    char list[40] = "", p[5], w[5];
    int  n        = (int)vt_fork(vt_range(0, N));
    for (int i = 0; i < n; i++) {
        word(ks[i], 2); word(vs[i], 2);
        if (i) strcat(list, ",");
        strcat(list, ks[i]); strcat(list, "="); strcat(list, vs[i]);
    }
    int pl = (int)vt_fork(vt_range(0, 3));
    p[0] = 0; w[0] = 0;
    char t[3], u[3];
    word(t, 1); word(u, 1);
    if (pl & 1) strcat(p, "*");
    strcat(p, t);
    if (pl & 2) strcat(p, "*");
    strcat(w, u);
    if (pl & 2) strcat(w, "*");
    int hk = 0, hb = 0;
    for (int i = 0; i < n; i++) { hk |= simple_matches(ks[i], p) != 0; hb |= simple_matches(ks[i], p) && simple_matches(vs[i], w); }
    char keep[40];
    strcpy(keep, list);
    VT_CHECK((has_tag_p(list, p) != 0) == hk && (has_tag(list, p) != 0) == hk, "tag presence wrong");
    VT_CHECK((is_value_match_p(list, p, w) != 0) == hb && (is_value_match(list, p, w) != 0) == hb, "tag value match wrong");
    char *r = k_v_matches_p(list, p, w);
    VT_CHECK((r != NULL) == hb, "matching pair wrong");
    if (r) {
        char *k = get_key(r, '='), *v = get_value(r, '=');
        VT_CHECK(simple_matches(k, p) && simple_matches(v, w), "the returned pair does not match");
    }
    VT_CHECK(!strcmp(keep, list), "the tag list is modified");
    VT_REACH("end");
}
