/* A generated query matches the tag it was generated from, and asks for exactly the given affix. */
#include "vt.h"
#include "query_utils.h"
void harness(void)
{
    char              nb[NS + 1], vb[NS + 1];
    size_t            nn = vt_fork(vt_range(1, NS)), nv = vt_fork(vt_range(1, NS));
    for (size_t i = 0; i < nn; i++) { nb[i] = (char)vt_range(1, 255); vt_assume(nb[i] != '*'); }
    for (size_t i = 0; i < nv; i++) { vb[i] = (char)vt_range(1, 255); vt_assume(vb[i] != '*'); }
    nb[nn] = vb[nv] = 0;
    pdc_kvtag_t t;
    memset(&t, 0, sizeof t);
    t.name = vt_dup(nb, nn + 1);
    t.type = PDC_STRING;
    t.value = vt_dup(vb, nv + 1);
    t.size  = nv + 1;
    query_gen_input_t  in;
    query_gen_output_t out;
    memset(&in, 0, sizeof in);
    memset(&out, 0, sizeof out);
    in.base_tag         = &t;
    in.key_query_type   = (int)vt_fork(vt_range(0, 3));
    in.value_query_type = (int)vt_fork(vt_range(0, 3));
    in.affix_len        = (int)vt_fork(vt_range(1, NS + 1));
    gen_query_key_value(&in, &out);
    char *k = out.key_query, *v = out.value_query;
    VT_CHECK(k && v, "no query");
    VT_CHECK(strlen(k) == out.key_query_len && strlen(v) == out.value_query_len, "reported length wrong");
    VT_CHECK(simple_matches(t.name, k), "the key query does not match the key it was generated from");
    VT_CHECK(simple_matches((char *)t.value, v), "the value query does not match the value it was generated from");
    size_t ln = strlen(t.name), lv = strlen((char *)t.value), al = (size_t)in.affix_len;
    size_t stars[] = {0, 1, 1, 2};
    VT_CHECK(out.key_query_len == (in.key_query_type == 0 ? ln : (al < ln ? al : ln) + stars[in.key_query_type]), "key query has a wrong affix length");
    VT_CHECK(out.value_query_len == (in.value_query_type == 0 ? lv : (al < lv ? al : lv) + stars[in.value_query_type]), "value query has a wrong affix length");
    char *q = gen_query_str(&out);
    VT_CHECK(q && strlen(q) == out.key_query_len + 1 + out.value_query_len && !strncmp(q, k, out.key_query_len) && q[out.key_query_len] == '=' && !strcmp(q + out.key_query_len + 1, v), "query string is not key=value");
    free(q);
    free_query_output(&out);
    VT_REACH("end");
}
