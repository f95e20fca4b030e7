/* Pattern kinds and matching against the definition: '*' at an end stands for any characters, all others literally. */
#include "vt.h"
#include "string_utils.h"
static int sub(const char *s, size_t ns, const char *t, size_t nt, int atstart, int atend)
{
    int r = 0;
    for (size_t i = 0; i + nt <= ns; i++) {
        if ((atstart && i) || (atend && i + nt != ns)) continue;
        int eq = 1;
        for (size_t k = 0; k < nt; k++) eq &= s[i + k] == t[k];
        r |= eq;
    }
    return r;
}
void harness(void)
{
    char   sb[NS + 1], pb[NP + 1];
    size_t ns = vt_str(sb, NS, 1, 255), np = vt_fork(vt_range(0, NP));
    int    lead = (int)vt_fork(vt_range(0, 1)), tail = (int)vt_fork(vt_range(0, 1));
    for (size_t i = 0; i < np; i++) pb[i] = (char)vt_range(1, 255);
    pb[np] = 0;
    /* decide the ends by construction */
    if (np > 0) {
        if (lead) pb[0] = '*'; else vt_assume(pb[0] != '*');
        if (np > 1 && tail) pb[np - 1] = '*';
        if (np > 1 && !tail) vt_assume(pb[np - 1] != '*');
        if (np == 1) tail = lead;
    }
    else lead = tail = 0;
    char *s = vt_dup(sb, ns + 1), *p = vt_dup(pb, np + 1);
    VT_CHECK(determine_pattern_type(p) == (lead ? (tail ? PATTERN_MIDDLE : PATTERN_SUFFIX) : tail ? PATTERN_PREFIX : PATTERN_EXACT), "pattern kind wrong");
    int want = np == 1 && lead ? 1 : sub(s, ns, p + lead, np - lead - tail, !lead, !tail);
    VT_CHECK((simple_matches(s, p) != 0) == want, "pattern matching differs from its meaning");
    VT_CHECK((startsWith(s, p) != 0) == sub(s, ns, p, np, 1, 0), "prefix test wrong");
    VT_CHECK((endsWith(s, p) != 0) == sub(s, ns, p, np, 0, 1), "suffix test wrong");
    VT_CHECK((contains(s, p) != 0) == sub(s, ns, p, np, 0, 0), "containment test wrong");
    VT_CHECK((equals(s, p) != 0) == (ns == np && sub(s, ns, p, np, 1, 1)), "equality test wrong");
    VT_CHECK(simple_matches(NULL, p) == 0 && simple_matches(s, NULL) == 0 && !startsWith(NULL, p) && !endsWith(s, NULL), "null operands match");
    VT_REACH("end");
}
