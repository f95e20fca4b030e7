/* Every fan-out of a node (growth and shrink boundaries), then one arbitrary operation with an arbitrary byte
 * and an arbitrary lookup and iteration.  The live bytes always form an interval, so the reference is arithmetic. */
#include "vt.h"
#include "art.h"
#define BASE 100
static char vals[260];
static int  q, cnt, hits, bad;
static int cb(void *d, const unsigned char *k, uint32_t n, void *v)
{
    int c = k[PRE];
    bad  |= (n != PRE + 1) | (v != (void *)&vals[c]);
    hits += (c == q);
    cnt++;
    return 0;
}
static art_tree t;
static int has(int c, int lo, int hi) { return (c >= lo) & (c < hi); }
void harness(void)
{
    static const int up[] = FANS;
    static const int dn[] = DOWNS;
    unsigned char    k[PRE + 2];
    int              f = (int)vt_fork(vt_range(0, sizeof up / sizeof *up - 1)), n = up[f], lo = BASE, hi = BASE + n;
    art_tree_init(&t);
    memset(k, 'p', PRE);
    k[PRE + 1] = 0;
    for (int i = 0; i < n; i++) {
        int c = BASE + (i * STRIDE) % n;
        k[PRE] = c;
        VT_CHECK(art_insert(&t, k, PRE + 1, &vals[c]) == NULL, "fresh insert returns a value");
    }
    for (; hi - lo > dn[f]; lo++) {
        k[PRE] = lo;
        VT_CHECK(art_delete(&t, k, PRE + 1) == &vals[lo], "delete returns a wrong value");
    }
    int op = (int)vt_fork(vt_range(0, 2)), c = (int)vt_range(1, 255);
    if (op) { /* updates: outside the live interval, and its ends and middle */
        vt_assume((c <= 1) | (c == 255) | (c == lo - 1) | (c == lo) | (c == (lo + hi) / 2) | (c == hi - 1) | (c == hi));
        c = (int)vt_fork(c);
    }
    int is = has(c, lo, hi);
    n      = hi - lo;
    q      = (int)vt_range(1, 255);
    k[PRE] = (unsigned char)c;
    void *r = op == 0 ? art_search(&t, k, PRE + 1) : op == 1 ? art_insert(&t, k, PRE + 1, &vals[c]) : art_delete(&t, k, PRE + 1);
    VT_CHECK((r == NULL) == !is, "operation: presence of the key wrong");
    VT_CHECK(!is || r == (void *)&vals[c], "operation: wrong value returned");
    int total = n + (op == 1 ? 1 - is : 0) - (op == 2 ? is : 0);
    int in    = op == 1 ? (has(q, lo, hi) | (q == c)) : op == 2 ? (has(q, lo, hi) & (q != c)) : has(q, lo, hi);
    VT_CHECK(art_size(&t) == (uint64_t)total, "size does not equal the number of keys");
    art_iter_prefix(&t, k, PRE, cb, NULL);
    VT_CHECK(!bad && cnt == total, "iteration reports wrong keys");
    VT_CHECK(hits == in, "iteration misses or repeats a key");
    if (op) {
#ifdef QFORK
        q = (int)vt_fork(q);
#endif
        k[PRE] = (unsigned char)q;
        r = art_search(&t, k, PRE + 1);
        VT_CHECK(in ? r == (void *)&vals[q] : r == NULL, "lookup of another key changed");
    }
    art_tree_destroy(&t);
    VT_REACH("end");
}
