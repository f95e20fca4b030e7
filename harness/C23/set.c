#include "vt.h"
#include "pdc_set.h"
#define NK 4
typedef struct { int id; unsigned h; } kt;
static kt       keys[200];
static unsigned hf(SetValue k) { return ((kt *)k)->h; }
static int      ef(SetValue a, SetValue b) { return ((kt *)a)->id == ((kt *)b)->id; }
static int      frees[200];
static void     ff(SetValue k) { frees[((kt *)k)->id]++; }
static int      in[2][200], exf[200];
static unsigned n[2];
static void same(Set *s, int *want, unsigned cnt)
{
    int         seen[200] = {0};
    unsigned    tot       = 0;
    SetIterator it;
    VT_CHECK(s != NULL, "operation failed");
    VT_CHECK(set_num_entries(s) == cnt, "entry count wrong");
    set_iterate(s, &it);
    while (set_iter_has_more(&it)) { seen[((kt *)set_iter_next(&it))->id]++; if (++tot > cnt) break; }
    for (int k = 0; k < 80; k++) {
        VT_CHECK(seen[k] == want[k], "iteration misses or repeats an element");
        VT_CHECK((set_query(s, &keys[k]) != 0) == want[k], "membership query wrong");
    }
    SetValue *a = set_to_array(s);
    memset(seen, 0, sizeof seen);
    for (unsigned i = 0; i < cnt; i++) seen[((kt *)a[i])->id]++;
    for (int k = 0; k < 80; k++) VT_CHECK(seen[k] == want[k], "array form differs from the set");
    free(a);
}
void harness(void)
{
    static const unsigned H[NK] = {5, 5 + 193, 5 + 193u * 389u, 5 + 389};
    int                   base  = (int)vt_fork(vt_range(0, 1)) == 0 ? 0 : (int)vt_fork(vt_range(63, 64));
    Set *                 s[2]  = {set_new(hf, ef), set_new(hf, ef)};
    set_register_free_function(s[0], ff);
    for (int i = 0; i < 200; i++) { keys[i].id = i; keys[i].h = i < NK ? H[i] : (unsigned)i * 7; }
    for (int i = NK; i < NK + base; i++) { VT_CHECK(set_insert(s[0], &keys[i]) != 0, "insert failed"); in[0][i] = 1; n[0]++; }
    for (int i = 0; i < K; i++) {
        int op = (int)vt_fork(vt_range(0, 1)), k = (int)vt_fork(vt_range(0, NK - 1)), r = op ? set_remove(s[0], &keys[k]) : set_insert(s[0], &keys[k]);
        VT_CHECK((r != 0) == (op ? in[0][k] : !in[0][k]), "insert or remove: wrong result");
        if (op && in[0][k]) { exf[k]++; n[0]--; }
        if (!op && !in[0][k]) n[0]++;
        in[0][k] = !op;
        VT_CHECK(set_num_entries(s[0]) == n[0], "entry count wrong");
    }
    for (int k = 0; k < NK + 1; k++) if (vt_fork(vt_range(0, 1))) { VT_CHECK(set_insert(s[1], &keys[k]) != 0, "insert failed"); in[1][k] = 1; n[1]++; }
    same(s[0], in[0], n[0]);
    int      u[200], x[200];
    unsigned nu = 0, nx = 0;
    for (int k = 0; k < 80; k++) { nu += u[k] = in[0][k] | in[1][k]; nx += x[k] = in[0][k] & in[1][k]; }
    Set *su = set_union(s[0], s[1]), *sx = set_intersection(s[0], s[1]);
    same(su, u, nu);
    same(sx, x, nx);
    set_free(su); set_free(sx);
    same(s[0], in[0], n[0]);
    set_free(s[0]); set_free(s[1]);
    for (int k = 0; k < 80; k++) VT_CHECK(frees[k] == exf[k] + in[0][k], "elements not released exactly once");
    VT_REACH("end");
}
