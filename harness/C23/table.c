/* The two hash tables and the set against a reference map: every sequence of K operations over NK keys whose
 * hashes collide or not, started before, at and after the point where the table grows. */
#include "vt.h"
#if defined(SERVER)
#include "pdc_hash-table.h"
#else
#include "pdc_hash_table.h"
#endif
#define NK 4
typedef struct { int id; unsigned h; } kt;
static int frees[200], vfrees[200];
static kt  keys[200];
static unsigned hf(HashTableKey k) { return ((kt *)k)->h; }
static int      ef(HashTableKey a, HashTableKey b) { return ((kt *)a)->id == ((kt *)b)->id; }
static void     kf(HashTableKey k) { frees[((kt *)k)->id]++; }
static void     vf(HashTableValue v) { vfrees[*(int *)v]++; }
static int      vals[200], val2[NK];
static HashTable *t;
static HashTableValue cur[200];
static int      n, expfree[200], expvfree[200];
void harness(void)
{
    static const unsigned H[NK] = {5, 5 + 193, 5 + 193u * 389u, 5 + 389};
    int                   base  = (int)vt_fork(vt_range(0, 2)) == 0 ? 0 : (int)vt_fork(vt_range(62, 64));
    int                   own   = (int)vt_fork(vt_range(0, 1));
    t = hash_table_new(hf, ef);
    VT_CHECK(t != NULL && hash_table_num_entries(t) == 0, "new table is not empty");
    if (own) hash_table_register_free_functions(t, kf, vf);
    for (int i = 0; i < 200; i++) { keys[i].id = i; keys[i].h = i < NK ? H[i] : (unsigned)i * 7; vals[i] = i; }
    for (int i = 0; i < NK; i++) val2[i] = i;
    for (int i = NK; i < NK + base; i++) { VT_CHECK(hash_table_insert(t, &keys[i], &vals[i]) != 0, "insert failed"); cur[i] = &vals[i]; n++; }
    for (int i = 0; i < K; i++) {
        int op = (int)vt_fork(vt_range(0, 2)), k = (int)vt_fork(vt_range(0, NK - 1));
        if (op == 2) {
            int r = hash_table_remove(t, &keys[k]);
            VT_CHECK((r != 0) == (cur[k] != NULL), "remove: wrong result");
            if (cur[k]) { n--; cur[k] = NULL; expfree[k]++; expvfree[k]++; }
        }
        else {
            HashTableValue v = op ? (HashTableValue)&val2[k] : (HashTableValue)&vals[k];
            VT_CHECK(hash_table_insert(t, &keys[k], v) != 0, "insert failed");
            if (cur[k]) { expfree[k]++; expvfree[k]++; }
            else n++;
            cur[k] = v;
        }
        VT_CHECK(hash_table_num_entries(t) == (unsigned)n, "entry count wrong");
    }
    for (int k = 0; k < NK + base; k++) VT_CHECK(hash_table_lookup(t, &keys[k]) == cur[k], "lookup wrong");
    HashTableIterator it;
    int               seen[200] = {0}, tot = 0;
    hash_table_iterate(t, &it);
    while (hash_table_iter_has_more(&it)) {
#ifdef SERVER
        HashTablePair p = hash_table_iter_next(&it);
#else
        HashTablePair p = hash_table_iter_next(&it);
#endif
        kt *k = (kt *)p.key;
        VT_CHECK(p.value == cur[k->id], "iteration: wrong value");
        seen[k->id]++;
        if (++tot > n) break;
    }
    for (int k = 0; k < NK + base; k++) VT_CHECK(seen[k] == (cur[k] != NULL), "iteration misses or repeats an entry");
    hash_table_free(t);
    for (int k = 0; k < NK + base; k++) {
        VT_CHECK(frees[k] == (own ? expfree[k] + (cur[k] != NULL) : 0), "keys not released exactly once");
        VT_CHECK(vfrees[k] == (own ? expvfree[k] + (cur[k] != NULL) : 0), "values not released exactly once");
    }
    VT_REACH("end");
}
