/* Which servers the two DHT variants send an operation to (DHT_hash): by the whole keyword or by its first
 * character only.  A keyword is indexed on exactly one server.                                            */
#include "vt.h"
#include "dart_core.h"
#ifndef L
#define L 3
#endif
threadpool thpool_init(int n) { (void)n; return NULL; }
static int ns, initial;
static int hash(DART *d, char *k, dart_op_type_t op, index_hash_result_t **o) { return DHT_hash(d, initial ? 1 : strlen(k), k, op, o); }

void harness(void)
{
    DART                 a, b;
    char                 w[L + 1], tok[L + 1];
    index_hash_result_t *ins = NULL, *q = NULL;
    int                  nins, nq, i, k, y, from = 0, to, len;

    initial  = (int)vt_fork(vt_bool());
    ns       = (int)vt_fork(vt_range(1, 4));
    len      = to = (int)vt_fork(vt_range(1, L));
    memset(w, 0, sizeof w);
    for (i = 0; i < len; i++)
        w[i] = (char)vt_range(1, 255);
    int kind = (int)vt_fork(vt_range(OP_EXACT_QUERY, OP_DELETE));
    if (kind == OP_PREFIX_QUERY || kind == OP_INFIX_QUERY)
        to = (int)vt_fork(vt_range(1, len));
    if (kind == OP_SUFFIX_QUERY || kind == OP_INFIX_QUERY)
        from = (int)vt_fork(vt_range(0, to - 1));
    memset(&a, 0, sizeof a);
    dart_space_init(&a, 1, ns, 27, 0, 2);
    b = a;
    memset(tok, 0, sizeof tok);
    memcpy(tok, w + from, to - from);

    nins = hash(&a, w, OP_INSERT, &ins);
    VT_CHECK(nins == 1, "a keyword is indexed on one server");
    VT_CHECK(ins[0].server_id < (uint32_t)ns, "an operation is sent to a server that does not exist");
    VT_CHECK(strcmp(ins[0].key, w) == 0, "the keyword indexed is not the one given");
    nq = hash(&b, kind == OP_DELETE ? w : tok, (dart_op_type_t)kind, &q);
    VT_CHECK(nq >= 1 && nq <= ns, "number of servers");
    for (y = 0, i = 1, k = 0; k < nq; k++) {
        i &= q[k].server_id < (uint32_t)ns;
        y |= q[k].server_id == ins[0].server_id;
    }
    VT_CHECK(i, "an operation is sent to a server that does not exist");
    VT_CHECK(y, "a search or deletion leaves out the server that indexes the keyword");
    if (kind == OP_DELETE)
        VT_CHECK(strcmp(q[0].key, w) == 0, "the keyword deleted is not the one given");
    VT_REACH("done");
}
