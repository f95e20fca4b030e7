/* Which servers DART sends an operation to (src/commons/index/dart/dart_core.c).
 * One client inserts a keyword while the load of every server is arbitrary; any client - its own request count
 * is arbitrary - then searches or deletes.  A query reaches the keyword when it is sent to at least one server
 * that was told to index the part of the keyword the query is answered from.                              */
#include "vt.h"
#include "dart_core.h"
#ifndef L
#define L 4
#endif
#ifndef SERVERS
#define SERVERS {1, 2, 3, 4, 27, 28}
#endif
#ifndef CHLO
#define CHLO 1
#endif
#ifndef CHHI
#define CHHI 127
#endif
threadpool thpool_init(int n) { (void)n; return NULL; }
static int ns;
/* the load of a server as a client learns it: anything, and it changes from call to call */
static dart_server load_of(uint32_t id)
{
    dart_server d;
    VT_CHECK(id < (uint32_t)ns, "the load of a server that does not exist is asked for");
    d.id                 = id;
    d.indexed_word_count = (int64_t)vt_bool();
    d.request_count      = 0;
    return d;
}
static void space(DART *d, int requests)
{
    memset(d, 0, sizeof(*d));
    int rep = ns / 10; /* as PDC_Client_init does */
    rep     = rep > 0 ? rep : 2;
    dart_space_init(d, 1, ns, 27, 0, rep);
    d->client_request_count = requests;
}
/* which suffix of w is this key? (its length tells, its bytes are checked) */
static char w[L + 1];
static int  len;
static int suffix_no(const char *key)
{
    size_t n = strlen(key);
    VT_CHECK(n <= (size_t)len, "the key of an index entry is longer than the keyword");
    int same = 1;
    for (size_t i = 0; i < n; i++)
        same &= key[i] == w[len - n + i];
    VT_CHECK(same, "the key of an index entry is not a suffix of the keyword");
    return len - (int)n;
}
/* was server s told to index (or to forget) suffix no. i?  Without branching: one question for the solver. */
static int has(index_hash_result_t *r, const int *no, int n, uint32_t s, int i)
{
    int y = 0;
    for (int k = 0; k < n; k++)
        if (no[k] == i)
            y |= r[k].server_id == s;
    return y;
}
static void ids_valid(index_hash_result_t *r, int n)
{
    VT_CHECK(n >= 0, "number of servers is negative");
    int y = 1;
    for (int i = 0; i < n; i++)
        y &= r[i].server_id < (uint32_t)ns;
    VT_CHECK(y, "an operation is sent to a server that does not exist");
}
#define MAXR 64
void harness(void)
{
    static const int servers[] = SERVERS;
    DART             a, b;
    char             tok[L + 1];
    int              ino[MAXR], qno[MAXR];
    index_hash_result_t *ins = NULL, *q = NULL;
    int              nins, nq, i, k, y;

    ns  = servers[vt_fork(vt_range(0, sizeof servers / sizeof *servers - 1))];
    len = (int)vt_fork(vt_range(1, L));
    memset(w, 0, sizeof w);
    for (i = 0; i < len; i++)
        w[i] = (char)vt_range(CHLO, CHHI);
    int done_before = (int)vt_range(0, 5);
    int kind        = (int)vt_fork(vt_range(OP_EXACT_QUERY, OP_DELETE));
    /* the part of the keyword that is looked for */
    int from = 0, to = len;
    if (kind == OP_PREFIX_QUERY)
        to = (int)vt_fork(vt_range(0, len));
    if (kind == OP_SUFFIX_QUERY)
        from = (int)vt_fork(vt_range(0, len - 1));
    if (kind == OP_INFIX_QUERY) {
        from = (int)vt_fork(vt_range(0, len - 1));
        to   = (int)vt_fork(vt_range(from, len));
    }
#ifdef FORK0
    { /* the character a search begins with */
        static const char first[] = FORK0;
        w[from]                   = first[vt_fork(vt_range(0, sizeof first - 2))];
    }
#endif
    space(&a, 0);
    space(&b, done_before);

    nins = DART_hash(&a, w, OP_INSERT, load_of, &ins);
    ids_valid(ins, nins);
    VT_CHECK(nins <= MAXR, "more index entries than suffixes and replicas");
    for (k = 0; k < nins; k++)
        ino[k] = suffix_no(ins[k].key);
    for (i = 0; i < len; i++) {
        int here = 0;
        for (k = 0; k < nins; k++)
            here |= ino[k] == i;
        VT_CHECK(here, "a suffix of the keyword is indexed nowhere");
    }
    if (kind == OP_DELETE) {
        nq = DART_hash(&b, w, OP_DELETE, NULL, &q);
        ids_valid(q, nq);
        VT_CHECK(nq <= MAXR, "more index entries than suffixes and replicas");
        for (k = 0; k < nq; k++)
            qno[k] = suffix_no(q[k].key);
        y = 1;
        for (i = 0; i < nins; i++)
            y &= has(q, qno, nq, ins[i].server_id, ino[i]);
        VT_CHECK(y, "deleting a keyword leaves out a server that indexes it");
        VT_REACH("deletion");
        return;
    }
    memset(tok, 0, sizeof tok);
    memcpy(tok, w + from, to - from);
    nq = DART_hash(&b, tok, (dart_op_type_t)kind, NULL, &q);
    ids_valid(q, nq);
    /* with the suffixes indexed, an infix is a prefix of one of them: the one that begins where the infix does */
    for (y = 0, k = 0; k < nq; k++)
        y |= has(ins, ino, nins, q[k].server_id, from);
    VT_CHECK(y, "a search leaves out every server that indexes the keyword");
    VT_REACH("search");
}
