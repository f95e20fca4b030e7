/* The radix-tree index against a reference map: symbolic keys, symbolic operation sequence. */
#include "vt.h"
#include "art.h"
#ifndef L
#define L 2 /* longest key */
#endif
#ifndef K
#define K 3 /* operations */
#endif
#ifndef FIX
#define FIX 0 /* leading bytes that are always 'a' */
#endif
#ifndef MINL
#define MINL 0
#endif
#ifndef LO
#define LO 1
#endif
#ifndef HI
#define HI 255
#endif
typedef struct { char *k; size_t n; int live; void *v; } ent;
static ent  T[K + 1];
static int  nT;
static char vals[K + 1];
static int eq(const char *a, size_t na, const char *b, size_t nb) { return na == nb && !memcmp(a, b, na); }
static int find(const char *k, size_t n)
{
    for (int i = 0; i < nT; i++)
        if (eq(T[i].k, T[i].n, k, n)) return i;
    return -1;
}
static char *key(size_t *n)
{
    size_t len = vt_fork(vt_range(MINL, L));
    char * p   = malloc(len + 1);
#ifdef PATTERN /* a known sequence of different letters, at most one of them replaced */
    size_t at = vt_fork(vt_range(0, len));
    for (size_t i = 0; i < len; i++) p[i] = i == at ? 'z' : (char)('a' + i % 20);
#else
    for (size_t i = 0; i < len; i++) p[i] = i < FIX ? 'a' : (char)vt_range(LO, HI);
#endif
    p[len] = 0;
    *n     = len;
    return p;
}
static int seen[K + 1], foreign, total;
static const char *pre;
static size_t      npre;
static int cb(void *d, const unsigned char *k, uint32_t n, void *v)
{
    total++;
    VT_CHECK(d == (void *)seen, "iteration: callback data not passed through");
    int i = find((const char *)k, n);
    if (i < 0 || !T[i].live) foreign++;
    else {
        seen[i]++;
        VT_CHECK(v == T[i].v, "iteration: wrong value for a key");
    }
    return 0;
}
static void check_all(art_tree *t)
{
    int live = 0;
    for (int i = 0; i < nT; i++) live += T[i].live;
    VT_CHECK(art_size(t) == (uint64_t)live, "size does not equal the number of keys");
    for (int i = 0; i < nT; i++)
        VT_CHECK(art_search(t, (unsigned char *)T[i].k, (int)T[i].n) == (T[i].live ? T[i].v : NULL), "lookup of a key used before is wrong");
}
void harness(void)
{
    art_tree t;
    art_tree_init(&t);
    for (int i = 0; i < K; i++) {
        size_t n; char *k = key(&n);
        int op = (int)vt_fork(vt_range(0, i < MININS ? 0 : 2)); /* 0 insert, 1 insert without replacing, 2 delete */
        int j = find(k, n);
        void *old = (j >= 0 && T[j].live) ? T[j].v : NULL;
        if (op < 2) {
            void *r = op ? art_insert_no_replace(&t, (unsigned char *)k, (int)n, &vals[i]) : art_insert(&t, (unsigned char *)k, (int)n, &vals[i]);
            VT_CHECK(r == old, "insert does not return the previous value");
            if (j < 0) { j = nT++; T[j].k = k; T[j].n = n; }
            if (!T[j].live || op == 0) T[j].v = &vals[i];
            T[j].live = 1;
        }
        else {
            VT_CHECK(art_delete(&t, (unsigned char *)k, (int)n) == old, "delete does not return the stored value");
            if (j >= 0) T[j].live = 0;
        }
        check_all(&t);
    }
    /* any key */
#ifdef PATTERN
    size_t n = vt_fork(vt_range(0, T[0].n));
    char * k = T[0].k;
#else
    size_t n; char *k = key(&n);
#endif
    int j = find(k, n);
    VT_CHECK(art_search(&t, (unsigned char *)k, (int)n) == (j >= 0 && T[j].live ? T[j].v : NULL), "lookup of an arbitrary key is wrong");
    /* prefix iteration reports exactly the live keys with that prefix, once each */
    foreign = total = 0;
    VT_CHECK(art_iter_prefix(&t, (unsigned char *)k, (int)n, cb, seen) == 0, "prefix iteration: return value");
    VT_CHECK(foreign == 0, "prefix iteration: reports a key that is not stored");
    for (int i = 0; i < nT; i++) {
        int m = T[i].live && T[i].n >= n && !memcmp(T[i].k, k, n);
        VT_CHECK(seen[i] == m, "prefix iteration: key missing, repeated or not matching");
        seen[i] = 0;
    }
    VT_CHECK(art_iter(&t, cb, seen) == 0 && foreign == 0, "iteration: return value or foreign key");
    for (int i = 0; i < nT; i++)
        VT_CHECK(seen[i] == T[i].live, "iteration: key missing or repeated");
    art_tree_destroy(&t);
    VT_REACH("end");
}
