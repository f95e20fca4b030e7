/* The metadata index of one server (src/server/pdc_server_metadata_index.c): a history of insertions and deletions
 * of tags key=value of objects, then one search with any pattern for the key and any for the value.
 * An insertion or deletion reaches the server as the client sends it: once for every suffix of the key.   */
#include "vt.h"
#include "pdc_server_metadata_index.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef KL
#define KL 2 /* longest key */
#endif
#ifndef VL
#define VL 1 /* longest value */
#endif
#ifndef KLO
#define KLO 1
#define KHI 255
#endif
#ifndef VLO
#define VLO 1
#define VHI 255
#endif
typedef struct { char k[KL + 1], v[VL + 1]; int kn, vn, live, from; uint64_t id; } tag;
static tag T[STEPS + 1];
static int nT;

static int plain(char c) { return (c != '*') & (c != '=') & (c != '~'); }
static int word(char *b, int lo, int max, int clo, int chi)
{
    int n = (int)vt_fork(vt_range(lo, max));
    memset(b, 0, max + 1);
    for (int i = 0; i < n; i++) {
        b[i] = (char)vt_range(clo, chi);
        vt_assume(plain(b[i]));
    }
    return n;
}
/* without branching */
static int at(const char *s, int off, const char *t, int tn)
{
    int y = 1;
    for (int i = 0; i < tn; i++)
        y &= s[off + i] == t[i];
    return y;
}
static int matches(const char *s, int sn, const char *t, int tn, int kind)
{
    int y = 0;
    switch (kind) {
        case PATTERN_EXACT: return sn == tn ? at(s, 0, t, tn) : 0;
        case PATTERN_PREFIX: return sn >= tn ? at(s, 0, t, tn) : 0;
        case PATTERN_SUFFIX: return sn >= tn ? at(s, sn - tn, t, tn) : 0;
        default:
            for (int i = 0; i + tn <= sn; i++)
                y |= at(s, i, t, tn);
            return y;
    }
}
#ifdef EXACT
#define LOOSE(kind) (kind)
#else /* in suffix tree mode an exact search is answered as a suffix search, a prefix search as an infix search */
#define LOOSE(kind) ((kind) == PATTERN_EXACT ? PATTERN_SUFFIX : (kind) == PATTERN_PREFIX ? PATTERN_MIDDLE : (kind))
#endif
static char *pattern(char *p, const char *t, int n, int kind, int lone)
{
    *p = 0;
    if (kind == PATTERN_SUFFIX || kind == PATTERN_MIDDLE)
        strcat(p, "*");
    strcat(p, t);
    if (kind == PATTERN_PREFIX || (kind == PATTERN_MIDDLE && !(n == 0 && lone)))
        strcat(p, "*");
    return p;
}
static void send(int op, tag *t)
{
    dart_perform_one_server_in_t  in;
    dart_perform_one_server_out_t out;
    memset(&in, 0, sizeof in);
    memset(&out, 0, sizeof out);
    in.op_type         = op;
    in.hash_algo       = DART_HASH;
    in.attr_val        = t->v;
    in.obj_ref_type    = REF_PRIMARY_ID;
    in.obj_primary_ref = in.obj_secondary_ref = in.obj_server_ref = t->id;
    for (int i = op == OP_INSERT ? t->from : 0; i < t->kn; i++) {
        in.attr_key = t->k + i;
        VT_CHECK(PDC_Server_dart_perform_one_server(&in, &out, NULL, NULL) == SUCCEED, "an index update is refused");
        VT_CHECK(out.has_bulk == 0, "an index update answers with data");
    }
}
static uint64_t ids[2];
static void search(const char *kt, int kn, int kk, int kl, const char *vt, int vn, int vk, int vl)
{
    char q[KL + VL + 8], p[KL + VL + 8];
    strcpy(q, pattern(p, kt, kn, kk, kl));
    strcat(q, "=");
    strcat(q, pattern(p, vt, vn, vk, vl));

    dart_perform_one_server_in_t  in;
    dart_perform_one_server_out_t out;
    uint64_t                      n = 77, *buf = NULL;
    memset(&in, 0, sizeof in);
    memset(&out, 0, sizeof out);
    in.op_type   = kk;
    in.hash_algo = DART_HASH;
    in.attr_key  = q;
    in.attr_val  = (char *)vt;
    VT_CHECK(PDC_Server_dart_perform_one_server(&in, &out, &n, &buf) == SUCCEED, "a search is refused");
    VT_CHECK(n <= 2, "more objects found than exist");
    VT_CHECK(out.n_items == n && out.has_bulk == (n > 0), "the answer does not say how many objects it holds");
    if (n == 2)
        VT_CHECK(buf[0] != buf[1], "an object is returned twice");
    for (int o = 0; o < 2; o++) {
        int must = 0, may = 0, got = 0;
        for (int i = 0; i < nT; i++) {
            int y = T[i].live & (T[i].id == ids[o]);
            /* with a server responsible for the suffixes from some place on, those are what it can find */
            const char *k = T[i].k + T[i].from;
            int         l = T[i].kn - T[i].from;
            must |= y & (T[i].from == 0 ? matches(k, l, kt, kn, kk) : matches(k, l, kt, kn, LOOSE(kk))) & matches(T[i].v, T[i].vn, vt, vn, vk);
            may |= y & matches(k, l, kt, kn, LOOSE(kk)) & matches(T[i].v, T[i].vn, vt, vn, LOOSE(vk));
        }
        for (uint64_t i = 0; i < n; i++)
            got |= buf[i] == ids[o];
        VT_CHECK(got | !must, "an object whose tag matches is not found");
#ifdef EXACT
        VT_CHECK(!got | may, "an object is found although no tag of it matches the pattern");
#else
        VT_CHECK(!got | may, "an object is found although no tag of it contains what is looked for");
#endif
    }
    for (uint64_t i = 0; i < n; i++)
        VT_CHECK((buf[i] == ids[0]) | (buf[i] == ids[1]), "an object that was never indexed is found");
}
void harness(void)
{
    static const uint64_t pairs[][2] = {{1, 2}, {9, 9 + (1ULL << 32)}}; /* the second two have the same hash */
    int pr = (int)vt_fork(vt_bool());
    ids[0] = pairs[pr][0];
    ids[1] = pairs[pr][1];
    PDC_Server_dart_init();
    for (int s = 0; s < STEPS; s++) {
        tag *t  = &T[nT];
#ifdef SHARED /* two tags of one object, one of them is deleted */
        int op = s == 2;
#else
        int op = s == 0 ? 0 : (int)vt_fork(vt_bool());
#endif
        if (op == 0) {
            t->kn = word(t->k, 1, KL, KLO, KHI);
            t->vn = word(t->v, 1, VL, VLO, VHI);
#ifdef SHARED
            int w = 0;
#else
            int w = s == 0 ? 0 : (int)vt_fork(vt_bool());
#endif
            t->id = ids[w];
#ifdef PART /* the server is responsible for the shorter suffixes of the key only */
            t->from = (int)vt_fork(vt_range(0, t->kn - 1));
#endif
            t->live = 1;
            nT++;
            send(OP_INSERT, t);
        }
        else {
            tag d = T[vt_fork(vt_range(0, nT - 1))];
#ifdef ABSENT /* a tag that may not be there */
            d.kn = word(d.k, 1, KL, KLO, KHI);
            d.vn = word(d.v, 1, VL, VLO, VHI);
            d.id = ids[vt_fork(vt_bool())];
#endif
            for (int i = 0; i < nT; i++)
                if (T[i].id == d.id) {
                    int same = T[i].kn == d.kn && T[i].vn == d.vn ? at(T[i].k, 0, d.k, d.kn) & at(T[i].v, 0, d.v, d.vn) : 0;
#ifndef SHARED /* other tags of the object have no common ending with the one deleted in both the key and the value */
                    int end = (T[i].k[T[i].kn - 1] == d.k[d.kn - 1]) & (T[i].v[T[i].vn - 1] == d.v[d.vn - 1]);
                    vt_assume(same | !end);
#endif
                    if (same)
                        T[i].live = 0;
                }
            send(OP_DELETE, &d);
        }
    }
    char kt[KL + 1], vt[VL + 1];
    int  kn = word(kt, 0, KL, KLO, KHI), vn = word(vt, 0, VL, VLO, VHI);
    for (int kk = PATTERN_EXACT; kk <= PATTERN_MIDDLE; kk++)
        for (int vk = PATTERN_EXACT; vk <= PATTERN_MIDDLE; vk++) {
            /* nothing but asterisks is an infix pattern */
            if ((kk != PATTERN_MIDDLE && kn == 0) || (vk != PATTERN_MIDDLE && vn == 0))
                continue;
            search(kt, kn, kk, 0, vt, vn, vk, 0);
            if (kn == 0 || vn == 0)
                search(kt, kn, kk, kn == 0, vt, vn, vk, vn == 0);
        }
    VT_REACH("searched");
}
