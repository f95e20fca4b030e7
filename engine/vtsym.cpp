// vtsym: path-wise symbolic execution of LLVM 18 bitcode; every branch condition, memory-safety condition
// and harness assertion over symbolic inputs is decided by Z3 (bit-vectors and IEEE floats).
//   vtsym all.bc --entry harness --out result.json [--time S] [--workers N] [--max-enum N]
// Inputs: vt_u64 / vt_range / vt_fork (concretise by forking over every feasible value).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <chrono>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace llvm;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Fatal { std::string msg; };
[[noreturn]] static void fatal(const std::string &m) { throw Fatal{m}; }

// ------------------------------------------------------------------ expressions
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT,
    EQ, ULT, ULE, SLT, SLE, ITE, FADD, FSUB, FMUL, FDIV, FOEQ, FOLT, FOLE, FUNO, SITOFP, UITOFP, FPTOSI, FPTOUI, FPCONV, FFLOOR, FCEIL, FROUND, FTRUNC, FSQRT };
struct Node {
    Op op; uint16_t w; unsigned id; Node *a, *b, *c; u64 k;
    const std::vector<int> *vars;
    Z3_ast bv = nullptr, bo = nullptr;
    unsigned gen = 0; u64 ev = 0;
    u64 ub = ~0ULL;             // largest unsigned value, from the structure of the term
    int64_t lo = INT64_MIN, hi = INT64_MAX; // range of the signed value
};
struct NKey { Op op; uint16_t w; Node *a, *b, *c; u64 k;
    bool operator==(const NKey &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct NHash { size_t operator()(const NKey &x) const {
    u64 h = x.op * 1000003ULL + x.w; auto m = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
    m((u64)x.a); m((u64)x.b); m((u64)x.c); m(x.k); return h ^ (h >> 29); } };
static std::unordered_map<NKey, Node *, NHash> g_nodes;
static std::set<std::vector<int>> g_varsets;
static unsigned g_nid = 0;
static const std::vector<int> *vs_intern(std::vector<int> v) { return &*g_varsets.insert(std::move(v)).first; }
static const std::vector<int> *vs_union(const std::vector<int> *a, const std::vector<int> *b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    std::vector<int> r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if (r.size() == a->size()) return a;
    if (r.size() == b->size()) return b;
    return vs_intern(std::move(r));
}
static const std::vector<int> *vs_empty;
static std::vector<u64> g_varub;
static u64 ubound(const Node *n)
{
    u64 m = n->w >= 64 ? ~0ULL : ((1ULL << n->w) - 1), x = n->a ? n->a->ub : 0, y = n->b ? n->b->ub : 0, r = m;
    switch (n->op) {
        case CONST: r = n->k; break;
        case VAR: if (n->k < g_varub.size()) r = g_varub[n->k]; break;
        case ZEXT: r = x; break;
        case CONCAT: r = n->k < 64 ? (x << n->k) | (n->k ? (1ULL << n->k) - 1 : 0) : m; break;
        case EXTRACT: r = n->k < 64 ? x >> n->k : 0; break;
        case AND: r = std::min(x, y); break;
        case OR: case XOR: { u64 q = x | y; for (int i = 1; i < 64; i <<= 1) q |= q >> i; r = q; break; }
        case ADD: if (x + y >= x && x + y <= m) r = x + y; break;
        case MUL: { unsigned __int128 q = (unsigned __int128)x * y; if (q <= m) r = (u64)q; break; }
        case UDIV: if (n->b->op == CONST && n->b->k) r = x / n->b->k; break;
        case UREM: if (n->b->op == CONST && n->b->k) r = std::min(x, n->b->k - 1); break;
        case LSHR: r = n->b->op == CONST && n->b->k < 64 ? x >> n->b->k : x; break;
        case SHL: if (n->b->op == CONST && n->b->k < 64 && x <= (m >> n->b->k)) r = x << n->b->k; break;
        case ITE: r = std::max(n->b->ub, n->c->ub); break;
        default: break;
    }
    return std::min(r, m);
}
static void srange(Node *n)
{
    typedef __int128 L;
    L smin = -((L)1 << (n->w - 1)), smax = ((L)1 << (n->w - 1)) - 1, lo = smin, hi = smax;
    Node *a = n->a, *b = n->b;
    // a range that leaves the width may have wrapped: then nothing is known
    switch (n->op) {
        case CONST: lo = hi = n->w >= 64 ? (int64_t)n->k : (int64_t)(n->k << (64 - n->w)) >> (64 - n->w); break;
        case ADD: lo = (L)a->lo + b->lo; hi = (L)a->hi + b->hi; break;
        case SUB: lo = (L)a->lo - b->hi; hi = (L)a->hi - b->lo; break;
        case MUL: { L v[4] = {(L)a->lo * b->lo, (L)a->lo * b->hi, (L)a->hi * b->lo, (L)a->hi * b->hi}; lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4); break; }
        case SEXT: case EXTRACT: if (n->op == SEXT || n->k == 0) { lo = a->lo; hi = a->hi; } break;
        case ITE: lo = std::min(b->lo, n->c->lo); hi = std::max(b->hi, n->c->hi);
            // x < 0 ? 0 - x : x
            if (a->op == SLT && a->a == n->c && a->b->op == CONST && a->b->k == 0 && b->op == SUB && b->a->op == CONST && b->a->k == 0 && b->b == n->c && n->c->lo > smin) { lo = 0; hi = std::max(-(L)n->c->lo, (L)n->c->hi); }
            break;
        default: break;
    }
    if (lo < smin || hi > smax) { lo = smin; hi = smax; }
    if ((L)n->ub <= smax) { if (lo < 0) lo = 0; if (hi > (L)n->ub) hi = n->ub; }
    if (lo > hi) { lo = smin; hi = smax; }
    n->lo = (int64_t)lo; n->hi = (int64_t)hi;
    if (n->lo >= 0 && (u64)n->hi < n->ub) n->ub = (u64)n->hi;
}
static Node *mk(Op op, unsigned w, Node *a, Node *b = nullptr, Node *c = nullptr, u64 k = 0)
{
    NKey key{op, (uint16_t)w, a, b, c, k};
    auto it = g_nodes.find(key);
    if (it != g_nodes.end()) return it->second;
    Node *n = new Node{op, (uint16_t)w, g_nid++, a, b, c, k, vs_empty};
    if (op == VAR) n->vars = vs_intern({(int)k});
    if (a) n->vars = a->vars;
    if (b) n->vars = vs_union(n->vars, b->vars);
    if (c) n->vars = vs_union(n->vars, c->vars);
    n->ub = ubound(n);
    srange(n);
    g_nodes.emplace(key, n);
    return n;
}
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asf(u64 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u64 frd(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline u64 frf(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

struct Val { Node *n; u64 c; Val(u64 c_ = 0) : n(nullptr), c(c_) {} Val(Node *n_) : n(n_), c(0) {} };
struct Agg { std::vector<Val> v; std::vector<unsigned> w; }; // w: lane widths

static Node *nd(const Val &v, unsigned w) { return v.n ? v.n : mk(CONST, w, nullptr, nullptr, nullptr, v.c & msk(w)); }
static bool fpbin(Op op, unsigned w, u64 a, u64 b, u64 &r)
{
    if (w == 64) {
        double x = asd(a), y = asd(b);
        switch (op) { case FADD: r = frd(x + y); return true; case FSUB: r = frd(x - y); return true; case FMUL: r = frd(x * y); return true; case FDIV: r = frd(x / y); return true;
            case FOEQ: r = x == y; return true; case FOLT: r = x < y; return true; case FOLE: r = x <= y; return true; case FUNO: r = x != x || y != y; return true; default: return false; }
    }
    float x = asf(a), y = asf(b);
    switch (op) { case FADD: r = frf(x + y); return true; case FSUB: r = frf(x - y); return true; case FMUL: r = frf(x * y); return true; case FDIV: r = frf(x / y); return true;
        case FOEQ: r = x == y; return true; case FOLT: r = x < y; return true; case FOLE: r = x <= y; return true; case FUNO: r = x != x || y != y; return true; default: return false; }
}
// concrete semantics; ow = operand width, w = result width
static u64 cop(Op op, unsigned w, unsigned ow, u64 a, u64 b, u64 c, u64 k)
{
    u64 r = 0;
    switch (op) {
        case ADD: return (a + b) & msk(w);
        case SUB: return (a - b) & msk(w);
        case MUL: return (a * b) & msk(w);
        case UDIV: return b ? a / b : msk(w);
        case UREM: return b ? a % b : a;
        case SDIV: if (!b) return sx(a, w) < 0 ? 1 : msk(w); if (sx(b, w) == -1) return (0 - a) & msk(w); return (u64)(sx(a, w) / sx(b, w)) & msk(w);
        case SREM: if (!b) return a; if (sx(b, w) == -1) return 0; return (u64)(sx(a, w) % sx(b, w)) & msk(w);
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & msk(w);
        case LSHR: return b >= w ? 0 : a >> b;
        case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & msk(w);
        case CONCAT: return ((a << k) | b) & msk(w); // k = width of b
        case EXTRACT: return (a >> k) & msk(w);
        case ZEXT: return a;
        case SEXT: return (u64)sx(a, ow) & msk(w);
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sx(a, ow) < sx(b, ow);
        case SLE: return sx(a, ow) <= sx(b, ow);
        case ITE: return a ? b : c;
        case SITOFP: return w == 64 ? frd((double)sx(a, ow)) : frf((float)sx(a, ow));
        case UITOFP: return w == 64 ? frd((double)a) : frf((float)a);
        case FPTOSI: return (u64)(int64_t)(ow == 64 ? asd(a) : (double)asf(a)) & msk(w);
        case FPTOUI: { double d = ow == 64 ? asd(a) : (double)asf(a); return (d < 9.2e18 ? (u64)(int64_t)d : (u64)d) & msk(w); }
        case FPCONV: if (ow == w) return a; return w == 64 ? frd((double)asf(a)) : frf((float)asd(a));
        case FFLOOR: return w == 64 ? frd(floor(asd(a))) : frf(floorf(asf(a)));
        case FCEIL: return w == 64 ? frd(ceil(asd(a))) : frf(ceilf(asf(a)));
        case FROUND: return w == 64 ? frd(round(asd(a))) : frf(roundf(asf(a)));
        case FTRUNC: return w == 64 ? frd(trunc(asd(a))) : frf(truncf(asf(a)));
        case FSQRT: return w == 64 ? frd(sqrt(asd(a))) : frf(sqrtf(asf(a)));
        default: if (fpbin(op, ow, a, b, r)) return r; fatal("cop");
    }
}
static Val extract(Val a, unsigned aw, unsigned lo, unsigned w);
static Val zext(Val a, unsigned aw, unsigned w);
static Val ite(Val c, unsigned w, Val a, Val b);
static inline u64 vub(const Val &v) { return v.n ? v.n->ub : v.c; }
static Val binop(Op op, unsigned ow, unsigned w, Val a, Val b)
{
    if (a.n || b.n) {
        u64 half = msk(ow) >> 1;
        if ((op == SDIV || op == SREM || op == SLT || op == SLE) && vub(a) <= half && vub(b) <= half)
            return binop(op == SDIV ? UDIV : op == SREM ? UREM : op == SLT ? ULT : ULE, ow, w, a, b);
        if ((op == UDIV || op == UREM) && !b.n && b.c) {
            // (p - q) mod k where p and q are small: by the sign of p - q
            if (op == UREM && (a.n->op == SUB || a.n->op == ADD) && a.n->lo < 0 && a.n->lo > -(1LL << 40) && a.n->hi < (1LL << 40) && b.c < (1ULL << 40)) {
                unsigned nb = 42; // holds both values
                if (w > nb) {
                    Val d = extract(a, w, 0, nb), neg = binop(SLT, nb, 1, d, Val((u64)0)), m = binop(SUB, nb, nb, Val((u64)0), d);
                    // bounded magnitudes: exact for the branch they belong to
                    u64 top = (u64)(((unsigned __int128)1 << w) % b.c), bm = std::max((u64)-a.n->lo, b.c), bp = std::max((u64)std::max<int64_t>(a.n->hi, 1), b.c);
                    unsigned nm = 65 - (unsigned)__builtin_clzll(bm), np = 65 - (unsigned)__builtin_clzll(bp);
                    Val rp = zext(binop(UREM, np, np, extract(d, nb, 0, np), b), np, nb), rm = zext(binop(UREM, nm, nm, extract(m, nb, 0, nm), b), nm, nb);
                    Val q = binop(UREM, nb, nb, binop(SUB, nb, nb, Val((top + b.c) & msk(nb)), rm), b);
                    return zext(ite(neg, nb, q, rp), nb, w);
                }
            }
            if (vub(a) < b.c) return op == UREM ? a : Val((u64)0);
            u64 big = std::max(vub(a), b.c);
            unsigned nb = 64 - (unsigned)__builtin_clzll(big);
            if (nb < w) return zext(binop(op, nb, nb, extract(a, w, 0, nb), b), nb, w);
        }
        if (op == ULT && !b.n && vub(a) < b.c) return Val((u64)1);
        if (op == ULE && !b.n && vub(a) <= b.c && a.n->op != VAR) return Val((u64)1);
    }
    if (!a.n && !b.n) return Val(cop(op, w, ow, a.c, b.c, 0, 0));
    if (!b.n) {
        u64 k = b.c;
        switch (op) {
            case ADD: case SUB: case OR: case XOR: case SHL: case LSHR: case ASHR: if (k == 0) return a; break;
            case AND: if (k == 0) return Val((u64)0); if (k == msk(w)) return a; break;
            case MUL: if (k == 0) return Val((u64)0); if (k == 1) return a; break;
            case UDIV: case SDIV: if (k == 1) return a; break;
            default: break;
        }
        if (op == ADD && a.n->op == ADD && a.n->b->op == CONST) return binop(ADD, ow, w, Val(a.n->a), Val((a.n->b->k + k) & msk(w)));
        if (op == SUB) return binop(ADD, ow, w, a, Val((0 - k) & msk(w)));
        if (op == EQ && a.n->op == ADD && a.n->b->op == CONST) return binop(EQ, ow, 1, Val(a.n->a), Val((k - a.n->b->k) & msk(ow)));
        if (op == EQ && a.n->op == XOR && a.n->b->op == CONST) return binop(EQ, ow, 1, Val(a.n->a), Val((k ^ a.n->b->k) & msk(ow)));
        if (op == EQ && a.n->op == SEXT) { unsigned xw = a.n->a->w; if ((u64)(sx(k & msk(xw), xw) & (int64_t)msk(ow)) != k) return Val((u64)0); return binop(EQ, xw, 1, Val(a.n->a), Val(k & msk(xw))); }
        // (zext x) cmp const  ->  x cmp const
        if ((op == EQ || op == ULT || op == ULE) && a.n->op == ZEXT) {
            unsigned xw = a.n->a->w;
            if (k > msk(xw)) return Val((u64)(op != EQ));
            return binop(op, xw, 1, Val(a.n->a), Val(k));
        }
        if (op == EQ && a.n->op == ITE && a.n->b->op == CONST && a.n->c->op == CONST) {
            bool x = a.n->b->k == k, y = a.n->c->k == k;
            if (x && y) return Val((u64)1);
            if (!x && !y) return Val((u64)0);
            if (x) return Val(a.n->a);
            return binop(XOR, 1, 1, Val(a.n->a), Val((u64)1));
        }
        if (op == EQ && w == 1 && ow == 1) { if (k) return a; return binop(XOR, 1, 1, a, Val((u64)1)); }
        if (op == ULT && k == 0) return Val((u64)0);
        if (op == XOR && w == 1 && a.n->op == XOR && a.n->b->op == CONST) { Val r(a.n->a); return (a.n->b->k ^ k) ? binop(XOR, 1, 1, r, Val((u64)1)) : r; }
    }
    else if (!a.n) {
        switch (op) {
            case ADD: case MUL: case AND: case OR: case XOR: case EQ: return binop(op, ow, w, b, a);
            case SHL: case LSHR: case UDIV: case SDIV: if (a.c == 0 && (op == SHL || op == LSHR)) return Val((u64)0); break;
            case ULE: if (a.c == 0) return Val((u64)1); if (b.n->op == ZEXT) { unsigned xw = b.n->a->w; if (a.c > msk(xw)) return Val((u64)0); return binop(op, xw, 1, a, Val(b.n->a)); } break;
            case ULT: if (b.n->op == ZEXT) { unsigned xw = b.n->a->w; if (a.c >= msk(xw)) return Val((u64)0); return binop(op, xw, 1, a, Val(b.n->a)); } break;
            default: break;
        }
    }
    else {
        if (a.n == b.n) switch (op) { case SUB: case XOR: case ULT: case SLT: return Val((u64)0); case EQ: case ULE: case SLE: return Val((u64)1); case AND: case OR: return a; default: break; }
        if ((op == EQ || op == ULT || op == ULE) && a.n->op == ZEXT && b.n->op == ZEXT && a.n->a->w == b.n->a->w) return binop(op, a.n->a->w, 1, Val(a.n->a), Val(b.n->a));
    }
    Node *x = nd(a, ow), *y = nd(b, ow);
    if ((op == EQ || op == ADD || op == AND || op == OR || op == XOR || op == MUL) && y->op != CONST && x->id > y->id) std::swap(x, y);
    return Val(mk(op, w, x, y));
}
static Val notv(Val a) { return binop(XOR, 1, 1, a, Val((u64)1)); }
static Val ite(Val c, unsigned w, Val a, Val b)
{
    if (!c.n) return c.c ? a : b;
    if (a.n == b.n && a.c == b.c) return a;
    if (w == 1 && !a.n && !b.n) return a.c ? c : notv(c);
    return Val(mk(ITE, w, c.n, nd(a, w), nd(b, w)));
}
static Val unop(Op op, unsigned ow, unsigned w, Val a, u64 k = 0)
{
    if (!a.n) return Val(cop(op, w, ow, a.c, 0, 0, k));
    return Val(mk(op, w, a.n, nullptr, nullptr, k));
}
static Val zext(Val a, unsigned aw, unsigned w)
{
    if (!a.n || aw == w) return a;
    if (a.n->op == ZEXT) return Val(mk(ZEXT, w, a.n->a));
    return Val(mk(ZEXT, w, a.n));
}
static Val sext(Val a, unsigned aw, unsigned w)
{
    if (!a.n) return Val((u64)sx(a.c, aw) & msk(w));
    if (aw == w) return a;
    if (a.n->ub <= msk(aw) >> 1) return zext(a, aw, w);
    return Val(mk(SEXT, w, a.n));
}
static Val extract(Val a, unsigned aw, unsigned lo, unsigned w)
{
    if (!a.n) return Val((a.c >> lo) & msk(w));
    if (lo == 0 && w == aw) return a;
    Node *x = a.n;
    if (x->op == EXTRACT) return extract(Val(x->a), x->a->w, lo + (unsigned)x->k, w);
    if (x->op == ZEXT || x->op == SEXT) {
        unsigned xw = x->a->w;
        if (lo + w <= xw) return extract(Val(x->a), xw, lo, w);
        if (x->op == ZEXT) { if (lo >= xw) return Val((u64)0); return zext(extract(Val(x->a), xw, lo, xw - lo), xw - lo, w); }
        if (lo == 0) return Val(mk(SEXT, w, x->a));
    }
    if (x->op == CONCAT) {
        unsigned bw = (unsigned)x->k;
        if (lo + w <= bw) return extract(nd(Val(x->b), bw)->op == CONST ? Val(x->b->k) : Val(x->b), bw, lo, w);
        if (lo >= bw) return extract(x->a->op == CONST ? Val(x->a->k) : Val(x->a), x->w - bw, lo - bw, w);
    }
    if (x->op == ITE && x->b->op == CONST && x->c->op == CONST) return ite(Val(x->a), w, Val((x->b->k >> lo) & msk(w)), Val((x->c->k >> lo) & msk(w)));
    if (lo == 0 && (x->op == AND || x->op == OR || x->op == XOR || x->op == ADD || x->op == MUL || x->op == SUB)) {
        auto cv = [](Node *q) { return q->op == CONST ? Val(q->k) : Val(q); };
        return binop(x->op, w, w, extract(cv(x->a), aw, 0, w), extract(cv(x->b), aw, 0, w));
    }
    return Val(mk(EXTRACT, w, x, nullptr, nullptr, lo));
}
static Val concat(Val hi, unsigned hw, Val lo, unsigned lw)
{
    if (!hi.n && !lo.n) return Val((hi.c << lw) | lo.c);
    if (!hi.n && hi.c == 0) return zext(lo, lw, hw + lw);
    if (hi.n && lo.n && hi.n->op == EXTRACT && lo.n->op == EXTRACT && hi.n->a == lo.n->a && hi.n->k == lo.n->k + lw) return extract(Val(hi.n->a), hi.n->a->w, (unsigned)lo.n->k, hw + lw);
    return Val(mk(CONCAT, hw + lw, nd(hi, hw), nd(lo, lw), nullptr, lw));
}

// ------------------------------------------------------------------ evaluation under an assignment
typedef std::vector<u64> Asg; // by variable number
static std::vector<uint16_t> g_varw;
static unsigned g_gen = 0;
static u64 eval_rec(Node *n, const Asg &m)
{
    if (n->op == CONST) return n->k;
    if (n->gen == g_gen) return n->ev;
    u64 r;
    if (n->op == VAR) r = n->k < m.size() ? m[n->k] : 0;
    else if (n->op == ITE) r = eval_rec(n->a, m) ? eval_rec(n->b, m) : eval_rec(n->c, m);
    else r = cop(n->op, n->w, n->a->w, eval_rec(n->a, m), n->b ? eval_rec(n->b, m) : 0, 0, n->k);
    n->gen = g_gen; n->ev = r;
    return r;
}
static u64 evaln(Node *n, const Asg &m) { g_gen++; return eval_rec(n, m); }

// ------------------------------------------------------------------ Z3
static Z3_context Z;
static Z3_solver S, SF;
static std::vector<Z3_ast> g_varast;
static std::string g_z3err;
static u64 n_queries, n_sat, n_unsat, n_cachehits; static double t_solver;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast tobv(Node *n);
static Z3_ast tobool(Node *n)
{
    if (n->bo) return n->bo;
    Z3_ast r;
    Z3_ast t[2];
    switch (n->op) {
        case CONST: r = n->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
        case EQ: if (n->a->w == 1) r = Z3_mk_iff(Z, tobool(n->a), tobool(n->b)); else r = Z3_mk_eq(Z, tobv(n->a), tobv(n->b)); break;
        case ULT: r = Z3_mk_bvult(Z, tobv(n->a), tobv(n->b)); break;
        case ULE: r = Z3_mk_bvule(Z, tobv(n->a), tobv(n->b)); break;
        case SLT: r = Z3_mk_bvslt(Z, tobv(n->a), tobv(n->b)); break;
        case SLE: r = Z3_mk_bvsle(Z, tobv(n->a), tobv(n->b)); break;
        case AND: t[0] = tobool(n->a); t[1] = tobool(n->b); r = Z3_mk_and(Z, 2, t); break;
        case OR: t[0] = tobool(n->a); t[1] = tobool(n->b); r = Z3_mk_or(Z, 2, t); break;
        case XOR: if (n->b->op == CONST && n->b->k) r = Z3_mk_not(Z, tobool(n->a)); else r = Z3_mk_xor(Z, tobool(n->a), tobool(n->b)); break;
        case ITE: r = Z3_mk_ite(Z, tobool(n->a), tobool(n->b), tobool(n->c)); break;
        case FOEQ: case FOLT: case FOLE: case FUNO: {
            Z3_sort fs = (Z3_sort)keep((Z3_ast)(n->a->w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z)));
            Z3_ast x = keep(Z3_mk_fpa_to_fp_bv(Z, tobv(n->a), fs)), y = keep(Z3_mk_fpa_to_fp_bv(Z, tobv(n->b), fs));
            if (n->op == FOEQ) r = Z3_mk_fpa_eq(Z, x, y);
            else if (n->op == FOLT) r = Z3_mk_fpa_lt(Z, x, y);
            else if (n->op == FOLE) r = Z3_mk_fpa_leq(Z, x, y);
            else { t[0] = keep(Z3_mk_fpa_is_nan(Z, x)); t[1] = keep(Z3_mk_fpa_is_nan(Z, y)); r = Z3_mk_or(Z, 2, t); }
            break; }
        default: r = Z3_mk_eq(Z, tobv(n), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
    }
    return n->bo = keep(r);
}
static Z3_ast tobv(Node *n)
{
    if (n->bv) return n->bv;
    Z3_ast r;
    // the context is reference counted: every intermediate term has to be kept
    auto fsort = [](unsigned w) { return (Z3_sort)keep((Z3_ast)(w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z))); };
    auto fp = [&](Node *x) { Z3_ast b = tobv(x); Z3_sort s = fsort(x->w); return keep(Z3_mk_fpa_to_fp_bv(Z, b, s)); };
    auto rne = [] { return keep(Z3_mk_fpa_rne(Z)); };
    auto ieee = [](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(Z, keep(f)); };
    switch (n->op) {
        case CONST: r = Z3_mk_unsigned_int64(Z, n->k, Z3_mk_bv_sort(Z, n->w)); break;
        case VAR: r = g_varast[n->k]; break;
        case ADD: r = Z3_mk_bvadd(Z, tobv(n->a), tobv(n->b)); break;
        case SUB: r = Z3_mk_bvsub(Z, tobv(n->a), tobv(n->b)); break;
        case MUL: r = Z3_mk_bvmul(Z, tobv(n->a), tobv(n->b)); break;
        case UDIV: r = Z3_mk_bvudiv(Z, tobv(n->a), tobv(n->b)); break;
        case SDIV: r = Z3_mk_bvsdiv(Z, tobv(n->a), tobv(n->b)); break;
        case UREM: r = Z3_mk_bvurem(Z, tobv(n->a), tobv(n->b)); break;
        case SREM: r = Z3_mk_bvsrem(Z, tobv(n->a), tobv(n->b)); break;
        case SHL: r = Z3_mk_bvshl(Z, tobv(n->a), tobv(n->b)); break;
        case LSHR: r = Z3_mk_bvlshr(Z, tobv(n->a), tobv(n->b)); break;
        case ASHR: r = Z3_mk_bvashr(Z, tobv(n->a), tobv(n->b)); break;
        case CONCAT: r = Z3_mk_concat(Z, tobv(n->a), tobv(n->b)); break;
        case EXTRACT: r = Z3_mk_extract(Z, (unsigned)n->k + n->w - 1, (unsigned)n->k, tobv(n->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(Z, n->w - n->a->w, tobv(n->a)); break;
        case SEXT: r = Z3_mk_sign_ext(Z, n->w - n->a->w, tobv(n->a)); break;
        case FADD: r = ieee(Z3_mk_fpa_add(Z, rne(), fp(n->a), fp(n->b))); break;
        case FSUB: r = ieee(Z3_mk_fpa_sub(Z, rne(), fp(n->a), fp(n->b))); break;
        case FMUL: r = ieee(Z3_mk_fpa_mul(Z, rne(), fp(n->a), fp(n->b))); break;
        case FDIV: r = ieee(Z3_mk_fpa_div(Z, rne(), fp(n->a), fp(n->b))); break;
        case SITOFP: r = ieee(Z3_mk_fpa_to_fp_signed(Z, rne(), tobv(n->a), fsort(n->w))); break;
        case UITOFP: r = ieee(Z3_mk_fpa_to_fp_unsigned(Z, rne(), tobv(n->a), fsort(n->w))); break;
        case FPTOSI: r = Z3_mk_fpa_to_sbv(Z, keep(Z3_mk_fpa_rtz(Z)), fp(n->a), n->w); break;
        case FPTOUI: r = Z3_mk_fpa_to_ubv(Z, keep(Z3_mk_fpa_rtz(Z)), fp(n->a), n->w); break;
        case FPCONV: r = ieee(Z3_mk_fpa_to_fp_float(Z, rne(), fp(n->a), fsort(n->w))); break;
        case FFLOOR: r = ieee(Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rtn(Z)), fp(n->a))); break;
        case FCEIL: r = ieee(Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rtp(Z)), fp(n->a))); break;
        case FROUND: r = ieee(Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rna(Z)), fp(n->a))); break;
        case FTRUNC: r = ieee(Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rtz(Z)), fp(n->a))); break;
        case FSQRT: r = ieee(Z3_mk_fpa_sqrt(Z, rne(), fp(n->a))); break;
        default:
            if (n->w == 1) r = Z3_mk_ite(Z, tobool(n), keep(Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))), keep(Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))));
            else if (n->op == ITE) r = Z3_mk_ite(Z, tobool(n->a), tobv(n->b), tobv(n->c));
            else if (n->op == AND) r = Z3_mk_bvand(Z, tobv(n->a), tobv(n->b));
            else if (n->op == OR) r = Z3_mk_bvor(Z, tobv(n->a), tobv(n->b));
            else if (n->op == XOR) r = Z3_mk_bvxor(Z, tobv(n->a), tobv(n->b));
            else fatal("tobv op " + std::to_string(n->op));
    }
    if (n->w == 1 && (n->op == AND || n->op == OR || n->op == XOR || n->op == ITE)) ; // handled by default
    return n->bv = keep(r);
}
static Node *newvar(unsigned w)
{
    int id = (int)g_varw.size();
    g_varw.push_back((uint16_t)w);
    g_varast.push_back(keep(Z3_mk_const(Z, Z3_mk_int_symbol(Z, id), Z3_mk_bv_sort(Z, w))));
    return mk(VAR, w, nullptr, nullptr, nullptr, (u64)id);
}
static std::map<std::vector<unsigned>, std::pair<bool, std::vector<std::pair<int, u64>>>> g_qcache;
static std::vector<Asg> g_recent; static size_t g_recent_i;
static double g_slow = getenv("VTSYM_SLOW") ? atof(getenv("VTSYM_SLOW")) : 0; static std::function<std::string()> g_where;
static unsigned g_smt_timeout = 120000;
static bool g_fp_used = false;
// rewrite under equalities var == const found on the path
static std::vector<std::pair<bool, u64>> g_pin; static unsigned g_sgen = 0; static std::vector<unsigned> g_sg; static std::vector<Val> g_sv;
static Val cvn(Node *n) { return n->op == CONST ? Val(n->k) : Val(n); }
static Val subst(Node *n)
{
    if (n->op == CONST) return Val(n->k);
    bool any = false;
    for (int v : *n->vars) if (g_pin[v].first) { any = true; break; }
    if (!any) return Val(n);
    if (n->op == VAR) return Val(g_pin[n->k].second);
    if (g_sg.size() < g_nid) { g_sg.resize(g_nid + 1024, 0); g_sv.resize(g_nid + 1024); }
    if (g_sg[n->id] == g_sgen) return g_sv[n->id];
    Val r;
    unsigned id = n->id;
    auto bin = [&](Op op) { Val a = subst(n->a), b = subst(n->b); return binop(op, n->a->w, n->w, a, b); };
    switch (n->op) {
        case ITE: { Val c = subst(n->a); if (!c.n) r = c.c ? subst(n->b) : subst(n->c); else { Val b = subst(n->b), d = subst(n->c); r = ite(c, n->w, b, d); } break; }
        case CONCAT: { Val a = subst(n->a), b = subst(n->b); r = concat(a, n->w - (unsigned)n->k, b, (unsigned)n->k); break; }
        case EXTRACT: r = extract(subst(n->a), n->a->w, (unsigned)n->k, n->w); break;
        case ZEXT: r = zext(subst(n->a), n->a->w, n->w); break;
        case SEXT: r = sext(subst(n->a), n->a->w, n->w); break;
        default: if (n->b) r = bin(n->op); else r = unop(n->op, n->a->w, n->w, subst(n->a), n->k); break;
    }
    g_sg[id] = g_sgen; g_sv[id] = r;
    return r;
}
// is pc && q satisfiable?  base: a model of pc (extended on success into out)
static bool sat(const std::vector<Node *> &pc0, Node *q, const Asg &base, Asg &out)
{
    if (q->op == CONST) { if (q->k) out = base; return q->k != 0; }
    if (evaln(q, base)) { out = base; return true; }
    // equality substitution
    std::vector<std::pair<int, u64>> pins;
    for (Node *n : pc0) if (n->op == EQ && n->a->op == VAR && n->b->op == CONST) pins.push_back({(int)n->a->k, n->b->k});
    std::vector<Node *> pcs;
    if (!pins.empty()) {
        if (g_pin.size() < g_varw.size()) g_pin.resize(g_varw.size() + 64, {false, 0});
        for (auto &p : pins) g_pin[p.first] = {true, p.second};
        g_sgen++;
        Val qv = subst(q);
        bool dead = !qv.n && !qv.c;
        if (!dead) for (Node *n : pc0) { Val v = subst(n); if (v.n) pcs.push_back(v.n); else if (!v.c) { dead = true; break; } }
        for (auto &p : pins) g_pin[p.first].first = false;
        if (dead) return false;
        if (!qv.n) { out = base; return true; } // cannot be: base satisfies pc and fixes the pins
        q = qv.n;
    }
    const std::vector<Node *> &pc = pins.empty() ? pc0 : pcs;
    // slice
    std::vector<char> in(pc.size(), 0);
    std::set<int> vars(q->vars->begin(), q->vars->end());
    std::vector<Node *> cs{q};
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (in[i]) continue;
            bool hit = false;
            for (int v : *pc[i]->vars) if (vars.count(v)) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; cs.push_back(pc[i]); vars.insert(pc[i]->vars->begin(), pc[i]->vars->end()); }
        }
    }
    std::vector<unsigned> key;
    for (Node *n : cs) key.push_back(n->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_qcache.find(key);
    auto apply = [&](const std::vector<std::pair<int, u64>> &mv) {
        out = base;
        if (out.size() < g_varw.size()) out.resize(g_varw.size(), 0);
        for (auto &p : mv) out[p.first] = p.second;
    };
    if (it != g_qcache.end()) { n_cachehits++; if (it->second.first) apply(it->second.second); return it->second.first; }
    double t0 = now();
    n_queries++;
    Z3_solver s = g_fp_used ? SF : S;
    Z3_solver_push(Z, s);
    for (Node *n : cs) Z3_solver_assert(Z, s, tobool(n));
    Z3_lbool r = Z3_solver_check(Z, s);
    std::vector<std::pair<int, u64>> mv;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(Z, s);
        Z3_model_inc_ref(Z, m);
        for (int v : vars) {
            Z3_ast o; uint64_t x = 0;
            if (Z3_model_eval(Z, m, g_varast[v], true, &o) && Z3_get_numeral_uint64(Z, o, &x)) mv.push_back({v, x});
        }
        Z3_model_dec_ref(Z, m);
    }
    Z3_solver_pop(Z, s, 1);
    { double dt = now() - t0; t_solver += dt; if (g_slow > 0 && dt > g_slow) fprintf(stderr, "slow %.3f %s nconstraints=%zu at %s\n", dt, r == Z3_L_TRUE ? "sat" : "unsat", cs.size(), g_where ? g_where().c_str() : ""); }
    if (r == Z3_L_UNDEF) fatal("solver returned unknown");
    bool ok = r == Z3_L_TRUE;
    if (ok) n_sat++; else n_unsat++;
    if (g_qcache.size() > 400000) g_qcache.clear();
    g_qcache.emplace(std::move(key), std::make_pair(ok, mv));
    if (ok) {
        apply(mv);
        // guard against an encoding mismatch between the evaluator and Z3
        for (Node *n : cs) if (!evaln(n, out)) fatal("model does not satisfy the constraint under the concrete evaluator");
    }
    return ok;
}

// ------------------------------------------------------------------ memory
struct Obj {
    u64 base; u64 size; std::vector<uint8_t> b; std::map<uint32_t, std::pair<Node *, uint8_t>> sym; // byte -> (expr, byte index)
    std::vector<bool> uninit; bool hasuninit = false, freed = false, ro = false; uint8_t kind = 0; /*0 global 1 stack 2 heap*/ std::string name;
};
typedef std::shared_ptr<Obj> ORef;
struct Instr; struct Fn;
struct Frame { Fn *f; unsigned ip; unsigned bb, prevbb; std::vector<Val> r; std::vector<u64> allocas; int ret; };
struct State {
    std::vector<Frame> st; std::vector<ORef> objs; u64 next; std::vector<Node *> pc; std::vector<Val> inputs; Asg model; bool reached = false;
    u64 depth = 0;
};
static u64 n_instr, n_paths, n_forks, n_checks, n_checks_solved, n_killed, n_reached;

struct Violation { std::string kind, msg, loc; std::vector<u64> inputs; };
static std::vector<Violation> g_viol; static std::set<std::string> g_violkeys;
static std::vector<std::vector<u64>> g_samples;
static std::set<std::string> g_funcs;
static std::vector<State *> g_work;
static double g_deadline;
static u64 g_maxenum = 1024; static size_t g_maxsamples = 12;
static bool g_stop_first = false;

// ------------------------------------------------------------------ decoded program
struct Opnd { int slot; Val k; };
enum IK : uint8_t { I_BIN, I_CMP, I_FCMP, I_SEL, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_PHI, I_UNREACH, I_EXTV, I_INSV, I_EXTE, I_INSE, I_SHUF, I_FREEZE, I_FNEG, I_CMPX, I_RMW, I_NOP, I_VEC };
struct Instr {
    IK k; Op op; uint16_t w, ow; int dst = -1; std::vector<Opnd> o; Instruction *ll; Fn *callee = nullptr; std::vector<u64> sc; unsigned t0 = 0, t1 = 0;
    std::vector<std::pair<u64, unsigned>> cases; int pred = 0; Type *ty = nullptr; u64 off = 0; int builtin = 0; std::vector<unsigned> phibb;
};
struct Fn { Function *f; bool decoded = false; int nslots = 0; std::vector<std::vector<Instr>> bbs; std::vector<Opnd> args; u64 addr = 0; int nargs = 0; bool hit = false; };
static Module *M; static const DataLayout *DL;
static std::unordered_map<Function *, Fn *> g_fn; static std::unordered_map<u64, Fn *> g_fnaddr;
static std::unordered_map<const GlobalValue *, u64> g_gaddr;

static unsigned tw(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static bool scalar(Type *t) { unsigned w = tw(t); return w > 0 && w <= 64; }
static std::string locof(Instruction *I)
{
    std::string s = I->getFunction()->getName().str();
    if (I->getDebugLoc()) { auto *d = I->getDebugLoc().get(); s += " (" + d->getFilename().str() + ":" + std::to_string(d->getLine()) + ")"; }
    return s;
}
static Val mkagg(std::vector<Val> v, std::vector<unsigned> w) { return Val((u64) new Agg{std::move(v), std::move(w)}); }
static Agg *agg(const Val &v) { return (Agg *)v.c; }

static Val constval(Constant *c);
static Val zeroval(Type *t)
{
    if (scalar(t)) return Val((u64)0);
    std::vector<Val> v; std::vector<unsigned> w;
    if (auto *s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) { v.push_back(zeroval(s->getElementType(i))); w.push_back(tw(s->getElementType(i))); }
    else if (auto *a = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) { v.push_back(zeroval(a->getElementType())); w.push_back(tw(a->getElementType())); }
    else if (auto *a = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) { v.push_back(zeroval(a->getElementType())); w.push_back(tw(a->getElementType())); }
    else { std::string s; raw_string_ostream o(s); t->print(o); fatal("unsupported type " + o.str()); }
    return mkagg(v, w);
}
static Fn *getfn(Function *f);
static Val constval(Constant *c)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) fatal("wide integer constant"); return Val(ci->getZExtValue()); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (!scalar(t)) fatal("long double"); return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (isa<ConstantPointerNull>(c)) return Val((u64)0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroval(t);
    if (auto *f = dyn_cast<Function>(c)) return Val(getfn(f)->addr);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val(g_gaddr.at(g));
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constval(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("gep const"); return Val(constval(ce->getOperand(0)).c + off.getSExtValue()); }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constval(ce->getOperand(0));
            case Instruction::Sub: return Val(constval(ce->getOperand(0)).c - constval(ce->getOperand(1)).c);
            case Instruction::Add: return Val(constval(ce->getOperand(0)).c + constval(ce->getOperand(1)).c);
            case Instruction::Trunc: return Val(constval(ce->getOperand(0)).c & msk(tw(t)));
            default: fatal("constant expression");
        }
    }
    std::vector<Val> v; std::vector<unsigned> w;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) { v.push_back(constval(cd->getElementAsConstant(i))); w.push_back(tw(cd->getElementType())); }
        return mkagg(v, w);
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) { Constant *e = cast<Constant>(ca->getOperand(i)); v.push_back(constval(e)); w.push_back(tw(e->getType())); }
        return mkagg(v, w);
    }
    fatal("constant kind");
}
static void initmem(std::vector<uint8_t> &b, u64 off, Constant *c)
{
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (scalar(t)) { u64 v = constval(c).c; memcpy(&b[off], &v, DL->getTypeStoreSize(t)); return; }
    if (t->isX86_FP80Ty()) { APInt a = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(&b[off], a.getRawData(), 10); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) initmem(b, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initmem(b, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) initmem(b, off + i * es, c->getAggregateElement(i)); return; }
    fatal("global initialiser");
}
// builtins
enum { B_NONE, B_U64, B_RANGE, B_FORK, B_ASSUME, B_CHECK, B_REACH, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_IGN0, B_ABORT, B_EXIT, B_ASSERTFAIL, B_USABLE, B_MEMCPY, B_MEMSET, B_NOP, B_TOLOWERTAB, B_SNPRINTF, B_ISCONC, B_UNDEF };
static int builtin_of(const std::string &n)
{
    static const std::map<std::string, int> m = {{"vt_u64", B_U64}, {"vt_range", B_RANGE}, {"vt_fork", B_FORK}, {"vt_assume_", B_ASSUME}, {"vt_check_", B_CHECK}, {"vt_reach_", B_REACH},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"cfree", B_FREE}, {"malloc_usable_size", B_USABLE}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
        {"__assert_fail", B_ASSERTFAIL}, {"printf", B_IGN0}, {"fprintf", B_IGN0}, {"puts", B_IGN0}, {"putchar", B_IGN0}, {"fflush", B_IGN0}, {"perror", B_IGN0}, {"fputs", B_IGN0}, {"fputc", B_IGN0}, {"vprintf", B_IGN0}, {"vfprintf", B_IGN0},
        {"sprintf", B_SNPRINTF}, {"snprintf", B_SNPRINTF}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"srand", B_IGN0}, {"usleep", B_IGN0}, {"sleep", B_IGN0}, {"fwrite", B_IGN0},
        {"pthread_mutex_lock", B_IGN0}, {"pthread_mutex_unlock", B_IGN0}, {"pthread_mutex_init", B_IGN0}, {"pthread_mutex_destroy", B_IGN0}};
    auto it = m.find(n);
    return it == m.end() ? B_NONE : it->second;
}
static Fn *getfn(Function *f)
{
    auto it = g_fn.find(f);
    if (it != g_fn.end()) return it->second;
    static u64 fa = 0x10000;
    Fn *x = new Fn{f};
    x->addr = fa; fa += 16;
    g_fn[f] = x; g_fnaddr[x->addr] = x;
    return x;
}
static void decode(Fn *F)
{
    F->decoded = true;
    Function *f = F->f;
    std::unordered_map<Value *, int> slot;
    std::unordered_map<BasicBlock *, unsigned> bbi;
    int ns = 0;
    for (auto &a : f->args()) slot[&a] = ns++;
    F->nargs = ns;
    unsigned nb = 0;
    for (auto &bb : *f) { bbi[&bb] = nb++; for (auto &I : bb) if (!I.getType()->isVoidTy()) slot[&I] = ns++; }
    F->nslots = ns;
    auto op = [&](Value *v) -> Opnd {
        if (auto *c = dyn_cast<Constant>(v)) return Opnd{-1, constval(c)};
        auto it = slot.find(v);
        if (it == slot.end()) return Opnd{-1, Val((u64)0)}; // metadata, labels, inline asm
        return Opnd{it->second, Val()};
    };
    for (auto &bb : *f) {
        std::vector<Instr> v;
        for (auto &I : bb) {
            Instr x{};
            x.ll = &I;
            x.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            x.w = (uint16_t)std::min(tw(I.getType()), 65535u);
            Type *t = I.getType();
            bool vec = t->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
            if (t->isX86_FP80Ty()) fatal("x86_fp80 in " + f->getName().str());
            switch (I.getOpcode()) {
                case Instruction::Add: x.op = ADD; goto bin; case Instruction::Sub: x.op = SUB; goto bin; case Instruction::Mul: x.op = MUL; goto bin;
                case Instruction::UDiv: x.op = UDIV; goto bin; case Instruction::SDiv: x.op = SDIV; goto bin; case Instruction::URem: x.op = UREM; goto bin; case Instruction::SRem: x.op = SREM; goto bin;
                case Instruction::And: x.op = AND; goto bin; case Instruction::Or: x.op = OR; goto bin; case Instruction::Xor: x.op = XOR; goto bin;
                case Instruction::Shl: x.op = SHL; goto bin; case Instruction::LShr: x.op = LSHR; goto bin; case Instruction::AShr: x.op = ASHR; goto bin;
                case Instruction::FAdd: x.op = FADD; goto bin; case Instruction::FSub: x.op = FSUB; goto bin; case Instruction::FMul: x.op = FMUL; goto bin; case Instruction::FDiv: x.op = FDIV; goto bin;
                bin: x.k = vec ? I_VEC : I_BIN; x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; x.ow = x.w; if (!vec && x.w > 64) fatal("wide integer in " + f->getName().str()); break;
                case Instruction::FNeg: x.k = I_FNEG; x.o = {op(I.getOperand(0))}; break;
                case Instruction::ICmp: x.k = vec ? I_VEC : I_CMP; x.pred = cast<ICmpInst>(I).getPredicate(); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; x.ow = (uint16_t)tw(I.getOperand(0)->getType()); if (!vec && x.ow > 64) fatal("wide cmp"); break;
                case Instruction::FCmp: x.k = I_FCMP; x.pred = cast<FCmpInst>(I).getPredicate(); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; x.ow = (uint16_t)tw(I.getOperand(0)->getType()); if (!x.ow) fatal("fp80 compare"); break;
                case Instruction::Select: x.k = I_SEL; x.ty = t; x.o = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; break;
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                    x.k = vec ? I_VEC : I_CAST; x.o = {op(I.getOperand(0))}; x.ow = (uint16_t)tw(I.getOperand(0)->getType()); x.ty = I.getOperand(0)->getType(); if (!vec && (!x.ow || !x.w || x.ow > 64 || x.w > 64)) fatal("cast width in " + f->getName().str()); break;
                case Instruction::Load: x.k = I_LOAD; x.ty = t; x.o = {op(I.getOperand(0))}; break;
                case Instruction::Store: x.k = I_STORE; x.ty = I.getOperand(0)->getType(); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
                case Instruction::GetElementPtr: {
                    x.k = I_GEP; auto *g = cast<GetElementPtrInst>(&I); x.o.push_back(op(g->getPointerOperand())); x.off = 0;
                    for (gep_type_iterator gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
                        Value *iv = gi.getOperand();
                        if (StructType *s = gi.getStructTypeOrNull()) x.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
                        else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(iv)) x.off += es * ci->getSExtValue(); else { x.o.push_back(op(iv)); x.sc.push_back(es); x.sc.push_back(tw(iv->getType())); } }
                    }
                    break; }
                case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); x.k = I_ALLOCA; x.off = DL->getTypeAllocSize(a->getAllocatedType()); x.o = {op(a->getArraySize())}; break; }
                case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) { x.k = I_CBR; x.o = {op(b->getCondition())}; x.t0 = bbi[b->getSuccessor(0)]; x.t1 = bbi[b->getSuccessor(1)]; } else { x.k = I_BR; x.t0 = bbi[b->getSuccessor(0)]; } break; }
                case Instruction::Switch: { auto *s = cast<SwitchInst>(&I); x.k = I_SWITCH; x.o = {op(s->getCondition())}; x.ow = (uint16_t)tw(s->getCondition()->getType()); x.t0 = bbi[s->getDefaultDest()]; for (auto &c : s->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
                case Instruction::Ret: x.k = I_RET; if (I.getNumOperands()) x.o = {op(I.getOperand(0))}; break;
                case Instruction::Unreachable: x.k = I_UNREACH; break;
                case Instruction::PHI: { auto *p = cast<PHINode>(&I); x.k = I_PHI; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { x.o.push_back(op(p->getIncomingValue(i))); x.phibb.push_back(bbi[p->getIncomingBlock(i)]); } break; }
                case Instruction::ExtractValue: x.k = I_EXTV; x.o = {op(I.getOperand(0))}; for (unsigned i : cast<ExtractValueInst>(I).indices()) x.sc.push_back(i); break;
                case Instruction::InsertValue: x.k = I_INSV; x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; for (unsigned i : cast<InsertValueInst>(I).indices()) x.sc.push_back(i); break;
                case Instruction::ExtractElement: x.k = I_EXTE; x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
                case Instruction::InsertElement: x.k = I_INSE; x.o = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; break;
                case Instruction::ShuffleVector: x.k = I_SHUF; x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) x.sc.push_back((u64)m); break;
                case Instruction::Freeze: x.k = I_FREEZE; x.o = {op(I.getOperand(0))}; break;
                case Instruction::Fence: x.k = I_NOP; break;
                case Instruction::AtomicCmpXchg: x.k = I_CMPX; x.ty = I.getOperand(1)->getType(); x.ow = (uint16_t)tw(x.ty); x.o = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; break;
                case Instruction::AtomicRMW: x.k = I_RMW; x.ty = I.getOperand(1)->getType(); x.pred = cast<AtomicRMWInst>(I).getOperation(); x.o = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
                case Instruction::Call: {
                    auto *c = cast<CallInst>(&I); x.k = I_CALL; x.ty = t;
                    if (isa<DbgInfoIntrinsic>(c)) { x.k = I_NOP; break; }
                    for (auto &a : c->args()) x.o.push_back(op(a.get()));
                    Value *cv = c->getCalledOperand()->stripPointerCasts();
                    if (c->isInlineAsm()) { x.builtin = B_UNDEF; break; }
                    if (auto *cf = dyn_cast<Function>(cv)) { x.callee = getfn(cf); if (cf->isDeclaration()) x.builtin = builtin_of(cf->getName().str()); }
                    else x.o.push_back(op(cv));
                    break; }
                default: fatal(std::string("instruction ") + I.getOpcodeName() + " in " + f->getName().str());
            }
            v.push_back(std::move(x));
        }
        F->bbs.push_back(std::move(v));
    }
}

// ------------------------------------------------------------------ state helpers
static std::vector<u64> concrete_inputs(State &s, const Asg &m)
{
    std::vector<u64> r;
    for (auto &v : s.inputs) r.push_back(v.n ? evaln(v.n, m) : v.c);
    return r;
}
static void violation(State &s, Instruction *I, const std::string &kind, const std::string &msg, const Asg &m)
{
    std::string loc = I ? locof(I) : "", key = kind + msg + (kind == "check" ? "" : loc);
    if (!g_violkeys.insert(key).second) return;
    // call chain
    std::string chain;
    for (size_t i = s.st.size(); i-- > 0 && i + 6 > s.st.size();) chain += (chain.empty() ? "" : " < ") + s.st[i].f->f->getName().str();
    g_viol.push_back(Violation{kind, msg + (kind == "check" ? "" : " in " + chain), loc, concrete_inputs(s, m)});
}
struct KillPath {};
static void addc(State &s, Val c)
{
    if (!c.n) { if (!c.c) throw KillPath{}; return; }
    if (c.n->op == AND && c.n->w == 1) { addc(s, Val(c.n->a)); addc(s, Val(c.n->b)); return; }
    for (Node *x : s.pc) if (x == c.n) return;
    s.pc.push_back(c.n);
}
static bool feas(State &s, Val c, Asg &m) { if (!c.n) { m = s.model; return c.c != 0; } return sat(s.pc, c.n, s.model, m); }
static State *forkstate(State &s) { n_forks++; return new State(s); }
// Both sides of a condition: continues in s with the returned truth value, pushes the other side if feasible.
static bool branch(State &s, Val c)
{
    if (!c.n) return c.c != 0;
    for (Node *x : s.pc) if (x == c.n) return true;
    { Val n = notv(c); for (Node *x : s.pc) if (x == n.n) return false; }
    bool v = evaln(c.n, s.model);
    Val other = v ? notv(c) : c;
    Asg m;
    if (sat(s.pc, nd(other, 1), s.model, m)) {
        State *o = forkstate(s);
        o->model = std::move(m);
        addc(*o, other);
        g_work.push_back(o); // resumes at the same instruction: the condition is then decided
    }
    addc(s, v ? c : notv(c));
    return v;
}
// Concretise register slot: fork over every feasible value (current state keeps one)
static u64 concretise(State &s, Opnd &o, unsigned w)
{
    Frame &f = s.st.back();
    Val v = o.slot < 0 ? o.k : f.r[o.slot];
    if (!v.n) return v.c;
    std::vector<u64> vals;
    u64 first = evaln(v.n, s.model);
    std::vector<Node *> pc = s.pc;
    Val eq = binop(EQ, w, 1, v, Val(first)), ne = notv(eq);
    Asg m;
    if (ne.n && sat(s.pc, ne.n, s.model, m)) {
        // the rest is explored by a state that excludes this value and re-executes the instruction
        State *q = forkstate(s);
        q->model = std::move(m);
        addc(*q, ne);
        q->depth++;
        if (q->depth > 2000000) fatal("concretisation diverges");
        g_work.push_back(q);
    }
    addc(s, eq);
    f.r[o.slot] = Val(first);
    return first;
}
static ORef *findobj(State &s, u64 a)
{
    size_t lo = 0, hi = s.objs.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (s.objs[mid]->base <= a) lo = mid + 1; else hi = mid; }
    if (!lo) return nullptr;
    ORef *o = &s.objs[lo - 1];
    if (a > (*o)->base + (*o)->size) return nullptr;
    return o;
}
static Obj *wr(ORef *o) { if (o->use_count() > 1) *o = std::make_shared<Obj>(**o); return o->get(); }
/* A heap request too large to model fails; the exploration goes on but cannot end in a clean result. */
static std::string g_huge;
static u64 newobj(State &s, u64 size, uint8_t kind, bool uninit, const std::string &name = "")
{
    if (kind == 2 && size > (1ULL << 28)) { g_huge = "allocation of " + std::to_string(size) + " bytes"; return 0; }
    auto o = std::make_shared<Obj>();
    if (size > (1ULL << 28)) fatal("allocation of " + std::to_string(size) + " bytes");
    u64 base = (s.next + 31) & ~15ULL;
    s.next = base + size + 32;
    o->base = base; o->size = size; o->b.assign(size, 0); o->kind = kind; o->name = name;
    if (uninit && size) { o->uninit.assign(size, true); o->hasuninit = true; }
    s.objs.push_back(o);
    return base;
}
static Val getbyte(State &s, ORef *o, u64 i)
{
    Obj *x = o->get();
    if (x->hasuninit && x->uninit[i]) {
        x = wr(o);
        x->uninit[i] = false;
        x->sym[(uint32_t)i] = {newvar(8), 0};
        if (s.model.size() < g_varw.size()) s.model.resize(g_varw.size(), 0);
    }
    if (!x->sym.empty()) { auto it = x->sym.find((uint32_t)i); if (it != x->sym.end()) return extract(Val(it->second.first), it->second.first->w, it->second.second * 8, 8); }
    return Val((u64)x->b[i]);
}
static Val rd(State &s, ORef *o, u64 off, unsigned n) // n bytes, little endian
{
    Obj *x = o->get();
    if (x->sym.empty() && !x->hasuninit) { u64 v = 0; memcpy(&v, &x->b[off], n); return Val(v); }
    bool anyun = false, anys = false;
    if (x->hasuninit) for (unsigned i = 0; i < n; i++) anyun |= x->uninit[off + i];
    if (!anyun) {
        auto it = x->sym.lower_bound((uint32_t)off);
        anys = it != x->sym.end() && it->first < off + n;
        if (!anys) { u64 v = 0; memcpy(&v, &x->b[off], n); return Val(v); }
        if (it->first == off && it->second.second == 0 && it->second.first->w == n * 8) {
            bool all = true; unsigned k = 0;
            Node *e = it->second.first;
            for (; k < n; ++k, ++it) if (it == x->sym.end() || it->first != off + k || it->second.first != e || it->second.second != k) { all = false; break; }
            if (all) return Val(e);
        }
    }
    Val v = getbyte(s, o, off);
    for (unsigned i = 1; i < n; i++) v = concat(getbyte(s, o, off + i), 8, v, i * 8);
    return v;
}
static void wrv(State &s, ORef *o, u64 off, unsigned n, Val v)
{
    Obj *x = wr(o);
    if (x->hasuninit) for (unsigned i = 0; i < n; i++) x->uninit[off + i] = false;
    if (!v.n) { if (!x->sym.empty()) { auto a = x->sym.lower_bound((uint32_t)off); while (a != x->sym.end() && a->first < off + n) a = x->sym.erase(a); } memcpy(&x->b[off], &v.c, n); return; }
    if (v.n->w < n * 8) v = zext(v, v.n->w, n * 8);
    if (!v.n) { wrv(s, o, off, n, v); return; }
    for (unsigned i = 0; i < n; i++) {
        Val b = extract(v, n * 8, i * 8, 8);
        if (!b.n) { x->sym.erase((uint32_t)(off + i)); x->b[off + i] = (uint8_t)b.c; }
        else x->sym[(uint32_t)(off + i)] = {v.n, (uint8_t)i};
    }
}
static std::string addrdesc(State &s, u64 a, u64 n, bool write)
{
    ORef *o = findobj(s, a);
    char b[200];
    if (a < 4096) snprintf(b, sizeof b, "NULL pointer %s", write ? "write" : "read");
    else if (o && (*o)->freed) snprintf(b, sizeof b, "use after free (%s of %llu bytes)", write ? "write" : "read", (unsigned long long)n);
    else if (o) snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %llu of a %llu-byte %s object %s", write ? "write" : "read", (unsigned long long)n, (unsigned long long)(a - (*o)->base), (unsigned long long)(*o)->size, (*o)->kind == 2 ? "heap" : (*o)->kind == 1 ? "stack" : "global", (*o)->name.c_str());
    else snprintf(b, sizeof b, "invalid pointer %s", write ? "write" : "read");
    return b;
}
static ORef *valid(State &s, Instruction *I, u64 a, u64 n, bool write)
{
    if (n == 0) return findobj(s, a);
    ORef *o = findobj(s, a);
    if (!o || (*o)->freed || a + n > (*o)->base + (*o)->size) {
        // last chance: an object that starts here
        violation(s, I, "memory", addrdesc(s, a, n, write), s.model);
        throw KillPath{};
    }
    if (write && (*o)->ro) { violation(s, I, "memory", "write to constant object", s.model); throw KillPath{}; }
    return o;
}
// Resolve a possibly symbolic address for an n-byte access.  Returns object; off is concrete or symbolic.
static ORef *resolve(State &s, Instruction *I, Opnd &ao, u64 n, bool write, Val &off)
{
    Frame &f = s.st.back();
    Val a = ao.slot < 0 ? ao.k : f.r[ao.slot];
    if (!a.n) { ORef *o = valid(s, I, a.c, n, write); off = Val(a.c - (o ? (*o)->base : 0)); return o; }
    u64 v = evaln(a.n, s.model);
    ORef *o = findobj(s, v);
    if (!o || (*o)->freed || v + n > (*o)->base + (*o)->size || (write && (*o)->ro)) { valid(s, I, v, n, write); }
    // in this object?
    u64 base = (*o)->base, last = (*o)->size - n;
    Val rel = binop(SUB, 64, 64, a, Val(base));
    Val in = binop(ULE, 64, 1, rel, Val(last));
    Asg m;
    Val out = notv(in);
    if (feas(s, out, m)) {
        State *q = forkstate(s);
        q->model = std::move(m);
        addc(*q, out);
        g_work.push_back(q);
    }
    addc(s, in);
    if (!rel.n) { off = rel; return o; }
    u64 sz = (*o)->size;
    u64 lim = write ? 64 : 1024;
    if (sz > lim || n > 8) { u64 c = concretise(s, ao, 64); off = Val(c - base); return findobj(s, c); }
    off = rel;
    return o;
}
static Val loadscalar(State &s, Instruction *I, Opnd &ao, unsigned n)
{
    Val off;
    ORef *o = resolve(s, I, ao, n, false, off);
    if (!off.n) return rd(s, o, off.c, n);
    u64 sz = (*o)->size;
    // stride of the symbolic offset: only multiples of n when provably so (cheap syntactic check)
    std::map<std::pair<Node *, u64>, std::vector<u64>> groups;
    unsigned step = 1; u64 rem = 0;
    if (n > 1) { Asg m; Val al = binop(EQ, 64, 1, binop(AND, 64, 64, off, Val((u64)(n - 1))), Val((u64)(evaln(off.n, s.model) & (n - 1)))); if ((n & (n - 1)) == 0 && !feas(s, notv(al), m)) { step = n; rem = evaln(off.n, s.model) & (n - 1); } }
    std::vector<std::pair<u64, Val>> es;
    for (u64 i = rem; i + n <= sz; i += step) { Val v = rd(s, o, i, n); groups[{v.n, v.c}].push_back(i); }
    const std::vector<u64> *big = nullptr; std::pair<Node *, u64> bk{nullptr, 0};
    for (auto &g : groups) if (!big || g.second.size() > big->size()) { big = &g.second; bk = g.first; }
    Val r; r.n = bk.first; r.c = bk.second;
    for (auto &g : groups) {
        if (g.first == bk) continue;
        Val c((u64)0);
        for (u64 i : g.second) c = c.n || c.c ? binop(OR, 1, 1, c, binop(EQ, 64, 1, off, Val(i))) : binop(EQ, 64, 1, off, Val(i));
        Val gv; gv.n = g.first.first; gv.c = g.first.second;
        r = ite(c, n * 8, gv, r);
    }
    return r;
}
static void storescalar(State &s, Instruction *I, Opnd &ao, unsigned n, Val v)
{
    Val off;
    ORef *o = resolve(s, I, ao, n, true, off);
    if (!off.n) { wrv(s, o, off.c, n, v); return; }
    u64 sz = (*o)->size;
    std::vector<Val> nb(sz);
    if (v.n && v.n->w < n * 8) v = zext(v, v.n->w, n * 8);
    for (u64 i = 0; i < sz; i++) {
        Val b = getbyte(s, o, i);
        for (unsigned k = 0; k < n; k++) if (i >= k && i - k + n <= sz) b = ite(binop(EQ, 64, 1, off, Val(i - k)), 8, extract(v, n * 8, k * 8, 8), b);
        nb[i] = b;
    }
    for (u64 i = 0; i < sz; i++) wrv(s, o, i, 1, nb[i]);
}
static Val loadty(State &s, Instruction *I, Opnd &ao, Type *t)
{
    if (scalar(t)) {
        unsigned n = (unsigned)DL->getTypeStoreSize(t), w = tw(t);
        Val v = loadscalar(s, I, ao, n);
        if (w < n * 8) v = extract(v, n * 8, 0, w);
        return v;
    }
    Frame &f = s.st.back();
    u64 a = concretise(s, ao, 64);
    (void)f;
    std::function<Val(u64, Type *)> rec = [&](u64 ad, Type *ty) -> Val {
        if (scalar(ty)) { Opnd k{-1, Val(ad)}; return loadty(s, I, k, ty); }
        std::vector<Val> v; std::vector<unsigned> w;
        if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { v.push_back(rec(ad + sl->getElementOffset(i), st->getElementType(i))); w.push_back(tw(st->getElementType(i))); } }
        else if (auto *at = dyn_cast<ArrayType>(ty)) { for (u64 i = 0; i < at->getNumElements(); i++) { v.push_back(rec(ad + i * DL->getTypeAllocSize(at->getElementType()), at->getElementType())); w.push_back(tw(at->getElementType())); } }
        else if (auto *vt = dyn_cast<FixedVectorType>(ty)) { for (u64 i = 0; i < vt->getNumElements(); i++) { v.push_back(rec(ad + i * DL->getTypeStoreSize(vt->getElementType()), vt->getElementType())); w.push_back(tw(vt->getElementType())); } }
        else fatal("load type");
        return mkagg(v, w);
    };
    return rec(a, t);
}
static void storety(State &s, Instruction *I, Opnd &ao, Type *t, Val v)
{
    if (scalar(t)) {
        unsigned n = (unsigned)DL->getTypeStoreSize(t);
        storescalar(s, I, ao, n, v);
        return;
    }
    u64 a = concretise(s, ao, 64);
    std::function<void(u64, Type *, Val)> rec = [&](u64 ad, Type *ty, Val x) {
        if (scalar(ty)) { Opnd k{-1, Val(ad)}; storety(s, I, k, ty, x); return; }
        Agg *g = agg(x);
        if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) rec(ad + sl->getElementOffset(i), st->getElementType(i), g->v[i]); }
        else if (auto *at = dyn_cast<ArrayType>(ty)) { for (u64 i = 0; i < at->getNumElements(); i++) rec(ad + i * DL->getTypeAllocSize(at->getElementType()), at->getElementType(), g->v[i]); }
        else if (auto *vt = dyn_cast<FixedVectorType>(ty)) { for (u64 i = 0; i < vt->getNumElements(); i++) rec(ad + i * DL->getTypeStoreSize(vt->getElementType()), vt->getElementType(), g->v[i]); }
        else fatal("store type");
    };
    rec(a, t, v);
}
static void domemcpy(State &s, Instruction *I, u64 d, u64 sr, u64 n)
{
    if (!n) return;
    if (n > (1ULL << 28)) { violation(s, I, "memory", "copy of " + std::to_string(n) + " bytes", s.model); throw KillPath{}; }
    ORef *so = valid(s, I, sr, n, false);
    u64 soff = sr - (*so)->base;
    ORef src = *so; // keep a reference: COW protects overlapping copies
    ORef *dp = valid(s, I, d, n, true);
    u64 doff = d - (*dp)->base;
    std::vector<std::pair<uint32_t, std::pair<Node *, uint8_t>>> syms;
    { auto it = src->sym.lower_bound((uint32_t)soff); for (; it != src->sym.end() && it->first < soff + n; ++it) syms.push_back({(uint32_t)(it->first - soff + doff), it->second}); }
    std::vector<uint8_t> bytes(src->b.begin() + soff, src->b.begin() + soff + n);
    std::vector<bool> un;
    if (src->hasuninit) un.assign(src->uninit.begin() + soff, src->uninit.begin() + soff + n);
    Obj *x = wr(dp);
    { auto a = x->sym.lower_bound((uint32_t)doff); while (a != x->sym.end() && a->first < doff + n) a = x->sym.erase(a); }
    memcpy(&x->b[doff], bytes.data(), n);
    for (auto &p : syms) x->sym[p.first] = p.second;
    if (!un.empty() || x->hasuninit) {
        bool any = false; for (bool q : un) any |= q;
        if (any && !x->hasuninit) { x->uninit.assign(x->size, false); x->hasuninit = true; }
        if (x->hasuninit) for (u64 i = 0; i < n; i++) x->uninit[doff + i] = un.empty() ? false : (bool)un[i];
    }
}
static std::string cstr(State &s, Instruction *I, u64 a)
{
    std::string r;
    for (u64 i = 0; i < 100000; i++) {
        ORef *o = valid(s, I, a + i, 1, false);
        Val b = getbyte(s, o, a + i - (*o)->base);
        u64 c = b.n ? evaln(b.n, s.model) : b.c;
        if (b.n) { addc(s, binop(EQ, 8, 1, b, Val(c))); fatal("symbolic format string"); }
        if (!c) break;
        r += (char)c;
    }
    return r;
}
static Val V(State &s, Opnd &o) { return o.slot < 0 ? o.k : s.st.back().r[o.slot]; }
static void setr(State &s, Instr &x, Val v) { if (x.dst >= 0) s.st.back().r[x.dst] = v; }
static void pushframe(State &s, Fn *F, const std::vector<Val> &args, int ret)
{
    if (!F->decoded) decode(F);
    if (!F->hit) { F->hit = true; std::string n = F->f->getName().str(); g_funcs.insert(n); }
    if (s.st.size() > 400) { fatal("recursion deeper than 400 frames in " + F->f->getName().str()); }
    Frame f; f.f = F; f.ip = 0; f.bb = 0; f.prevbb = 0; f.ret = ret;
    f.r.assign(F->nslots, Val((u64)0));
    for (size_t i = 0; i < args.size() && i < (size_t)F->nargs; i++) f.r[i] = args[i];
    // byval arguments: copy
    s.st.push_back(std::move(f));
    for (unsigned i = 0; i < F->f->arg_size(); i++) {
        Argument *A = F->f->getArg(i);
        if (A->hasByValAttr()) {
            u64 sz = DL->getTypeAllocSize(A->getParamByValType());
            u64 d = newobj(s, sz, 1, true, "byval");
            Val src = s.st.back().r[i];
            if (src.n) fatal("symbolic byval pointer");
            domemcpy(s, &*F->f->getEntryBlock().begin(), d, src.c, sz);
            s.st.back().r[i] = Val(d);
            s.st.back().allocas.push_back(d);
        }
    }
}
static void gotobb(State &s, unsigned t)
{
    Frame &f = s.st.back();
    f.prevbb = f.bb; f.bb = t; f.ip = 0;
    // phis in parallel
    auto &v = f.f->bbs[t];
    if (!v.empty() && v[0].k == I_PHI) {
        std::vector<Val> nv;
        unsigned i = 0;
        for (; i < v.size() && v[i].k == I_PHI; i++) {
            bool ok = false;
            for (size_t j = 0; j < v[i].phibb.size(); j++) if (v[i].phibb[j] == f.prevbb) { nv.push_back(V(s, v[i].o[j])); ok = true; break; }
            if (!ok) fatal("phi");
        }
        for (unsigned j = 0; j < i; j++) f.r[v[j].dst] = nv[j];
        f.ip = i;
    }
}
static Val selv(Val c, Type *t, Val a, Val b)
{
    if (!c.n) return c.c ? a : b;
    if (scalar(t)) return ite(c, tw(t), a, b);
    Agg *x = agg(a), *y = agg(b);
    std::vector<Val> v;
    for (size_t i = 0; i < x->v.size(); i++) v.push_back(ite(c, x->w[i], x->v[i], y->v[i]));
    return mkagg(v, x->w);
}
static Val icmp(int p, unsigned ow, Val a, Val b)
{
    switch (p) {
        case CmpInst::ICMP_EQ: return binop(EQ, ow, 1, a, b);
        case CmpInst::ICMP_NE: return notv(binop(EQ, ow, 1, a, b));
        case CmpInst::ICMP_ULT: return binop(ULT, ow, 1, a, b);
        case CmpInst::ICMP_ULE: return binop(ULE, ow, 1, a, b);
        case CmpInst::ICMP_UGT: return binop(ULT, ow, 1, b, a);
        case CmpInst::ICMP_UGE: return binop(ULE, ow, 1, b, a);
        case CmpInst::ICMP_SLT: return binop(SLT, ow, 1, a, b);
        case CmpInst::ICMP_SLE: return binop(SLE, ow, 1, a, b);
        case CmpInst::ICMP_SGT: return binop(SLT, ow, 1, b, a);
        case CmpInst::ICMP_SGE: return binop(SLE, ow, 1, b, a);
    }
    fatal("icmp");
}
static Val orv(Val a, Val b) { return binop(OR, 1, 1, a, b); }
static Val fcmp(int p, unsigned ow, Val a, Val b)
{
    if (a.n || b.n) g_fp_used = true;
    auto un = [&] { return binop(FUNO, ow, 1, a, b); };
    switch (p) {
        case CmpInst::FCMP_OEQ: return binop(FOEQ, ow, 1, a, b);
        case CmpInst::FCMP_UNE: return notv(binop(FOEQ, ow, 1, a, b));
        case CmpInst::FCMP_OLT: return binop(FOLT, ow, 1, a, b);
        case CmpInst::FCMP_OLE: return binop(FOLE, ow, 1, a, b);
        case CmpInst::FCMP_OGT: return binop(FOLT, ow, 1, b, a);
        case CmpInst::FCMP_OGE: return binop(FOLE, ow, 1, b, a);
        case CmpInst::FCMP_UNO: return un();
        case CmpInst::FCMP_ORD: return notv(un());
        case CmpInst::FCMP_ONE: return orv(binop(FOLT, ow, 1, a, b), binop(FOLT, ow, 1, b, a));
        case CmpInst::FCMP_UEQ: return orv(un(), binop(FOEQ, ow, 1, a, b));
        case CmpInst::FCMP_ULT: return notv(binop(FOLE, ow, 1, b, a));
        case CmpInst::FCMP_ULE: return notv(binop(FOLT, ow, 1, b, a));
        case CmpInst::FCMP_UGT: return notv(binop(FOLE, ow, 1, a, b));
        case CmpInst::FCMP_UGE: return notv(binop(FOLT, ow, 1, a, b));
        case CmpInst::FCMP_TRUE: return Val((u64)1);
        case CmpInst::FCMP_FALSE: return Val((u64)0);
    }
    fatal("fcmp");
}
static Val castop(unsigned opc, unsigned ow, unsigned w, Val a)
{
    switch (opc) {
        case Instruction::Trunc: return extract(a, ow, 0, w);
        case Instruction::ZExt: return zext(a, ow, w);
        case Instruction::SExt: return sext(a, ow, w);
        case Instruction::PtrToInt: case Instruction::IntToPtr: return ow > w ? extract(a, ow, 0, w) : zext(a, ow, w);
        case Instruction::BitCast: return a;
        case Instruction::FPToUI: if (a.n) g_fp_used = true; return unop(FPTOUI, ow, w, a);
        case Instruction::FPToSI: if (a.n) g_fp_used = true; return unop(FPTOSI, ow, w, a);
        case Instruction::UIToFP: if (a.n) g_fp_used = true; return unop(UITOFP, ow, w, a);
        case Instruction::SIToFP: if (a.n) g_fp_used = true; return unop(SITOFP, ow, w, a);
        case Instruction::FPTrunc: case Instruction::FPExt: if (a.n) g_fp_used = true; return unop(FPCONV, ow, w, a);
    }
    fatal("cast");
}
static std::vector<Val> tobytes(Val v, Type *t)
{
    std::vector<Val> r;
    if (scalar(t)) { for (unsigned i = 0; i < tw(t) / 8; i++) r.push_back(extract(v, tw(t), i * 8, 8)); return r; }
    Agg *g = agg(v);
    for (size_t k = 0; k < g->v.size(); k++) for (unsigned i = 0; i < g->w[k] / 8; i++) r.push_back(extract(g->v[k], g->w[k], i * 8, 8));
    return r;
}
static Val frombytes(const std::vector<Val> &b, Type *t)
{
    auto take = [&](size_t p, unsigned n) { Val v = b[p]; for (unsigned i = 1; i < n; i++) v = concat(b[p + i], 8, v, i * 8); return v; };
    if (scalar(t)) return take(0, tw(t) / 8);
    auto *vt = cast<FixedVectorType>(t);
    unsigned ew = tw(vt->getElementType());
    std::vector<Val> v; std::vector<unsigned> w;
    for (unsigned i = 0; i < vt->getNumElements(); i++) { v.push_back(take(i * ew / 8, ew / 8)); w.push_back(ew); }
    return mkagg(v, w);
}
static void endpath(State &s)
{
    n_paths++;
    if (s.reached) {
        n_reached++;
        // reservoir-like sampling spread over the run
        if (g_samples.size() < g_maxsamples || (n_reached & (n_reached - 1)) == 0) {
            auto in = concrete_inputs(s, s.model);
            if (g_samples.size() < g_maxsamples) g_samples.push_back(in);
            else g_samples[n_reached % g_maxsamples] = in;
        }
    }
}
static bool docall(State &s, Instr &x);
// executes until the path ends
static Instruction *g_cur;
static bool step(State &s) // returns false when the path has ended
{
    Frame *f = &s.st.back();
    Instr &x = f->f->bbs[f->bb][f->ip];
    n_instr++;
    g_cur = x.ll;
    switch (x.k) {
        case I_NOP: break;
        case I_BIN: {
            Val a = V(s, x.o[0]), b = V(s, x.o[1]);
            if (x.op == UDIV || x.op == SDIV || x.op == UREM || x.op == SREM) {
                Val z = binop(EQ, x.w, 1, b, Val((u64)0));
                if (branch(s, z)) { violation(s, x.ll, "arith", "division by zero", s.model); throw KillPath{}; }
                f = &s.st.back();
            }
            if (x.op >= FADD && x.op <= FDIV && (a.n || b.n)) g_fp_used = true;
            setr(s, x, binop(x.op, x.w, x.w, a, b));
            break; }
        case I_FNEG: { if (!x.w) fatal("vector fneg"); setr(s, x, binop(XOR, x.w, x.w, V(s, x.o[0]), Val(1ULL << (x.w - 1)))); break; }
        case I_CMP: setr(s, x, icmp(x.pred, x.ow, V(s, x.o[0]), V(s, x.o[1]))); break;
        case I_FCMP: setr(s, x, fcmp(x.pred, x.ow, V(s, x.o[0]), V(s, x.o[1]))); break;
        case I_SEL: {
            if (x.ll->getOperand(0)->getType()->isVectorTy()) { Agg *c = agg(V(s, x.o[0])), *a = agg(V(s, x.o[1])), *b = agg(V(s, x.o[2])); std::vector<Val> v; for (size_t i = 0; i < c->v.size(); i++) v.push_back(ite(c->v[i], a->w[i], a->v[i], b->v[i])); setr(s, x, mkagg(v, a->w)); }
            else setr(s, x, selv(V(s, x.o[0]), x.ty, V(s, x.o[1]), V(s, x.o[2])));
            break; }
        case I_CAST: setr(s, x, castop(x.ll->getOpcode(), x.ow, x.w, V(s, x.o[0]))); break;
        case I_VEC: {
            unsigned opc = x.ll->getOpcode();
            if (opc == Instruction::BitCast) {
                Type *dt = x.ll->getType();
                Val a = V(s, x.o[0]);
                if (x.ty->isVectorTy() && cast<FixedVectorType>(x.ty)->getElementType()->isIntegerTy(1)) { Agg *g = agg(a); Val v = g->v[0]; for (unsigned i = 1; i < g->v.size(); i++) v = concat(g->v[i], 1, v, i); setr(s, x, v); }
                else setr(s, x, frombytes(tobytes(a, x.ty), dt));
                break;
            }
            Agg *a = agg(V(s, x.o[0]));
            std::vector<Val> v; std::vector<unsigned> w;
            unsigned rw = tw(cast<FixedVectorType>(x.ll->getType())->getElementType());
            for (size_t i = 0; i < a->v.size(); i++) {
                if (isa<BinaryOperator>(x.ll)) v.push_back(binop(x.op, rw, rw, a->v[i], agg(V(s, x.o[1]))->v[i]));
                else if (isa<ICmpInst>(x.ll)) v.push_back(icmp(x.pred, a->w[i], a->v[i], agg(V(s, x.o[1]))->v[i]));
                else v.push_back(castop(opc, a->w[i], rw, a->v[i]));
                w.push_back(rw);
            }
            setr(s, x, mkagg(v, w));
            break; }
        case I_LOAD: { Val v = loadty(s, x.ll, x.o[0], x.ty); setr(s, x, v); break; }
        case I_STORE: storety(s, x.ll, x.o[1], x.ty, V(s, x.o[0])); break;
        case I_GEP: {
            Val a = V(s, x.o[0]);
            for (size_t i = 1; i < x.o.size(); i++) {
                unsigned iw = (unsigned)x.sc[(i - 1) * 2 + 1];
                Val iv = sext(V(s, x.o[i]), iw, 64);
                a = binop(ADD, 64, 64, a, binop(MUL, 64, 64, iv, Val(x.sc[(i - 1) * 2])));
            }
            setr(s, x, binop(ADD, 64, 64, a, Val(x.off)));
            break; }
        case I_ALLOCA: {
            u64 n = concretise(s, x.o[0], 64);
            u64 b = newobj(s, n * x.off, 1, true, x.ll->hasName() ? x.ll->getName().str() : "");
            s.st.back().allocas.push_back(b);
            setr(s, x, Val(b));
            break; }
        case I_BR: gotobb(s, x.t0); return true;
        case I_CBR: { bool t = branch(s, V(s, x.o[0])); gotobb(s, t ? x.t0 : x.t1); return true; }
        case I_SWITCH: {
            Val v = V(s, x.o[0]);
            if (!v.n) { for (auto &c : x.cases) if (c.first == v.c) { gotobb(s, c.second); return true; } gotobb(s, x.t0); return true; }
            for (auto &c : x.cases) if (branch(s, binop(EQ, x.ow, 1, v, Val(c.first)))) { gotobb(s, c.second); return true; }
            gotobb(s, x.t0);
            return true; }
        case I_RET: {
            Val v = x.o.empty() ? Val() : V(s, x.o[0]);
            for (u64 a : f->allocas) { ORef *o = findobj(s, a); if (o && (*o)->base == a) { Obj *w = wr(o); w->freed = true; w->b.clear(); w->b.shrink_to_fit(); w->sym.clear(); w->uninit.clear(); w->hasuninit = false; } }
            // trim dead stack objects at the tail
            while (!s.objs.empty() && s.objs.back()->kind == 1 && s.objs.back()->freed) s.objs.pop_back();
            int ret = f->ret;
            s.st.pop_back();
            if (s.st.empty()) { endpath(s); return false; }
            Frame &c = s.st.back();
            if (ret >= 0) c.r[ret] = v;
            c.ip++;
            return true; }
        case I_UNREACH: violation(s, x.ll, "memory", "unreachable code executed", s.model); throw KillPath{};
        case I_EXTV: { Val v = V(s, x.o[0]); for (u64 i : x.sc) v = agg(v)->v[i]; setr(s, x, v); break; }
        case I_INSV: {
            std::function<Val(Val, size_t)> ins = [&](Val a, size_t d) -> Val { if (d == x.sc.size()) return V(s, x.o[1]); Agg g = *agg(a); g.v[x.sc[d]] = ins(g.v[x.sc[d]], d + 1); return mkagg(g.v, g.w); };
            setr(s, x, ins(V(s, x.o[0]), 0));
            break; }
        case I_EXTE: { u64 i = concretise(s, x.o[1], 64); setr(s, x, agg(V(s, x.o[0]))->v.at(i)); break; }
        case I_INSE: { u64 i = concretise(s, x.o[2], 64); Agg g = *agg(V(s, x.o[0])); g.v.at(i) = V(s, x.o[1]); setr(s, x, mkagg(g.v, g.w)); break; }
        case I_SHUF: { Agg *a = agg(V(s, x.o[0])), *b = agg(V(s, x.o[1])); std::vector<Val> v; std::vector<unsigned> w; for (u64 m : x.sc) { size_t i = (int)m < 0 ? 0 : (size_t)m; v.push_back(i < a->v.size() ? a->v[i] : b->v[i - a->v.size()]); w.push_back(a->w[0]); } setr(s, x, mkagg(v, w)); break; }
        case I_FREEZE: setr(s, x, V(s, x.o[0])); break;
        case I_CMPX: { Val o = loadty(s, x.ll, x.o[0], x.ty); Val eq = binop(EQ, x.ow, 1, o, V(s, x.o[1])); bool t = branch(s, eq); if (t) storety(s, x.ll, x.o[0], x.ty, V(s, x.o[2])); setr(s, x, mkagg({o, Val((u64)t)}, {x.ow, 1})); break; }
        case I_RMW: {
            Val o = loadty(s, x.ll, x.o[0], x.ty), v = V(s, x.o[1]), r; unsigned w = tw(x.ty);
            switch (x.pred) { case AtomicRMWInst::Add: r = binop(ADD, w, w, o, v); break; case AtomicRMWInst::Sub: r = binop(SUB, w, w, o, v); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Or: r = binop(OR, w, w, o, v); break; case AtomicRMWInst::And: r = binop(AND, w, w, o, v); break; default: fatal("atomicrmw"); }
            storety(s, x.ll, x.o[0], x.ty, r); setr(s, x, o); break; }
        case I_CALL: return docall(s, x);
        case I_PHI: fatal("stray phi");
        default: fatal("instr");
    }
    s.st.back().ip++;
    return true;
}
static bool docall(State &s, Instr &x)
{
    Frame &f = s.st.back();
    auto done = [&](Val v) { setr(s, x, v); s.st.back().ip++; return true; };
    Fn *cal = x.callee;
    if (!cal && x.builtin != B_UNDEF) {
        Opnd &fo = x.o.back();
        u64 a = concretise(s, fo, 64);
        auto it = g_fnaddr.find(a);
        if (it == g_fnaddr.end()) { violation(s, x.ll, "memory", "call through invalid function pointer", s.model); throw KillPath{}; }
        cal = it->second;
    }
    int bi = x.builtin;
    size_t na = x.callee || bi == B_UNDEF ? x.o.size() : x.o.size() - 1;
    if (!x.callee && cal && cal->f->isDeclaration()) bi = builtin_of(cal->f->getName().str());
    if (cal && cal->f->isIntrinsic()) {
        auto id = cal->f->getIntrinsicID();
        unsigned w = x.w;
        switch (id) {
            case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n = concretise(s, x.o[2], tw(x.ll->getOperand(2)->getType())); u64 d = concretise(s, x.o[0], 64), r = concretise(s, x.o[1], 64); domemcpy(s, x.ll, d, r, n); return done(Val()); }
            case Intrinsic::memset: { bi = B_MEMSET; break; }
            case Intrinsic::bswap: { Val a = V(s, x.o[0]); Val r = extract(a, w, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = concat(r, i * 8, extract(a, w, i * 8, 8), 8); return done(r); }
            case Intrinsic::umin: { Val a = V(s, x.o[0]), b = V(s, x.o[1]); return done(ite(binop(ULT, w, 1, a, b), w, a, b)); }
            case Intrinsic::umax: { Val a = V(s, x.o[0]), b = V(s, x.o[1]); return done(ite(binop(ULT, w, 1, a, b), w, b, a)); }
            case Intrinsic::smin: { Val a = V(s, x.o[0]), b = V(s, x.o[1]); return done(ite(binop(SLT, w, 1, a, b), w, a, b)); }
            case Intrinsic::smax: { Val a = V(s, x.o[0]), b = V(s, x.o[1]); return done(ite(binop(SLT, w, 1, a, b), w, b, a)); }
            case Intrinsic::abs: { Val a = V(s, x.o[0]); return done(ite(binop(SLT, w, 1, a, Val((u64)0)), w, binop(SUB, w, w, Val((u64)0), a), a)); }
            case Intrinsic::cttz: { Val a = V(s, x.o[0]); Val r(w); for (int i = (int)w - 1; i >= 0; i--) r = ite(extract(a, w, i, 1), w, Val((u64)i), r); return done(r); }
            case Intrinsic::ctlz: { Val a = V(s, x.o[0]); Val r(w); for (int i = 0; i < (int)w; i++) r = ite(extract(a, w, i, 1), w, Val((u64)(w - 1 - i)), r); return done(r); }
            case Intrinsic::ctpop: { Val a = V(s, x.o[0]); Val r((u64)0); for (unsigned i = 0; i < w; i++) r = binop(ADD, w, w, r, zext(extract(a, w, i, 1), 1, w)); return done(r); }
            case Intrinsic::fshl: { Val a = V(s, x.o[0]), b = V(s, x.o[1]), c = V(s, x.o[2]); if (c.n) fatal("fshl"); unsigned k = c.c % w; if (!k) return done(a); return done(binop(OR, w, w, binop(SHL, w, w, a, Val((u64)k)), binop(LSHR, w, w, b, Val((u64)(w - k))))); }
            case Intrinsic::fabs: return done(binop(AND, w, w, V(s, x.o[0]), Val(msk(w - 1))));
            case Intrinsic::floor: if (V(s, x.o[0]).n) g_fp_used = true; return done(unop(FFLOOR, w, w, V(s, x.o[0])));
            case Intrinsic::ceil: if (V(s, x.o[0]).n) g_fp_used = true; return done(unop(FCEIL, w, w, V(s, x.o[0])));
            case Intrinsic::round: if (V(s, x.o[0]).n) g_fp_used = true; return done(unop(FROUND, w, w, V(s, x.o[0])));
            case Intrinsic::trunc: if (V(s, x.o[0]).n) g_fp_used = true; return done(unop(FTRUNC, w, w, V(s, x.o[0])));
            case Intrinsic::sqrt: if (V(s, x.o[0]).n) g_fp_used = true; return done(unop(FSQRT, w, w, V(s, x.o[0])));
            case Intrinsic::fmuladd: { Val a = V(s, x.o[0]), b = V(s, x.o[1]), c = V(s, x.o[2]); if (a.n || b.n || c.n) g_fp_used = true; return done(binop(FADD, w, w, binop(FMUL, w, w, a, b), c)); }
            case Intrinsic::expect: return done(V(s, x.o[0]));
            case Intrinsic::objectsize: return done(Val(~0ULL & msk(w)));
            case Intrinsic::stacksave: return done(Val((u64)0));
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: return done(Val());
            case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, x.ll, "memory", "trap", s.model); throw KillPath{};
            case Intrinsic::x86_sse2_pmovmskb_128: { Agg *g = agg(V(s, x.o[0])); Val r = extract(g->v[0], 8, 7, 1); for (unsigned i = 1; i < 16; i++) r = concat(extract(g->v[i], 8, 7, 1), 1, r, i); return done(zext(r, 16, 32)); }
            default: fatal("intrinsic " + cal->f->getName().str());
        }
    }
    if (cal && !cal->f->isDeclaration()) {
        std::vector<Val> a;
        for (size_t i = 0; i < na; i++) a.push_back(V(s, x.o[i]));
        pushframe(s, cal, a, x.dst);
        return true;
    }
    switch (bi) {
        case B_U64: { Node *v = newvar(64); s.model.resize(g_varw.size(), 0); s.inputs.push_back(Val(v)); return done(Val(v)); }
        case B_RANGE: {
            u64 lo = concretise(s, x.o[0], 64), hi = concretise(s, x.o[1], 64);
            if (lo > hi) throw KillPath{};
            Val v;
            if (lo == hi) v = Val(lo);
            else {
                unsigned w = 64 - (unsigned)__builtin_clzll(hi - lo);
                g_varub.resize(g_varw.size() + 1, ~0ULL);
                g_varub[g_varw.size()] = hi - lo;
                Node *n = newvar(w);
                s.model.resize(g_varw.size(), 0);
                if (hi - lo != msk(w)) addc(s, binop(ULE, w, 1, Val(n), Val(hi - lo)));
                v = binop(ADD, 64, 64, zext(Val(n), w, 64), Val(lo));
            }
            s.inputs.push_back(v);
            return done(v); }
        case B_FORK: { u64 v = concretise(s, x.o[0], 64); return done(Val(v)); }
        case B_ASSUME: {
            Val c = V(s, x.o[0]);
            c = notv(binop(EQ, 32, 1, c, Val((u64)0)));
            if (!c.n) { if (!c.c) { n_killed++; throw KillPath{}; } return done(Val()); }
            Asg m;
            if (!feas(s, c, m)) { n_killed++; throw KillPath{}; }
            s.model = std::move(m);
            addc(s, c);
            return done(Val()); }
        case B_CHECK: {
            Val c = V(s, x.o[0]);
            n_checks++;
            std::string msg = cstr(s, x.ll, V(s, x.o[1]).c);
            Val bad = binop(EQ, 32, 1, c, Val((u64)0));
            if (!bad.n) { if (bad.c) { violation(s, x.ll, "check", msg, s.model); throw KillPath{}; } return done(Val()); }
            n_checks_solved++;
            Asg m;
            if (feas(s, bad, m)) violation(s, x.ll, "check", msg, m);
            Val good = notv(bad);
            if (!feas(s, good, m)) throw KillPath{};
            s.model = std::move(m);
            addc(s, good);
            return done(Val()); }
        case B_REACH: s.reached = true; return done(Val());
        case B_MALLOC: { u64 n = concretise(s, x.o[0], 64); return done(Val(newobj(s, n, 2, true))); }
        case B_CALLOC: { u64 a = concretise(s, x.o[0], 64), b = concretise(s, x.o[1], 64); return done(Val(newobj(s, a * b, 2, false))); }
        case B_REALLOC: {
            u64 p = concretise(s, x.o[0], 64), n = concretise(s, x.o[1], 64);
            if (!p) return done(Val(newobj(s, n, 2, true)));
            ORef *o = findobj(s, p);
            if (!o || (*o)->base != p || (*o)->kind != 2 || (*o)->freed) { violation(s, x.ll, "memory", "realloc of an invalid pointer", s.model); throw KillPath{}; }
            u64 os = (*o)->size;
            u64 q = newobj(s, n, 2, true);
            if (!q) return done(Val(q));
            domemcpy(s, x.ll, q, p, std::min(os, n));
            Obj *w = wr(findobj(s, p));
            w->freed = true; w->sym.clear(); w->b.clear(); w->b.shrink_to_fit(); w->uninit.clear(); w->hasuninit = false;
            return done(Val(q)); }
        case B_FREE: {
            u64 p = concretise(s, x.o[0], 64);
            if (!p) return done(Val());
            ORef *o = findobj(s, p);
            if (!o || (*o)->base != p || (*o)->kind != 2) { violation(s, x.ll, "memory", "free of an invalid pointer", s.model); throw KillPath{}; }
            if ((*o)->freed) { violation(s, x.ll, "memory", "double free", s.model); throw KillPath{}; }
            Obj *w = wr(o);
            w->freed = true; w->sym.clear(); w->b.clear(); w->b.shrink_to_fit(); w->uninit.clear(); w->hasuninit = false;
            return done(Val()); }
        case B_USABLE: { u64 p = concretise(s, x.o[0], 64); ORef *o = findobj(s, p); return done(Val(o ? (*o)->size : 0)); }
        case B_MEMCPY: { u64 n = concretise(s, x.o[2], 64); u64 d = concretise(s, x.o[0], 64), r = concretise(s, x.o[1], 64); domemcpy(s, x.ll, d, r, n); return done(Val(d)); }
        case B_MEMSET: {
            unsigned nw = tw(x.ll->getOperand(2)->getType()), vw = tw(x.ll->getOperand(1)->getType());
            u64 n = concretise(s, x.o[2], nw), d = concretise(s, x.o[0], 64);
            Val b = extract(V(s, x.o[1]), vw, 0, 8);
            if (n) { ORef *o = valid(s, x.ll, d, n, true); for (u64 i = 0; i < n; i++) { wrv(s, o, d - (*o)->base + i, 1, b); } }
            return done(Val(d)); }
        case B_IGN0: return done(Val((u64)0));
        case B_ABORT: violation(s, x.ll, "abort", "abort() called", s.model); throw KillPath{};
        case B_ASSERTFAIL: violation(s, x.ll, "abort", "assertion failed in the code: " + cstr(s, x.ll, V(s, x.o[0]).c), s.model); throw KillPath{};
        case B_EXIT: violation(s, x.ll, "abort", "exit() called", s.model); throw KillPath{};
        case B_SNPRINTF: {
            bool sn = cal->f->getName() == "snprintf";
            std::string fmt = cstr(s, x.ll, V(s, x.o[sn ? 2 : 1]).c), out0;
            std::vector<Val> out;
            size_t ai = sn ? 3 : 2;
            for (size_t i = 0; i < fmt.size(); i++) {
                if (fmt[i] != '%') { out.push_back(Val((u64)(uint8_t)fmt[i])); continue; }
                if (fmt[i + 1] == '%') { out.push_back(Val((u64)'%')); i++; continue; }
                std::string sp = "%"; i++;
                int lng = 0;
                while (i < fmt.size() && !strchr("diuxXcspfgeE", fmt[i])) { if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j') lng++; else sp += fmt[i]; i++; }
                char c = fmt[i];
                if (c == 's') {
                    if (sp != "%") fatal("format " + fmt);
                    u64 p = concretise(s, x.o[ai++], 64);
                    for (u64 k = 0;; k++) { ORef *o = valid(s, x.ll, p + k, 1, false); Val b = getbyte(s, o, p + k - (*o)->base); if (b.n) { if (branch(s, binop(EQ, 8, 1, b, Val((u64)0)))) break; } else if (!b.c) break; out.push_back(b); }
                }
                else if (strchr("diuxXc", c)) {
                    unsigned w = lng ? 64 : 32;
                    u64 v = concretise(s, x.o[ai++], w);
                    char t[64];
                    if (c == 'd' || c == 'i') snprintf(t, sizeof t, (sp + "lld").c_str(), (long long)sx(v, w));
                    else if (c == 'c') snprintf(t, sizeof t, "%c", (int)v);
                    else snprintf(t, sizeof t, (sp + "ll" + c).c_str(), (unsigned long long)v);
                    for (char *q = t; *q; q++) out.push_back(Val((u64)(uint8_t)*q));
                }
                else fatal("format " + fmt);
            }
            u64 d = concretise(s, x.o[0], 64), lim = sn ? concretise(s, x.o[1], 64) : ~0ULL;
            u64 n = out.size();
            if (lim) { u64 k = std::min(n, lim - 1); ORef *o = valid(s, x.ll, d, k + 1, true); for (u64 i = 0; i < k; i++) wrv(s, o, d - (*o)->base + i, 1, out[i]); wrv(s, o, d - (*o)->base + k, 1, Val((u64)0)); }
            return done(Val(n)); }
        default: break;
    }
    {   // mathematical functions: exact where the solver has them, otherwise on concrete arguments only
        std::string n = cal->f->getName().str();
        unsigned w = x.w;
        static const std::map<std::string, Op> rnd = {{"floor", FFLOOR}, {"floorf", FFLOOR}, {"ceil", FCEIL}, {"ceilf", FCEIL}, {"round", FROUND}, {"roundf", FROUND}, {"trunc", FTRUNC}, {"truncf", FTRUNC}, {"sqrt", FSQRT}, {"sqrtf", FSQRT}};
        auto it = rnd.find(n);
        if (it != rnd.end()) { Val a = V(s, x.o[0]); if (a.n) g_fp_used = true; return done(unop(it->second, w, w, a)); }
        if (n == "fabs" || n == "fabsf") return done(binop(AND, w, w, V(s, x.o[0]), Val(msk(w - 1))));
        static const std::map<std::string, double (*)(double)> m1 = {{"log", log}, {"log2", log2}, {"log10", log10}, {"exp", exp}, {"sin", sin}, {"cos", cos}};
        auto i1 = m1.find(n);
        if (i1 != m1.end()) { Val a = V(s, x.o[0]); if (a.n) fatal(n + " of a symbolic value"); return done(Val(frd(i1->second(asd(a.c))))); }
        if (n == "pow" || n == "fmod") { Val a = V(s, x.o[0]), b = V(s, x.o[1]); if (a.n || b.n) fatal(n + " of a symbolic value"); return done(Val(frd(n == "pow" ? pow(asd(a.c), asd(b.c)) : fmod(asd(a.c), asd(b.c))))); }
    }
    (void)f;
    if (bi == B_UNDEF) fatal("inline assembly in " + s.st.back().f->f->getName().str());
    fatal("call to unmodelled function " + cal->f->getName().str() + " from " + locof(x.ll));
}
static bool g_timeout = false;
// Work is shared by forking: when fewer than the wanted number of processes are active, half of the pending states move to a child.
struct Shared { int active, next; };
static Shared *g_sh; static int g_workers = 1, g_me = 0; static std::vector<pid_t> g_children; static double g_lastsplit;
static bool split() // true in the child
{
    if (g_workers < 2 || g_work.empty() || g_sh->active >= g_workers || now() - g_lastsplit < 0.05) return false;
    if (__sync_fetch_and_add(&g_sh->active, 1) >= g_workers) { __sync_fetch_and_sub(&g_sh->active, 1); return false; }
    g_lastsplit = now();
    int id = __sync_fetch_and_add(&g_sh->next, 1);
    fflush(stdout); fflush(stderr);
    std::vector<State *> mine, other;
    for (size_t i = 0; i < g_work.size(); i++) (i % 2 ? mine : other).push_back(g_work[i]);
    pid_t c = fork();
    if (c < 0) fatal("fork");
    if (c == 0) {
        g_me = id; g_children.clear();
        n_paths = n_reached = n_killed = n_forks = n_instr = n_queries = n_sat = n_unsat = n_cachehits = n_checks = n_checks_solved = 0; t_solver = 0; g_viol.clear(); g_samples.clear();
        g_maxsamples = 3;
        g_work.swap(other);
        return true;
    }
    g_children.push_back(c);
    g_work.swap(mine);
    return false;
}
static void runstate(State *s)
{
    try {
        u64 n = 0;
        while (step(*s)) if ((++n & 255) == 0) { if (now() > g_deadline) { g_timeout = true; break; } if (split()) break; }
    }
    catch (KillPath &) { n_paths++; }
    delete s;
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void report(const char *path, const std::string &err, bool complete, u64 extra_states)
{
    FILE *o = fopen(path, "w");
    fprintf(o, "{\"complete\": %s, \"error\": \"%s\", \"paths\": %llu, \"reached\": %llu, \"assumed_away\": %llu, \"forks\": %llu, \"instructions\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"cache_hits\": %llu, \"solver_s\": %.3f, \"checks\": %llu, \"checks_by_solver\": %llu, \"pending\": %llu,\n",
            complete ? "true" : "false", esc(err).c_str(), (unsigned long long)n_paths, (unsigned long long)n_reached, (unsigned long long)n_killed, (unsigned long long)n_forks, (unsigned long long)n_instr, (unsigned long long)n_queries, (unsigned long long)n_sat, (unsigned long long)n_unsat, (unsigned long long)n_cachehits, t_solver, (unsigned long long)n_checks, (unsigned long long)n_checks_solved, (unsigned long long)extra_states);
    fprintf(o, "\"violations\": [");
    for (size_t i = 0; i < g_viol.size(); i++) {
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"inputs\":[", i ? ",\n" : "", g_viol[i].kind.c_str(), esc(g_viol[i].msg).c_str(), esc(g_viol[i].loc).c_str());
        for (size_t k = 0; k < g_viol[i].inputs.size(); k++) fprintf(o, "%s\"%llx\"", k ? "," : "", (unsigned long long)g_viol[i].inputs[k]);
        fprintf(o, "]}");
    }
    fprintf(o, "],\n\"samples\": [");
    for (size_t i = 0; i < g_samples.size(); i++) {
        fprintf(o, "%s[", i ? ",\n" : "");
        for (size_t k = 0; k < g_samples[i].size(); k++) fprintf(o, "%s\"%llx\"", k ? "," : "", (unsigned long long)g_samples[i][k]);
        fprintf(o, "]");
    }
    fprintf(o, "],\n\"functions\": [");
    bool first = true;
    for (auto &n : g_funcs) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(n).c_str()); first = false; }
    fprintf(o, "]}\n");
    fclose(o);
}
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); _exit(5); }
int main(int argc, char **argv)
{
    std::string bc, entry = "harness", out = "out.json"; double tlim = 300; int workers = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") tlim = atof(argv[++i]); else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--smt-timeout") g_smt_timeout = atoi(argv[++i]); else bc = a;
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1UL << 29) : rl.rlim_max; 
    vs_empty = vs_intern({});
    g_deadline = now() + tlim;
    g_workers = workers;
    g_sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh->active = 1; g_sh->next = 1;
    g_where = [] { return locof(g_cur); };
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, z3err);
    S = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, S);
    SF = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP")); Z3_solver_inc_ref(Z, SF);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_smt_timeout); Z3_solver_set_params(Z, S, p); Z3_solver_set_params(Z, SF, p);
    LLVMContext ctx; SMDiagnostic diag;
    auto m = parseIRFile(bc, diag, ctx);
    if (!m) { diag.print("vtsym", errs()); return 2; }
    M = m.get(); DL = &M->getDataLayout();
    std::string err;
    try {
        State *s = new State(); s->next = 0x100000;
        for (auto &g : M->globals()) { // addresses first
            u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
            g_gaddr[&g] = newobj(*s, sz, 0, false, g.getName().str());
        }
        for (auto &g : M->globals()) { ORef *o = findobj(*s, g_gaddr[&g]); if (g.hasInitializer()) initmem((*o)->b, 0, g.getInitializer()); if (g.isConstant()) (*o)->ro = true; }
        Function *h = M->getFunction(entry);
        if (!h) fatal("no entry function");
        pushframe(*s, getfn(h), {}, -1);
        g_work.push_back(s);
        while (!g_work.empty() && !g_timeout) {
            if (now() > g_deadline) { g_timeout = true; break; }
            State *q = g_work.back(); g_work.pop_back();
            runstate(q);
            split();
        }
    }
    catch (Fatal &f) { err = f.msg; }
    if (err.empty()) err = g_huge;
    __sync_fetch_and_sub(&g_sh->active, 1);
    bool lost = false;
    for (pid_t c : g_children) { int st = 0; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) lost = true; }
    if (lost && err.empty()) err = "a worker process died";
    report((out + "." + std::to_string(g_me)).c_str(), err, !g_timeout && err.empty(), g_work.size());
    _exit(0);
}
