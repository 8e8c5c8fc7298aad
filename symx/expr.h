// Hash-consed bit-vector expressions (width 1..64), an evaluator and the
// lowering to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
    O_Const, O_Var, O_Add, O_Sub, O_Mul, O_UDiv, O_SDiv, O_URem, O_SRem,
    O_And, O_Or, O_Xor, O_Shl, O_LShr, O_AShr, O_Eq, O_Ult, O_Ule, O_Slt,
    O_Sle, O_Ite, O_ZExt, O_SExt, O_Extract, O_Concat };

struct Expr {
    Op op; uint8_t w; uint8_t off;      // off: Extract
    uint32_t id;
    uint64_t c;                         // Const value, Var index
    const Expr* k[3];
    mutable uint64_t evalStamp = 0, evalVal = 0;
    mutable Z3_ast z = nullptr;         // bit-vector
    mutable Z3_ast zb = nullptr;        // boolean (w==1)
    mutable const std::vector<uint32_t>* vars = nullptr;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprKey { Op op; uint8_t w, off; uint64_t c; E a, b, d; };
struct ExprHash { size_t operator()(const ExprKey& k) const {
    size_t h = k.op * 1000003u + k.w * 131u + k.off;
    auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
    mix(k.c); mix((size_t)k.a); mix((size_t)k.b); mix((size_t)k.d); return h; } };
struct ExprEq { bool operator()(const ExprKey& x, const ExprKey& y) const {
    return x.op == y.op && x.w == y.w && x.off == y.off && x.c == y.c && x.a == y.a && x.b == y.b && x.d == y.d; } };

static std::unordered_map<ExprKey, E, ExprHash, ExprEq> g_exprs;
static uint32_t g_nexpr = 0;
static uint32_t g_nvars = 0;
static std::vector<E> g_vars;

static inline E mkraw(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr, unsigned off = 0) {
    ExprKey k{op, (uint8_t)w, (uint8_t)off, c, a, b, d};
    auto it = g_exprs.find(k);
    if (it != g_exprs.end()) return it->second;
    Expr* e = new Expr();
    e->op = op; e->w = (uint8_t)w; e->off = (uint8_t)off; e->c = c;
    e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = g_nexpr++;
    g_exprs.emplace(k, e);
    return e;
}
static inline E mkc(uint64_t v, unsigned w) { return mkraw(O_Const, w, v & maskw(w)); }
static inline E mkvar(unsigned w) {
    E e = mkraw(O_Var, w, g_nvars++);
    g_vars.push_back(e);
    return e;
}
static inline bool isc(E e) { return e->op == O_Const; }

static inline uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b, bool& ok) {
    ok = true;
    uint64_t m = maskw(w);
    switch (op) {
    case O_Add: return (a + b) & m;
    case O_Sub: return (a - b) & m;
    case O_Mul: return (a * b) & m;
    case O_UDiv: return b ? (a / b) & m : m;
    case O_URem: return b ? (a % b) & m : a;
    case O_SDiv: { int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return x >= 0 ? m : 1;
        if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m; }
    case O_SRem: { int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m; }
    case O_And: return a & b;
    case O_Or: return a | b;
    case O_Xor: return a ^ b;
    case O_Shl: return b >= w ? 0 : (a << b) & m;
    case O_LShr: return b >= w ? 0 : (a >> b);
    case O_AShr: { int64_t x = sextw(a, w); return b >= w ? (x < 0 ? m : 0) : (uint64_t)(x >> b) & m; }
    case O_Eq: return a == b;
    case O_Ult: return a < b;
    case O_Ule: return a <= b;
    case O_Slt: return sextw(a, w) < sextw(b, w);
    case O_Sle: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0;
    }
}

static E mkextract(E a, unsigned off, unsigned w);
static E mkconcat(E hi, E lo);
static E mkite(E c, E a, E b);
static E mkbin(Op op, E a, E b);

static E mknot(E a) { // w==1
    if (isc(a)) return mkc(a->c ^ 1, 1);
    if (a->op == O_Xor && isc(a->k[1]) && a->k[1]->c == 1) return a->k[0];
    return mkraw(O_Xor, 1, 0, a, mkc(1, 1));
}

static E mkzext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isc(a)) return mkc(a->c, w);
    if (a->op == O_ZExt) return mkzext(a->k[0], w);
    return mkraw(O_ZExt, w, 0, a);
}
static E mksext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isc(a)) return mkc((uint64_t)sextw(a->c, a->w), w);
    if (a->op == O_ZExt) return mkzext(a->k[0], w);
    return mkraw(O_SExt, w, 0, a);
}
static E mkextract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isc(a)) return mkc(a->c >> off, w);
    if (a->op == O_Extract) return mkextract(a->k[0], a->off + off, w);
    if (a->op == O_ZExt) {
        unsigned iw = a->k[0]->w;
        if (off >= iw) return mkc(0, w);
        if (off + w <= iw) return mkextract(a->k[0], off, w);
        return mkzext(mkextract(a->k[0], off, iw - off), w);
    }
    if (a->op == O_SExt && off + w <= a->k[0]->w) return mkextract(a->k[0], off, w);
    if (a->op == O_Concat) {
        unsigned lw = a->k[1]->w;
        if (off + w <= lw) return mkextract(a->k[1], off, w);
        if (off >= lw) return mkextract(a->k[0], off - lw, w);
        return mkconcat(mkextract(a->k[0], 0, off + w - lw), mkextract(a->k[1], off, lw - off));
    }
    if (off == 0 && (a->op == O_Add || a->op == O_Sub || a->op == O_Mul))
        return mkbin(a->op, mkextract(a->k[0], 0, w), mkextract(a->k[1], 0, w));
    if (a->op == O_And || a->op == O_Or || a->op == O_Xor)
        return mkbin(a->op, mkextract(a->k[0], off, w), mkextract(a->k[1], off, w));
    if (a->op == O_Ite && (isc(a->k[1]) || isc(a->k[2])))
        return mkite(a->k[0], mkextract(a->k[1], off, w), mkextract(a->k[2], off, w));
    if (a->op == O_Shl && isc(a->k[1])) {
        unsigned s = (unsigned)a->k[1]->c;
        if (off >= s && off - s + w <= a->w) return mkextract(a->k[0], off - s, w);
        if (off + w <= s) return mkc(0, w);
    }
    if (a->op == O_LShr && isc(a->k[1])) {
        uint64_t s = a->k[1]->c;
        if (s < a->w && off + s + w <= a->w) return mkextract(a->k[0], off + (unsigned)s, w);
        if (s >= a->w || off + s >= a->w) return mkc(0, w);
    }
    return mkraw(O_Extract, w, 0, a, nullptr, nullptr, off);
}
static E mkconcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
    if (isc(hi) && hi->c == 0) return mkzext(lo, w);
    if (hi->op == O_Extract && lo->op == O_Extract && hi->k[0] == lo->k[0] && hi->off == lo->off + lo->w)
        return mkextract(hi->k[0], lo->off, w);
    if (lo->op == O_ZExt && hi->op == O_Extract) {}
    return mkraw(O_Concat, w, 0, hi, lo);
}
static E mkite(E c, E a, E b) {
    if (isc(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isc(a) && isc(b)) return a->c ? c : mknot(c);
        if (isc(a)) return a->c ? mkbin(O_Or, c, b) : mkbin(O_And, mknot(c), b);
        if (isc(b)) return b->c ? mkbin(O_Or, mknot(c), a) : mkbin(O_And, c, a);
    }
    return mkraw(O_Ite, a->w, 0, c, a, b);
}
static E mkbin(Op op, E a, E b) {
    unsigned w = a->w;
    bool cmp = op >= O_Eq && op <= O_Sle;
    if (isc(a) && isc(b)) { bool ok; uint64_t v = fold(op, w, a->c, b->c, ok); return mkc(v, cmp ? 1 : w); }
    // commutative: constant to the right, then by id
    if (op == O_Add || op == O_Mul || op == O_And || op == O_Or || op == O_Xor || op == O_Eq) {
        if (isc(a)) std::swap(a, b);
        else if (!isc(b) && a->id > b->id) std::swap(a, b);
    }
    uint64_t m = maskw(w);
    switch (op) {
    case O_Add:
        if (isc(b)) {
            if (b->c == 0) return a;
            if (a->op == O_Add && isc(a->k[1])) return mkbin(O_Add, a->k[0], mkc(a->k[1]->c + b->c, w));
        }
        break;
    case O_Sub:
        if (a == b) return mkc(0, w);
        if (isc(b)) return mkbin(O_Add, a, mkc(0 - b->c, w));
        if (a->op == O_Add && a->k[0] == b) return a->k[1];
        if (a->op == O_Add && a->k[1] == b) return a->k[0];
        if (a->op == O_Add && isc(a->k[1]) && b->op == O_Add && isc(b->k[1]) && a->k[0] == b->k[0])
            return mkc(a->k[1]->c - b->k[1]->c, w);
        break;
    case O_Mul:
        if (isc(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
        break;
    case O_UDiv: if (isc(b) && b->c == 1) return a; break;
    case O_And:
        if (a == b) return a;
        if (isc(b)) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            // low mask
            if ((b->c & (b->c + 1)) == 0) { unsigned n = __builtin_popcountll(b->c); return mkzext(mkextract(a, 0, n), w); }
            if (a->op == O_And && isc(a->k[1])) return mkbin(O_And, a->k[0], mkc(a->k[1]->c & b->c, w));
        }
        if (w == 1 && (a == mknot(b))) return mkc(0, 1);
        break;
    case O_Or:
        if (a == b) return a;
        if (isc(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w == 1 && (a == mknot(b))) return mkc(1, 1);
        break;
    case O_Xor:
        if (a == b) return mkc(0, w);
        if (isc(b)) {
            if (b->c == 0) return a;
            if (w == 1) return mknot(a);
        }
        break;
    case O_Shl:
        if (isc(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkc(0, w);
            // concat(extract, 0)
            return mkconcat(mkextract(a, 0, w - (unsigned)b->c), mkc(0, (unsigned)b->c));
        }
        break;
    case O_LShr:
        if (isc(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkc(0, w);
            return mkzext(mkextract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        break;
    case O_AShr:
        if (isc(b)) { if (b->c == 0) return a; if (b->c < w) return mksext(mkextract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
        break;
    case O_Eq:
        if (a == b) return mkc(1, 1);
        if (isc(b)) {
            if (w == 1) return b->c ? a : mknot(a);
            if (a->op == O_ZExt) {
                if (b->c & ~maskw(a->k[0]->w)) return mkc(0, 1);
                return mkbin(O_Eq, a->k[0], mkc(b->c, a->k[0]->w));
            }
            if (a->op == O_SExt) {
                uint64_t lo = b->c & maskw(a->k[0]->w);
                if (((uint64_t)sextw(lo, a->k[0]->w) & m) != b->c) return mkc(0, 1);
                return mkbin(O_Eq, a->k[0], mkc(lo, a->k[0]->w));
            }
            if (a->op == O_Ite && isc(a->k[1]) && isc(a->k[2])) {
                bool x = a->k[1]->c == b->c, y = a->k[2]->c == b->c;
                if (x && y) return mkc(1, 1);
                if (x) return a->k[0];
                if (y) return mknot(a->k[0]);
                return mkc(0, 1);
            }
            if (a->op == O_Ite && (isc(a->k[1]) || isc(a->k[2])))
                return mkite(a->k[0], mkbin(O_Eq, a->k[1], b), mkbin(O_Eq, a->k[2], b));
            if (a->op == O_Add && isc(a->k[1])) return mkbin(O_Eq, a->k[0], mkc(b->c - a->k[1]->c, w));
            if (a->op == O_Xor && isc(a->k[1])) return mkbin(O_Eq, a->k[0], mkc(b->c ^ a->k[1]->c, w));
            if (a->op == O_Mul && isc(a->k[1]) && a->k[1]->c && a->k[0]->op == O_ZExt) {
                unsigned iw = a->k[0]->k[0]->w;
                if (iw < 64 && maskw(iw) <= m / a->k[1]->c) {      // no wrap-around
                    if (b->c % a->k[1]->c) return mkc(0, 1);
                    return mkbin(O_Eq, a->k[0], mkc(b->c / a->k[1]->c, w));
                }
            }
            if (a->op == O_Concat) {
                unsigned lw = a->k[1]->w;
                return mkbin(O_And, mkbin(O_Eq, a->k[0], mkc(b->c >> lw, a->k[0]->w)),
                    mkbin(O_Eq, a->k[1], mkc(b->c, lw)));
            }
        }
        break;
    case O_Ult:
        if (a == b) return mkc(0, 1);
        if (isc(b) && b->c == 0) return mkc(0, 1);
        if (isc(b) && b->c == 1) return mkbin(O_Eq, a, mkc(0, w));
        if (isc(a) && a->c == m) return mkc(0, 1);
        if (a->op == O_ZExt && b->op == O_ZExt && a->k[0]->w == b->k[0]->w) return mkbin(O_Ult, a->k[0], b->k[0]);
        if (a->op == O_ZExt && isc(b)) {
            unsigned iw = a->k[0]->w;
            if (b->c > maskw(iw)) return mkc(1, 1);
            return mkbin(O_Ult, a->k[0], mkc(b->c, iw));
        }
        if (b->op == O_ZExt && isc(a)) {
            unsigned iw = b->k[0]->w;
            if (a->c >= maskw(iw)) return mkc(0, 1);
            return mkbin(O_Ult, mkc(a->c, iw), b->k[0]);
        }
        break;
    case O_Ule:
        return mknot(mkbin(O_Ult, b, a));
    case O_Slt:
        if (a == b) return mkc(0, 1);
        if (a->op == O_ZExt && b->op == O_ZExt) return mkbin(O_Ult, a, b);
        if (a->op == O_ZExt && isc(b)) { if (sextw(b->c, w) <= 0) return mkc(0, 1); return mkbin(O_Ult, a, b); }
        if (b->op == O_ZExt && isc(a)) { if (sextw(a->c, w) < 0) return mkc(1, 1); return mkbin(O_Ult, a, b); }
        break;
    case O_Sle:
        return mknot(mkbin(O_Slt, b, a));
    default: break;
    }
    return mkraw(op, cmp ? 1 : w, 0, a, b);
}

// ---------------------------------------------------------------- evaluate
static uint64_t g_stamp = 1;
static uint64_t evalrec(E e, const std::vector<uint64_t>& model) {
    if (e->op == O_Const) return e->c;
    if (e->op == O_Var) return e->c < model.size() ? model[e->c] & maskw(e->w) : 0;
    if (e->evalStamp == g_stamp) return e->evalVal;
    uint64_t r;
    switch (e->op) {
    case O_Ite: r = evalrec(e->k[0], model) ? evalrec(e->k[1], model) : evalrec(e->k[2], model); break;
    case O_ZExt: r = evalrec(e->k[0], model); break;
    case O_SExt: r = (uint64_t)sextw(evalrec(e->k[0], model), e->k[0]->w) & maskw(e->w); break;
    case O_Extract: r = (evalrec(e->k[0], model) >> e->off) & maskw(e->w); break;
    case O_Concat: r = (evalrec(e->k[0], model) << e->k[1]->w) | evalrec(e->k[1], model); break;
    default: { bool ok; r = fold(e->op, e->k[0]->w, evalrec(e->k[0], model), evalrec(e->k[1], model), ok); break; }
    }
    e->evalStamp = g_stamp; e->evalVal = r;
    return r;
}
static uint64_t evalE(E e, const std::vector<uint64_t>& model) { ++g_stamp; return evalrec(e, model); }

static const std::vector<uint32_t>& varsOf(E e) {
    static const std::vector<uint32_t> none;
    if (e->vars) return *e->vars;
    if (e->op == O_Const) { e->vars = &none; return none; }
    auto* v = new std::vector<uint32_t>();
    if (e->op == O_Var) v->push_back((uint32_t)e->c);
    for (int i = 0; i < 3; ++i) if (e->k[i]) {
        auto& s = varsOf(e->k[i]);
        if (s.empty()) continue;
        std::vector<uint32_t> t; t.reserve(v->size() + s.size());
        std::set_union(v->begin(), v->end(), s.begin(), s.end(), std::back_inserter(t));
        v->swap(t);
    }
    e->vars = v;
    return *v;
}

// ---------------------------------------------------------------- Z3
static Z3_context zc;
static Z3_ast toBV(E e);
static Z3_ast toBool(E e) {
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->op) {
    case O_Const: r = e->c ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
    case O_Var: { std::string n = "v" + std::to_string(e->c);
        r = Z3_mk_eq(zc, toBV(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); break; }
    case O_Eq: r = e->k[0]->w == 1 ? Z3_mk_iff(zc, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(zc, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_Ult: r = Z3_mk_bvult(zc, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_Ule: r = Z3_mk_bvule(zc, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_Slt: r = Z3_mk_bvslt(zc, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_Sle: r = Z3_mk_bvsle(zc, toBV(e->k[0]), toBV(e->k[1])); break;
    case O_And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(zc, 2, a); break; }
    case O_Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(zc, 2, a); break; }
    case O_Xor: r = isc(e->k[1]) && e->k[1]->c == 1 ? Z3_mk_not(zc, toBool(e->k[0])) : Z3_mk_xor(zc, toBool(e->k[0]), toBool(e->k[1])); break;
    case O_Ite: r = Z3_mk_ite(zc, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(zc, toBV(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
    }
    return e->zb = r;
}
static Z3_ast toBV(E e) {
    if (e->z) return e->z;
    Z3_ast r;
    auto A = [&](int i) { return toBV(e->k[i]); };
    if (e->w == 1 && (e->op >= O_Eq && e->op <= O_Sle)) {
        Z3_sort s = Z3_mk_bv_sort(zc, 1);
        r = Z3_mk_ite(zc, toBool(e), Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
        return e->z = r;
    }
    switch (e->op) {
    case O_Const: r = Z3_mk_unsigned_int64(zc, e->c, Z3_mk_bv_sort(zc, e->w)); break;
    case O_Var: { std::string n = "v" + std::to_string(e->c);
        r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), Z3_mk_bv_sort(zc, e->w)); break; }
    case O_Add: r = Z3_mk_bvadd(zc, A(0), A(1)); break;
    case O_Sub: r = Z3_mk_bvsub(zc, A(0), A(1)); break;
    case O_Mul: r = Z3_mk_bvmul(zc, A(0), A(1)); break;
    case O_UDiv: r = Z3_mk_bvudiv(zc, A(0), A(1)); break;
    case O_SDiv: r = Z3_mk_bvsdiv(zc, A(0), A(1)); break;
    case O_URem: r = Z3_mk_bvurem(zc, A(0), A(1)); break;
    case O_SRem: r = Z3_mk_bvsrem(zc, A(0), A(1)); break;
    case O_And: r = Z3_mk_bvand(zc, A(0), A(1)); break;
    case O_Or: r = Z3_mk_bvor(zc, A(0), A(1)); break;
    case O_Xor: r = Z3_mk_bvxor(zc, A(0), A(1)); break;
    case O_Shl: r = Z3_mk_bvshl(zc, A(0), A(1)); break;
    case O_LShr: r = Z3_mk_bvlshr(zc, A(0), A(1)); break;
    case O_AShr: r = Z3_mk_bvashr(zc, A(0), A(1)); break;
    case O_Ite: r = Z3_mk_ite(zc, toBool(e->k[0]), A(1), A(2)); break;
    case O_ZExt: r = Z3_mk_zero_ext(zc, e->w - e->k[0]->w, A(0)); break;
    case O_SExt: r = Z3_mk_sign_ext(zc, e->w - e->k[0]->w, A(0)); break;
    case O_Extract: r = Z3_mk_extract(zc, e->off + e->w - 1, e->off, A(0)); break;
    case O_Concat: r = Z3_mk_concat(zc, A(0), A(1)); break;
    default: fprintf(stderr, "toBV: op %d\n", e->op); abort();
    }
    return e->z = r;
}
