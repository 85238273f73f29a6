#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>

namespace ex {
static std::vector<char *> arenas;
static size_t arenaUsed = 0, arenaCap = 0;
static void *alloc(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (arenaUsed + n > arenaCap) {
        arenaCap = std::max<size_t>(1 << 22, n);
        char *p = (char *)aligned_alloc(16, arenaCap);
        if (!p) { fprintf(stderr, "out of memory\n"); abort(); }
        arenas.push_back(p);
        arenaUsed = 0;
    }
    void *r = arenas.back() + arenaUsed;
    arenaUsed += n;
    return r;
}
bool fpExactInt = true;

static std::vector<Expr *> table(1 << 20);
static u64 nexpr = 0;
u64 count() { return nexpr; }

static inline u64 mix(u64 h, u64 x)
{
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static unsigned bitlen(u128 v)
{
    u64 hi = (u64)(v >> 64), lo = (u64)v;
    if (hi) return 128 - __builtin_clzll(hi);
    if (lo) return 64 - __builtin_clzll(lo);
    return 0;
}
static u8 computeAct(K k, unsigned w, u128 val, E const *ops, u32 n)
{
    unsigned r = w;
    switch (k) {
        case KConst: r = bitlen(val); break;
        case KZExt: r = ops[0]->act; break;
        case KConcat: r = ops[0]->act ? ops[0]->act + ops[1]->w : ops[1]->act; break;
        case KAnd: r = std::min(ops[0]->act, ops[1]->act); break;
        case KOr:
        case KXor: r = std::max(ops[0]->act, ops[1]->act); break;
        case KAdd: r = std::min<unsigned>(w, std::max(ops[0]->act, ops[1]->act) + 1); break;
        case KMul: r = std::min<unsigned>(w, ops[0]->act + ops[1]->act); break;
        case KUDiv: r = ops[1]->isc() && ops[1]->val ? ops[0]->act : w; break;
        case KURem: r = ops[1]->isc() && ops[1]->val ? std::min<unsigned>(ops[0]->act, bitlen(ops[1]->val - 1)) : ops[0]->act; break;
        case KIte: r = std::max(ops[1]->act, ops[2]->act); break;
        case KExtract: r = std::min<int>(w, std::max<int>(0, (int)ops[0]->act - (int)val)); break;
        case KLShr: r = ops[0]->act; break;
        default: break;
    }
    return (u8)std::min(r, w > 255 ? 255u : w);
}
static E mk(K k, unsigned w, u128 val, E const *ops, u32 n)
{
    u64 h = mix(k * 1315423911u + w, (u64)val);
    h = mix(h, (u64)(val >> 64));
    for (u32 i = 0; i < n; i++) h = mix(h, ops[i]->id);
    size_t m = table.size() - 1;
    size_t p = h & m;
    while (Expr *e = table[p]) {
        if (e->hash == h && e->k == k && e->w == w && e->val == val && e->nops == n) {
            bool same = true;
            for (u32 i = 0; i < n; i++)
                if (e->ops[i] != ops[i]) { same = false; break; }
            if (same) return e;
        }
        p = (p + 1) & m;
    }
    Expr *e = (Expr *)alloc(sizeof(Expr));
    E *o = nullptr;
    if (n) {
        o = (E *)alloc(sizeof(E) * n);
        for (u32 i = 0; i < n; i++) o[i] = ops[i];
    }
    e->k = k; e->w = w; e->val = val; e->nops = n; e->ops = o; e->hash = h;
    e->id = (u32)nexpr++;
    e->stamp = 0;
    e->cval = 0;
    e->act = computeAct(k, w, val, ops, n);
    table[p] = e;
    if (nexpr * 2 > table.size()) {
        std::vector<Expr *> old;
        old.swap(table);
        table.assign(old.size() * 2, nullptr);
        m = table.size() - 1;
        for (Expr *x : old)
            if (x) {
                size_t q = x->hash & m;
                while (table[q]) q = (q + 1) & m;
                table[q] = x;
            }
    }
    return e;
}
static E mk1(K k, unsigned w, E a, u128 val = 0) { return mk(k, w, val, &a, 1); }
static E mk2(K k, unsigned w, E a, E b) { E o[2] = {a, b}; return mk(k, w, 0, o, 2); }
static E mk3(K k, unsigned w, E a, E b, E c) { E o[3] = {a, b, c}; return mk(k, w, 0, o, 3); }

E C(u128 v, unsigned w) { return mk(KConst, w, v & maskw(w), nullptr, 0); }
static std::unordered_map<std::string, u32> varIdx;
static std::vector<std::string> varNames;
E Var(const std::string &name)
{
    auto it = varIdx.find(name);
    u32 i;
    if (it == varIdx.end()) {
        i = varNames.size();
        varNames.push_back(name);
        varIdx[name] = i;
    } else
        i = it->second;
    return mk(KVar, 8, i, nullptr, 0);
}
const std::string &varName(u32 i) { return varNames[i]; }
u32 nVars() { return varNames.size(); }
E Tuple(const std::vector<E> &v) { return mk(KTuple, 0, 0, v.data(), v.size()); }

// ---- concrete semantics -------------------------------------------------
static float f32(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double f64(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static u128 b32(float f) { u32 x; memcpy(&x, &f, 4); if (f != f) x = 0x7fc00000u; return x; }
static u128 b64(double f) { u64 x; memcpy(&x, &f, 8); if (f != f) x = 0x7ff8000000000000ull; return x; }
template<class T> static T fop1(K k, T a)
{
    switch (k) {
        case KFSqrt: return std::sqrt(a);
        case KFloor: return std::floor(a);
        case KCeil: return std::ceil(a);
        case KTrunc: return std::trunc(a);
        case KRint: return std::nearbyint(a);
        case KRound: return std::round(a);
        default: abort();
    }
}
template<class T> static T fop2(K k, T a, T b)
{
    switch (k) {
        case KFAdd: return a + b;
        case KFSub: return a - b;
        case KFMul: return a * b;
        case KFDiv: return a / b;
        case KFRem: return std::fmod(a, b);
        case KFMin: return std::fmin(a, b);
        case KFMax: return std::fmax(a, b);
        default: abort();
    }
}
template<class T> static bool fcmp(K k, T a, T b)
{
    switch (k) {
        case KFOeq: return a == b;
        case KFOlt: return a < b;
        case KFOle: return a <= b;
        case KFUno: return a != a || b != b;
        default: abort();
    }
}
static u128 fptosi(double d, unsigned w)
{
    double lim = std::ldexp(1.0, w - 1);
    if (!(d > -lim - 1.0 && d < lim)) {
        // x86 cvttsd2si semantics: 32/64-bit indefinite; narrower conversions go through 32 bit
        if (w < 32) { if (d > -2147483649.0 && d < 2147483648.0) return (u128)(i128)(int64_t)d & maskw(w); return 0; }
        return (u128)1 << (w - 1);
    }
    return (u128)(i128)(int64_t)d & maskw(w);
}
static u128 fptoui(double d, unsigned w)
{
    if (!(d > -1.0 && d < std::ldexp(1.0, w))) {
        if (w <= 32) {
            if (d > -9223372036854775809.0 && d < 9223372036854775808.0) return (u128)(i128)(int64_t)d & maskw(w);
            return 0;
        }
        return (u128)1 << (w - 1);
    }
    return (u128)(u64)d & maskw(w);
}
static u128 concrete(K k, unsigned w, unsigned ow, u128 a, u128 b)
{
    u128 m = maskw(w);
    switch (k) {
        case KAdd: return (a + b) & m;
        case KSub: return (a - b) & m;
        case KMul: return (a * b) & m;
        case KUDiv: return b ? a / b : m;
        case KURem: return b ? a % b : a;
        case KSDiv: {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (!y) return x >= 0 ? m : 1;
            if (y == -1) return (u128)(-(u128)x) & m;
            return (u128)(x / y) & m;
        }
        case KSRem: {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (!y) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & m;
        }
        case KAnd: return a & b;
        case KOr: return a | b;
        case KXor: return a ^ b;
        case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case KLShr: return b >= w ? 0 : a >> (unsigned)b;
        case KAShr: return (u128)(sext128(a, w) >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m;
        case KEq: return a == b;
        case KUlt: return a < b;
        case KUle: return a <= b;
        case KSlt: return sext128(a, ow) < sext128(b, ow);
        case KSle: return sext128(a, ow) <= sext128(b, ow);
        default: break;
    }
    switch (k) {
        case KFAdd: case KFSub: case KFMul: case KFDiv: case KFRem: case KFMin: case KFMax:
            return w == 32 ? b32(fop2(k, f32(a), f32(b))) : b64(fop2(k, f64(a), f64(b)));
        case KFOeq: case KFOlt: case KFOle: case KFUno:
            return ow == 32 ? fcmp(k, f32(a), f32(b)) : fcmp(k, f64(a), f64(b));
        default: abort();
    }
}
static u128 concrete1(K k, unsigned w, unsigned ow, u128 a)
{
    switch (k) {
        case KFSqrt: case KFloor: case KCeil: case KTrunc: case KRint: case KRound:
            return w == 32 ? b32(fop1(k, f32(a))) : b64(fop1(k, f64(a)));
        case KFExt: return b64((double)f32(a));
        case KFTrunc: return b32((float)f64(a));
        case KSIToFP: return w == 32 ? b32((float)(int64_t)sext128(a, ow)) : b64((double)(int64_t)sext128(a, ow));
        case KUIToFP: return w == 32 ? b32((float)(u64)a) : b64((double)(u64)a);
        case KFPToSI: return fptosi(ow == 32 ? (double)f32(a) : f64(a), w);
        case KFPToUI: return fptoui(ow == 32 ? (double)f32(a) : f64(a), w);
        default: abort();
    }
}

// ---- constructors with simplification -----------------------------------
static bool iteConst(E e) { return e->k == KIte && e->op(1)->isc() && e->op(2)->isc(); }
static bool isNot(E e, E &x)
{
    if (e->w == 1 && e->k == KXor && e->op(1)->isc(1)) { x = e->op(0); return true; }
    return false;
}
static unsigned tz(u128 v)
{
    u64 lo = (u64)v, hi = (u64)(v >> 64);
    if (lo) return __builtin_ctzll(lo);
    if (hi) return 64 + __builtin_ctzll(hi);
    return 128;
}

E Not(E a)
{
    if (a->isc()) return C(~a->val, a->w);
    if (a->w == 1) {
        E x;
        if (isNot(a, x)) return x;
        switch (a->k) {
            case KUlt: return Ule(a->op(1), a->op(0));
            case KUle: return Ult(a->op(1), a->op(0));
            case KSlt: return Sle(a->op(1), a->op(0));
            case KSle: return Slt(a->op(1), a->op(0));
            case KIte: if (iteConst(a)) return Ite(a->op(0), Not(a->op(1)), Not(a->op(2))); break;
            default: break;
        }
    }
    return Xor(a, C(~(u128)0, a->w));
}
E Ne(E a, E b) { return Not(Eq(a, b)); }

E Add(E a, E b)
{
    unsigned w = a->w;
    assert(w == b->w);
    if (w == 1) return Xor(a, b);
    if (a->isc() && b->isc()) return C(a->val + b->val, w);
    if (a->isc()) std::swap(a, b);
    if (b->isc()) {
        if (b->val == 0) return a;
        if (a->k == KAdd && a->op(1)->isc()) return Add(a->op(0), C(a->op(1)->val + b->val, w));
        if (a->k == KSub && a->op(0)->isc()) return Sub(C(a->op(0)->val + b->val, w), a->op(1));
        if (iteConst(a)) return Ite(a->op(0), Add(a->op(1), b), Add(a->op(2), b));
        // disjoint constant low/high: x has act bits, const has tz >= act
        if (a->act <= tz(b->val)) return Or(a, b);
        return mk2(KAdd, w, a, b);
    }
    if (a->k == KAdd && a->op(1)->isc()) return Add(Add(a->op(0), b), a->op(1));
    if (b->k == KAdd && b->op(1)->isc()) return Add(Add(a, b->op(0)), b->op(1));
    if (a->k == KSub && a->op(1) == b) return a->op(0);
    if (b->k == KSub && b->op(1) == a) return b->op(0);
    if (a->k == KSub && a->op(0)->isc()) return Sub(Add(b, a->op(0)), a->op(1));
    if (b->k == KSub && b->op(0)->isc()) return Sub(Add(a, b->op(0)), b->op(1));
    if (a->id > b->id) std::swap(a, b);
    return mk2(KAdd, w, a, b);
}
E Sub(E a, E b)
{
    unsigned w = a->w;
    assert(w == b->w);
    if (w == 1) return Xor(a, b);
    if (a == b) return C(0, w);
    if (b->isc()) return Add(a, C(-b->val, w));
    if (a->isc() && iteConst(b)) return Ite(b->op(0), Sub(a, b->op(1)), Sub(a, b->op(2)));
    if (b->k == KAdd && b->op(1)->isc()) return Add(Sub(a, b->op(0)), C(-b->op(1)->val, w));
    if (a->k == KAdd) {
        if (a->op(1)->isc()) {
            E s = Sub(a->op(0), b);
            return Add(s, a->op(1));
        }
        if (a->op(0) == b) return a->op(1);
        if (a->op(1) == b) return a->op(0);
        if (b->k == KAdd) {
            if (a->op(0) == b->op(0)) return Sub(a->op(1), b->op(1));
            if (a->op(1) == b->op(1)) return Sub(a->op(0), b->op(0));
            if (a->op(0) == b->op(1)) return Sub(a->op(1), b->op(0));
            if (a->op(1) == b->op(0)) return Sub(a->op(0), b->op(1));
        }
    }
    if (b->k == KSub && b->op(0) == a) return b->op(1);
    return mk2(KSub, w, a, b);
}
E Mul(E a, E b)
{
    unsigned w = a->w;
    if (w == 1) return And(a, b);
    if (a->isc() && b->isc()) return C(a->val * b->val, w);
    if (a->isc()) std::swap(a, b);
    if (b->isc()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        u128 v = b->val;
        if ((v & (v - 1)) == 0) return Shl(a, C(tz(v), w));
        if (a->k == KMul && a->op(1)->isc()) return Mul(a->op(0), C(a->op(1)->val * v, w));
        if (a->k == KAdd && a->op(1)->isc()) return Add(Mul(a->op(0), b), C(a->op(1)->val * v, w));
        if (iteConst(a)) return Ite(a->op(0), Mul(a->op(1), b), Mul(a->op(2), b));
        return mk2(KMul, w, a, b);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk2(KMul, w, a, b);
}
static void splitAt(E e, unsigned k, E &hi, E &lo)
{
    lo = Extract(e, 0, k);
    hi = Extract(e, k, e->w - k);
}
E And(E a, E b)
{
    unsigned w = a->w;
    assert(w == b->w);
    if (a->isc() && b->isc()) return C(a->val & b->val, w);
    if (a->isc()) std::swap(a, b);
    if (a == b) return a;
    if (b->isc()) {
        u128 v = b->val;
        if (v == 0) return b;
        if (v == maskw(w)) return a;
        // every possibly-set bit of a is kept?
        if ((v & maskw(a->act)) == maskw(a->act)) return a;
        if ((v & maskw(a->act)) == 0) return C(0, w);
        unsigned l = tz(v), h = bitlen(v);
        if (v == (maskw(h) & ~maskw(l))) {
            E x = Extract(a, l, h - l);
            if (l) x = Concat(x, C(0, l));
            return ZExt(x, w);
        }
        if (a->k == KZExt) return ZExt(And(a->op(0), C(v, a->op(0)->w)), w);
        if (a->k == KConcat) {
            unsigned lw = a->op(1)->w;
            return Concat(And(a->op(0), C(v >> lw, a->op(0)->w)), And(a->op(1), C(v, lw)));
        }
        if (a->k == KAnd && a->op(1)->isc()) return And(a->op(0), C(v & a->op(1)->val, w));
        if (iteConst(a)) return Ite(a->op(0), And(a->op(1), b), And(a->op(2), b));
        return mk2(KAnd, w, a, b);
    }
    if (w == 1) {
        E x;
        if (isNot(a, x) && x == b) return F();
        if (isNot(b, x) && x == a) return F();
        // absorption one level
        if (b->k == KAnd && (b->op(0) == a || b->op(1) == a)) return b;
        if (a->k == KAnd && (a->op(0) == b || a->op(1) == b)) return a;
        if (b->k == KOr && (b->op(0) == a || b->op(1) == a)) return a;
        if (a->k == KOr && (a->op(0) == b || a->op(1) == b)) return b;
    } else {
        // narrow to active bits
        unsigned act = std::min(a->act, b->act);
        if (act == 0) return C(0, w);
        if (act < w) return ZExt(And(Extract(a, 0, act), Extract(b, 0, act)), w);
        if (a->k == KConcat && b->k == KConcat && a->op(1)->w == b->op(1)->w)
            return Concat(And(a->op(0), b->op(0)), And(a->op(1), b->op(1)));
    }
    if (a->id > b->id) std::swap(a, b);
    return mk2(KAnd, w, a, b);
}
E Or(E a, E b)
{
    unsigned w = a->w;
    assert(w == b->w);
    if (a->isc() && b->isc()) return C(a->val | b->val, w);
    if (a->isc()) std::swap(a, b);
    if (a == b) return a;
    if (b->isc()) {
        u128 v = b->val;
        if (v == 0) return a;
        if (v == maskw(w)) return b;
        if (iteConst(a)) return Ite(a->op(0), Or(a->op(1), b), Or(a->op(2), b));
        if (a->k == KConcat) {
            E hi, lo;
            splitAt(b, a->op(1)->w, hi, lo);
            return Concat(Or(a->op(0), hi), Or(a->op(1), lo));
        }
        if (a->k == KZExt) {
            E hi, lo;
            splitAt(b, a->op(0)->w, hi, lo);
            return Concat(hi, Or(a->op(0), lo));
        }
        // split off known-one/zero runs at the top or bottom
        unsigned h = bitlen(v);
        if (h < w) {
            E hi = Extract(a, h, w - h);
            return Concat(hi, Or(Extract(a, 0, h), C(v, h)));
        }
        unsigned l = tz(v);
        if (l) return Concat(Or(Extract(a, l, w - l), C(v >> l, w - l)), Extract(a, 0, l));
        // leading ones
        unsigned no = 0;
        while (no < w && ((v >> (w - 1 - no)) & 1)) no++;
        if (no && no < w) return Concat(C(maskw(no), no), Or(Extract(a, 0, w - no), C(v, w - no)));
        return mk2(KOr, w, a, b);
    }
    if (w == 1) {
        E x;
        if (isNot(a, x) && x == b) return T();
        if (isNot(b, x) && x == a) return T();
        if (b->k == KOr && (b->op(0) == a || b->op(1) == a)) return b;
        if (a->k == KOr && (a->op(0) == b || a->op(1) == b)) return a;
        if (b->k == KAnd && (b->op(0) == a || b->op(1) == a)) return a;
        if (a->k == KAnd && (a->op(0) == b || a->op(1) == b)) return b;
    } else {
        if (a->k == KConcat && b->k == KConcat && a->op(1)->w == b->op(1)->w)
            return Concat(Or(a->op(0), b->op(0)), Or(a->op(1), b->op(1)));
        for (int s = 0; s < 2; s++) {
            if (a->k == KConcat && (b->act <= a->op(1)->w || a->op(1)->isc(0))) {
                E hi, lo;
                splitAt(b, a->op(1)->w, hi, lo);
                return Concat(Or(a->op(0), hi), Or(a->op(1), lo));
            }
            if (a->k == KConcat && b->k == KConcat && a->op(1)->w > b->op(1)->w) {
                E hi, lo;
                splitAt(b, a->op(1)->w, hi, lo);
                return Concat(Or(a->op(0), hi), Or(a->op(1), lo));
            }
            std::swap(a, b);
        }
        unsigned act = std::max(a->act, b->act);
        if (act < w && act) return ZExt(Or(Extract(a, 0, act), Extract(b, 0, act)), w);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk2(KOr, w, a, b);
}
E Xor(E a, E b)
{
    unsigned w = a->w;
    assert(w == b->w);
    if (a->isc() && b->isc()) return C(a->val ^ b->val, w);
    if (a->isc()) std::swap(a, b);
    if (a == b) return C(0, w);
    if (b->isc()) {
        if (b->val == 0) return a;
        if (w == 1) {
            E x;
            if (isNot(a, x)) return x;
            if (a->k == KUlt || a->k == KUle || a->k == KSlt || a->k == KSle || iteConst(a)) return Not(a);
        }
        if (a->k == KXor && a->op(1)->isc()) return Xor(a->op(0), C(a->op(1)->val ^ b->val, w));
        if (iteConst(a)) return Ite(a->op(0), Xor(a->op(1), b), Xor(a->op(2), b));
        if (w > 1 && a->k == KConcat) {
            E hi, lo;
            splitAt(b, a->op(1)->w, hi, lo);
            return Concat(Xor(a->op(0), hi), Xor(a->op(1), lo));
        }
        if (w > 1 && a->k == KZExt) {
            E hi, lo;
            splitAt(b, a->op(0)->w, hi, lo);
            return Concat(hi, Xor(a->op(0), lo));
        }
        return mk2(KXor, w, a, b);
    }
    if (w > 1) {
        if (a->k == KConcat && b->k == KConcat && a->op(1)->w == b->op(1)->w)
            return Concat(Xor(a->op(0), b->op(0)), Xor(a->op(1), b->op(1)));
        for (int s = 0; s < 2; s++) {
            if (a->k == KConcat && (b->act <= a->op(1)->w || a->op(1)->isc(0))) {
                E hi, lo;
                splitAt(b, a->op(1)->w, hi, lo);
                return Concat(Xor(a->op(0), hi), Xor(a->op(1), lo));
            }
            std::swap(a, b);
        }
    }
    if (a->id > b->id) std::swap(a, b);
    return mk2(KXor, w, a, b);
}
E Shl(E a, E b)
{
    unsigned w = a->w;
    if (b->isc()) {
        if (b->val == 0) return a;
        if (b->val >= w) return C(0, w);
        unsigned c = (unsigned)b->val;
        return Concat(Extract(a, 0, w - c), C(0, c));
    }
    if (a->isc(0)) return a;
    if (iteConst(b)) return Ite(b->op(0), Shl(a, b->op(1)), Shl(a, b->op(2)));
    return mk2(KShl, w, a, b);
}
E LShr(E a, E b)
{
    unsigned w = a->w;
    if (b->isc()) {
        if (b->val == 0) return a;
        if (b->val >= w) return C(0, w);
        unsigned c = (unsigned)b->val;
        return ZExt(Extract(a, c, w - c), w);
    }
    if (a->isc(0)) return a;
    if (iteConst(b)) return Ite(b->op(0), LShr(a, b->op(1)), LShr(a, b->op(2)));
    return mk2(KLShr, w, a, b);
}
E AShr(E a, E b)
{
    unsigned w = a->w;
    if (a->act < w) return LShr(a, b);
    if (b->isc()) {
        if (b->val == 0) return a;
        unsigned c = b->val >= w ? w - 1 : (unsigned)b->val;
        return SExt(Extract(a, c, w - c), w);
    }
    if (iteConst(b)) return Ite(b->op(0), AShr(a, b->op(1)), AShr(a, b->op(2)));
    return mk2(KAShr, w, a, b);
}
E ZExt(E a, unsigned w)
{
    if (a->w == w) return a;
    assert(w > a->w);
    if (a->isc()) return C(a->val, w);
    if (a->k == KZExt) return ZExt(a->op(0), w);
    if (a->act < a->w) {
        if (a->act == 0) return C(0, w);
        if (a->k == KConcat || a->k == KExtract) {
            E x = Extract(a, 0, a->act);
            if (x->w < a->w && x->k != KExtract) return ZExt(x, w);
        }
    }
    if (iteConst(a)) return Ite(a->op(0), C(a->op(1)->val, w), C(a->op(2)->val, w));
    return mk1(KZExt, w, a);
}
E SExt(E a, unsigned w)
{
    if (a->w == w) return a;
    assert(w > a->w);
    if (a->isc()) return C((u128)sext128(a->val, a->w), w);
    if (a->act < a->w) return ZExt(a, w);
    if (a->k == KSExt) return SExt(a->op(0), w);
    if (iteConst(a)) return Ite(a->op(0), SExt(a->op(1), w), SExt(a->op(2), w));
    if (a->w == 1) return Ite(a, C(~(u128)0, w), C(0, w));
    return mk1(KSExt, w, a);
}
E Extract(E a, unsigned lo, unsigned w)
{
    assert(lo + w <= a->w && w > 0);
    if (w == a->w) return a;
    if (a->isc()) return C(a->val >> lo, w);
    if (lo >= a->act) return C(0, w);
    switch (a->k) {
        case KExtract: return Extract(a->op(0), lo + (unsigned)a->val, w);
        case KZExt: {
            E x = a->op(0);
            if (lo >= x->w) return C(0, w);
            if (lo + w <= x->w) return Extract(x, lo, w);
            return ZExt(Extract(x, lo, x->w - lo), w);
        }
        case KSExt: {
            E x = a->op(0);
            if (lo + w <= x->w) return Extract(x, lo, w);
            if (lo < x->w) return SExt(Extract(x, lo, x->w - lo), w);
            return SExt(Extract(x, x->w - 1, 1), w);
        }
        case KConcat: {
            E h = a->op(0), l = a->op(1);
            if (lo >= l->w) return Extract(h, lo - l->w, w);
            if (lo + w <= l->w) return Extract(l, lo, w);
            return Concat(Extract(h, 0, lo + w - l->w), Extract(l, lo, l->w - lo));
        }
        case KIte:
            if (a->op(1)->isc() || a->op(2)->isc())
                return Ite(a->op(0), Extract(a->op(1), lo, w), Extract(a->op(2), lo, w));
            break;
        case KAnd: return And(Extract(a->op(0), lo, w), Extract(a->op(1), lo, w));
        case KOr: return Or(Extract(a->op(0), lo, w), Extract(a->op(1), lo, w));
        case KXor: return Xor(Extract(a->op(0), lo, w), Extract(a->op(1), lo, w));
        case KAdd:
            if (lo == 0 && (a->op(1)->isc() || a->op(0)->k == KZExt || a->op(1)->k == KZExt || a->op(0)->k == KSExt || a->op(1)->k == KSExt))
                return Add(Extract(a->op(0), 0, w), Extract(a->op(1), 0, w));
            break;
        case KSub:
            if (lo == 0 && (a->op(0)->isc() || a->op(0)->k == KZExt || a->op(1)->k == KZExt || a->op(0)->k == KSExt || a->op(1)->k == KSExt))
                return Sub(Extract(a->op(0), 0, w), Extract(a->op(1), 0, w));
            break;
        case KMul:
            if (lo == 0 && (a->op(1)->isc() || a->op(0)->k == KZExt || a->op(1)->k == KZExt || a->op(0)->k == KSExt || a->op(1)->k == KSExt))
                return Mul(Extract(a->op(0), 0, w), Extract(a->op(1), 0, w));
            break;
        default: break;
    }
    return mk1(KExtract, w, a, lo);
}
static E mergeAdj(E a, E b) // a high, b low; returns merged or null
{
    if (a->isc() && b->isc()) return C((a->val << b->w) | b->val, a->w + b->w);
    if (b->k == KExtract) {
        if (a->k == KExtract && a->op(0) == b->op(0) && (unsigned)a->val == (unsigned)b->val + b->w)
            return Extract(a->op(0), (unsigned)b->val, a->w + b->w);
        // sign extension pieces
        if (a->k == KSExt && a->op(0)->k == KExtract && a->op(0)->op(0) == b->op(0) &&
            (unsigned)a->op(0)->val == (unsigned)b->val + b->w)
            return SExt(Extract(b->op(0), (unsigned)b->val, b->w + a->op(0)->w), a->w + b->w);
    }
    if (a->k == KExtract && a->op(0) == b && (unsigned)a->val == b->w) return Extract(b, 0, a->w + b->w); // degenerate
    if (a->k == KIte && b->k == KIte && a->op(0) == b->op(0))
        return Ite(a->op(0), Concat(a->op(1), b->op(1)), Concat(a->op(2), b->op(2)));
    return nullptr;
}
E Concat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (hi->isc(0)) return ZExt(lo, w);
    if (hi->k == KZExt) return ZExt(Concat(hi->op(0), lo), w);
    if (hi->k == KConcat) return Concat(hi->op(0), Concat(hi->op(1), lo));
    if (E m = mergeAdj(hi, lo)) return m;
    if (lo->k == KConcat) {
        if (E m = mergeAdj(hi, lo->op(0))) return Concat(m, lo->op(1));
    }
    if (iteConst(hi) && lo->isc()) return Ite(hi->op(0), Concat(hi->op(1), lo), Concat(hi->op(2), lo));
    if (hi->isc() && iteConst(lo)) return Ite(lo->op(0), Concat(hi, lo->op(1)), Concat(hi, lo->op(2)));
    return mk2(KConcat, w, hi, lo);
}
static E eqConst(E a, E b) // b const
{
    unsigned w = a->w;
    u128 c = b->val;
    if (w == 1) return c ? a : Not(a);
    if (bitlen(c) > a->act) return F();
    switch (a->k) {
        case KZExt: return Eq(a->op(0), C(c, a->op(0)->w));
        case KSExt: {
            E x = a->op(0);
            if ((u128)sext128(c, x->w) != (u128)sext128(c, w)) return F();
            return Eq(x, C(c, x->w));
        }
        case KConcat: {
            unsigned lw = a->op(1)->w;
            E e1 = Eq(a->op(0), C(c >> lw, a->op(0)->w));
            if (e1->isc(0)) return e1;
            return And(e1, Eq(a->op(1), C(c, lw)));
        }
        case KAdd:
            if (a->op(1)->isc()) return Eq(a->op(0), C(c - a->op(1)->val, w));
            break;
        case KSub:
            if (a->op(0)->isc()) return Eq(a->op(1), C(a->op(0)->val - c, w));
            if (c == 0) return Eq(a->op(0), a->op(1));
            break;
        case KXor:
            if (a->op(1)->isc()) return Eq(a->op(0), C(c ^ a->op(1)->val, w));
            if (c == 0) return Eq(a->op(0), a->op(1));
            break;
        case KIte: {
            E t = a->op(1), f = a->op(2);
            if (t->isc() || f->isc()) {
                E et = Eq(t, b), ef = Eq(f, b);
                return Ite(a->op(0), et, ef);
            }
            break;
        }
        case KOr:
            if (c == 0) return And(Eq(a->op(0), b), Eq(a->op(1), b));
            break;
        case KMul:
            if (a->op(1)->isc() && (a->op(1)->val & 1)) {
                // multiply by odd constant is a bijection
                u128 inv = a->op(1)->val;
                for (int i = 0; i < 7; i++) inv *= 2 - a->op(1)->val * inv;
                return Eq(a->op(0), C(c * inv, w));
            }
            break;
        default: break;
    }
    E o[2] = {a, b};
    return mk(KEq, 1, 0, o, 2);
}
E Eq(E a, E b)
{
    assert(a->w == b->w);
    if (a == b) return T();
    if (a->isc() && b->isc()) return F();
    if (a->isc()) std::swap(a, b);
    if (b->isc()) return eqConst(a, b);
    if (a->w == 1) {
        // xnor
        return Not(Xor(a, b));
    }
    if (a->k == KZExt && b->k == KZExt) {
        unsigned mw = std::max(a->op(0)->w, b->op(0)->w);
        return Eq(ZExt(a->op(0), mw), ZExt(b->op(0), mw));
    }
    if (a->k == KSExt && b->k == KSExt && a->op(0)->w == b->op(0)->w) return Eq(a->op(0), b->op(0));
    if (a->k == KConcat && b->k == KConcat && a->op(1)->w == b->op(1)->w) {
        E e1 = Eq(a->op(0), b->op(0));
        if (e1->isc(0)) return e1;
        return And(e1, Eq(a->op(1), b->op(1)));
    }
    if (a->k == KAdd && b->k == KAdd) {
        if (a->op(0) == b->op(0)) return Eq(a->op(1), b->op(1));
        if (a->op(1) == b->op(1)) return Eq(a->op(0), b->op(0));
        if (a->op(0) == b->op(1)) return Eq(a->op(1), b->op(0));
        if (a->op(1) == b->op(0)) return Eq(a->op(0), b->op(1));
    }
    // x + c == x
    if (a->k == KAdd && a->op(0) == b && a->op(1)->isc()) return F();
    if (b->k == KAdd && b->op(0) == a && b->op(1)->isc()) return F();
    if (iteConst(a)) return Ite(a->op(0), Eq(a->op(1), b), Eq(a->op(2), b));
    if (iteConst(b)) return Ite(b->op(0), Eq(a, b->op(1)), Eq(a, b->op(2)));
    unsigned act = std::max(a->act, b->act);
    if (act < a->w && act > 0) {
        E x = Extract(a, 0, act), y = Extract(b, 0, act);
        return Eq(x, y);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk2(KEq, 1, a, b);
}
E Ult(E a, E b)
{
    assert(a->w == b->w);
    if (a->isc() && b->isc()) return C(a->val < b->val, 1);
    if (a == b) return F();
    unsigned w = a->w;
    if (w == 1) return And(Not(a), b);
    if (b->isc()) {
        if (b->val == 0) return F();
        if (b->val > maskw(a->act)) return T();
        if (b->val == 1) return Eq(a, C(0, w));
        if (b->val == maskw(w)) return Ne(a, b);
    }
    if (a->isc()) {
        if (a->val >= maskw(b->act)) return F();
        if (a->val == 0) return Ne(b, C(0, w));
    }
    unsigned act = std::max(a->act, b->act);
    if (act < w && act > 0) return Ult(Extract(a, 0, act), Extract(b, 0, act));
    if (a->k == KConcat && b->isc(0)) return F();
    if (a->k == KConcat && b->isc() && (b->val & maskw(a->op(1)->w)) == 0)
        return Ult(a->op(0), C(b->val >> a->op(1)->w, a->op(0)->w));
    if (a->k == KConcat && b->k == KConcat && a->op(1) == b->op(1)) return Ult(a->op(0), b->op(0));
    if (iteConst(a) && (b->isc() || iteConst(b))) return Ite(a->op(0), Ult(a->op(1), b), Ult(a->op(2), b));
    if (iteConst(b) && a->isc()) return Ite(b->op(0), Ult(a, b->op(1)), Ult(a, b->op(2)));
    return mk2(KUlt, 1, a, b);
}
E Ule(E a, E b)
{
    if (a->isc() && b->isc()) return C(a->val <= b->val, 1);
    if (a == b) return T();
    unsigned w = a->w;
    if (w == 1) return Or(Not(a), b);
    if (b->isc()) {
        if (b->val == maskw(w)) return T();
        return Ult(a, C(b->val + 1, w));
    }
    if (a->isc()) {
        if (a->val == 0) return T();
        return Ult(C(a->val - 1, w), b);
    }
    unsigned act = std::max(a->act, b->act);
    if (act < w && act > 0) return Ule(Extract(a, 0, act), Extract(b, 0, act));
    return mk2(KUle, 1, a, b);
}
static bool nonneg(E e) { return e->act < e->w; }
E Slt(E a, E b)
{
    unsigned w = a->w;
    if (a->isc() && b->isc()) return C(sext128(a->val, w) < sext128(b->val, w), 1);
    if (a == b) return F();
    if (w == 1) return And(a, Not(b));
    if (nonneg(a) && nonneg(b)) return Ult(a, b);
    if (b->isc(0)) return Extract(a, w - 1, 1);
    if (a->isc(maskw(w))) return Not(Extract(b, w - 1, 1));
    if (nonneg(b) && !b->isc() ) { /* fallthrough */ }
    if (a->k == KSExt && b->k == KSExt) {
        unsigned mw = std::max(a->op(0)->w, b->op(0)->w);
        return Slt(SExt(a->op(0), mw), SExt(b->op(0), mw));
    }
    if (a->k == KSExt && b->isc()) {
        unsigned ow = a->op(0)->w;
        i128 c = sext128(b->val, w);
        i128 lo = -((i128)1 << (ow - 1)), hi = ((i128)1 << (ow - 1)) - 1;
        if (c > hi) return T();
        if (c <= lo) return F();
        return Slt(a->op(0), C((u128)c, ow));
    }
    if (b->k == KSExt && a->isc()) {
        unsigned ow = b->op(0)->w;
        i128 c = sext128(a->val, w);
        i128 lo = -((i128)1 << (ow - 1)), hi = ((i128)1 << (ow - 1)) - 1;
        if (c >= hi) return F();
        if (c < lo) return T();
        return Slt(C((u128)c, ow), b->op(0));
    }
    if (iteConst(a) && (b->isc() || iteConst(b))) return Ite(a->op(0), Slt(a->op(1), b), Slt(a->op(2), b));
    if (iteConst(b) && a->isc()) return Ite(b->op(0), Slt(a, b->op(1)), Slt(a, b->op(2)));
    return mk2(KSlt, 1, a, b);
}
E Sle(E a, E b)
{
    unsigned w = a->w;
    if (a->isc() && b->isc()) return C(sext128(a->val, w) <= sext128(b->val, w), 1);
    if (a == b) return T();
    if (w == 1) return Or(a, Not(b));
    if (nonneg(a) && nonneg(b)) return Ule(a, b);
    if (b->isc()) {
        if (b->val == (maskw(w) >> 1)) return T();
        return Slt(a, C(b->val + 1, w));
    }
    if (a->isc()) {
        if (a->val == ((u128)1 << (w - 1))) return T();
        return Slt(C(a->val - 1, w), b);
    }
    if (a->k == KSExt && b->k == KSExt) {
        unsigned mw = std::max(a->op(0)->w, b->op(0)->w);
        return Sle(SExt(a->op(0), mw), SExt(b->op(0), mw));
    }
    return mk2(KSle, 1, a, b);
}
E Ite(E c, E a, E b)
{
    assert(c->w == 1 && a->w == b->w);
    if (c->isc()) return c->val ? a : b;
    if (a == b) return a;
    E x;
    if (isNot(c, x)) return Ite(x, b, a);
    if (a->k == KTuple) {
        std::vector<E> v;
        for (u32 i = 0; i < a->nops; i++) v.push_back(Ite(c, a->op(i), b->op(i)));
        return Tuple(v);
    }
    unsigned w = a->w;
    if (a->k == KIte && a->op(0) == c) return Ite(c, a->op(1), b);
    if (b->k == KIte && b->op(0) == c) return Ite(c, a, b->op(2));
    if (w == 1) {
        if (a->isc(1)) return Or(c, b);
        if (a->isc(0)) return And(Not(c), b);
        if (b->isc(0)) return And(c, a);
        if (b->isc(1)) return Or(Not(c), a);
        if (a == c) return Or(c, b);
        if (b == c) return And(c, a);
        E o[3] = {c, a, b};
        return mk(KIte, 1, 0, o, 3);
    }
    // x == k ? k : x  -> x
    if (c->k == KEq) {
        if (c->op(1) == a && c->op(0) == b) return b;
        if (c->op(0) == a && c->op(1) == b) return b;
    }
    // Ite(c, k, Ite(d, k, y)) -> Ite(c|d, k, y)
    if (b->k == KIte && b->op(1) == a) return Ite(Or(c, b->op(0)), a, b->op(2));
    if (b->k == KIte && b->op(2) == a) return Ite(Or(c, Not(b->op(0))), a, b->op(1));
    if (a->k == KIte && a->op(2) == b) return Ite(And(c, a->op(0)), a->op(1), b);
    if (a->k == KIte && a->op(1) == b) return Ite(And(c, Not(a->op(0))), a->op(2), b);
    if (a->k == KZExt && b->k == KZExt && a->op(0)->w == b->op(0)->w) return ZExt(Ite(c, a->op(0), b->op(0)), w);
    if (a->k == KZExt && b->isc() && bitlen(b->val) <= a->op(0)->w) return ZExt(Ite(c, a->op(0), C(b->val, a->op(0)->w)), w);
    if (b->k == KZExt && a->isc() && bitlen(a->val) <= b->op(0)->w) return ZExt(Ite(c, C(a->val, b->op(0)->w), b->op(0)), w);
    return mk3(KIte, w, c, a, b);
}
static E divrem(K k, E a, E b)
{
    unsigned w = a->w;
    if (a->isc() && b->isc()) return C(concrete(k, w, w, a->val, b->val), w);
    if (b->isc()) {
        u128 v = b->val;
        bool p2 = v && (v & (v - 1)) == 0;
        if (k == KUDiv || (k == KSDiv && nonneg(a) && nonneg(b))) {
            if (v == 1) return a;
            if (p2) return LShr(a, C(tz(v), w));
            k = KUDiv;
        } else if (k == KURem || (k == KSRem && nonneg(a) && nonneg(b))) {
            if (v == 1) return C(0, w);
            if (p2) return And(a, C(v - 1, w));
            if (v > maskw(a->act)) return a;
            k = KURem;
        }
        if (v && (k == KUDiv || k == KURem) && a->act < w && bitlen(v) <= a->act) {
            unsigned n = a->act;
            return ZExt(divrem(k, Extract(a, 0, n), C(v, n)), w);
        }
        // (x * c) / c style pointer-difference: exact division handled when x small enough
        if ((k == KUDiv) && a->k == KMul && a->op(1)->isc(v) && a->op(0)->act + bitlen(v) <= w) return a->op(0);
        if ((k == KSDiv) && a->k == KMul && a->op(1)->isc(v) && a->op(0)->act + bitlen(v) < w) return a->op(0);
        if (k == KSDiv && v == 1) return a;
    }
    if (iteConst(a) && b->isc()) return Ite(a->op(0), divrem(k, a->op(1), b), divrem(k, a->op(2), b));
    return mk2(k, w, a, b);
}
E Bin(K k, E a, E b)
{
    switch (k) {
        case KAdd: return Add(a, b);
        case KSub: return Sub(a, b);
        case KMul: return Mul(a, b);
        case KAnd: return And(a, b);
        case KOr: return Or(a, b);
        case KXor: return Xor(a, b);
        case KShl: return Shl(a, b);
        case KLShr: return LShr(a, b);
        case KAShr: return AShr(a, b);
        case KEq: return Eq(a, b);
        case KUlt: return Ult(a, b);
        case KUle: return Ule(a, b);
        case KSlt: return Slt(a, b);
        case KSle: return Sle(a, b);
        case KUDiv: case KSDiv: case KURem: case KSRem: return divrem(k, a, b);
        default: abort();
    }
}

// ---- floating point -------------------------------------------------------
// A float expression that is exactly SIToFP(i) with |i| < 2^24 (f32) or 2^53 (f64)
static bool asInt(E e, E &i, unsigned &bits)
{
    // returns signed integer expr i (width = its own) with magnitude < 2^(bits)
    if (e->k == KSIToFP) {
        i = e->op(0);
        bits = i->w - 1;
        if (nonneg(i)) bits = i->act;
        else if (i->k == KSExt) bits = i->op(0)->w - 1;
        unsigned lim = e->w == 32 ? 24 : 53;
        return bits <= lim;
    }
    if (e->k == KUIToFP) {
        unsigned lim = e->w == 32 ? 24 : 53;
        if (e->op(0)->act > lim) return false;
        i = ZExt(e->op(0), e->op(0)->w + 1);
        bits = e->op(0)->act;
        return true;
    }
    if (e->k == KConst) {
        double d = e->w == 32 ? f32(e->val) : f64(e->val);
        if (d != std::floor(d) || !(std::fabs(d) < 16777216.0) || (d == 0 && std::signbit(d))) return false;
        i = C((u128)(i128)(int64_t)d, 32);
        bits = bitlen((u128)(int64_t)std::fabs(d));
        return true;
    }
    return false;
}
static E sexTo(E i, unsigned w) { return i->w == w ? i : i->w < w ? SExt(i, w) : Extract(i, 0, w); }

E F1(K k, E a, unsigned w)
{
    if (a->isc()) return C(concrete1(k, w, a->w, a->val), w);
    E i;
    unsigned bits;
    if (fpExactInt) {
        if (k == KUIToFP && a->act <= (w == 32 ? 24u : 53u) && a->act < a->w) return F1(KSIToFP, a, w);
        if ((k == KFloor || k == KCeil || k == KTrunc || k == KRint || k == KRound) && asInt(a, i, bits)) return a;
        if (k == KFExt && asInt(a, i, bits)) return F1(KSIToFP, i, 64);
        if (k == KFTrunc && asInt(a, i, bits) && bits <= 24) return F1(KSIToFP, i, 32);
        if (k == KFPToSI && asInt(a, i, bits) && bits < w) return sexTo(i, w);
        if (k == KFTrunc && a->k == KFExt) return a->op(0);
    }
    if (k == KSIToFP && a->k == KSExt) return F1(k, a->op(0), w);
    if (k == KSIToFP && a->k == KZExt && a->w > a->op(0)->w + 1) return F1(k, ZExt(a->op(0), a->op(0)->w + 1), w);
    if (k == KUIToFP && a->k == KZExt) return F1(k, a->op(0), w);
    if (iteConst(a)) return Ite(a->op(0), F1(k, a->op(1), w), F1(k, a->op(2), w));
    return mk1(k, w, a);
}
// A chain of monotone operations with finite constants on one base value: comparing it with a constant is
// comparing the base with a threshold, which a binary search over the base's values finds exactly.
static bool finiteC(E c)
{
    if (!c->isc()) return false;
    double d = c->w == 32 ? f32(c->val) : f64(c->val);
    return std::isfinite(d);
}
static bool chainStep(E e, E &next)
{
    switch (e->k) {
        case KFAdd: case KFSub: case KFMul: case KFDiv: {
            E c = e->op(1), x = e->op(0);
            if (!c->isc() && e->op(0)->isc() && e->k != KFDiv) std::swap(c, x);
            if (!finiteC(c) || x->isc()) return false;
            if ((e->k == KFMul || e->k == KFDiv) && !(c->val & (maskw(c->w) >> 1))) return false;
            next = x;
            return true;
        }
        case KFExt: case KFTrunc: case KFloor: case KCeil: case KTrunc: case KRint: case KRound: next = e->op(0); return true;
        case KXor:
            if (e->op(1)->isc((u128)1 << (e->w - 1))) {
                next = e->op(0);
                return true;
            }
            return false;
        default: return false;
    }
}
static u128 runChain(const std::vector<E> &ch, u128 v)
{
    for (size_t i = ch.size(); i-- > 0;) {
        E e = ch[i];
        switch (e->k) {
            case KFAdd: case KFSub: case KFMul: case KFDiv:
                v = e->op(1)->isc() ? concrete(e->k, e->w, e->w, v, e->op(1)->val) : concrete(e->k, e->w, e->w, e->op(0)->val, v);
                break;
            case KXor: v ^= e->op(1)->val; break;
            default: v = concrete1(e->k, e->w, e->op(0)->w, v); break;
        }
    }
    return v;
}
static bool monoCompare(K k, E a, E b, E &res)
{
    const bool right = a->isc(); // const OP chain
    E e = right ? b : a, c = right ? a : b;
    if (!finiteC(c)) return false;
    std::vector<E> ch;
    E x = e, n;
    while (ch.size() < 64 && chainStep(x, n)) {
        ch.push_back(x);
        x = n;
    }
    const bool isInt = x->k == KSIToFP && x->op(0)->w <= 64;
    if (isInt) {
        ch.push_back(x);
        x = x->op(0);
    }
    if (ch.empty()) return false;
    if (ch.size() == 1 && isInt) {
        // only worth it for a constant that is not an integer (the others are handled as integers)
        double d = c->w == 32 ? f32(c->val) : f64(c->val);
        if (d == std::floor(d) && std::fabs(d) < 16777216.0) return false;
    }
    const unsigned w = x->w;
    // keys 0 .. 2*lim: ascending values
    const i128 lim = isInt ? 0 : w == 32 ? (i128)0x7f800000 : (i128)0x7ff0000000000000ll;
    const i128 lo = isInt ? -((i128)1 << (w - 1)) : -lim, hi = isInt ? ((i128)1 << (w - 1)) - 1 : lim;
    auto bits = [&](i128 key) -> u128 {
        if (isInt) return (u128)key & maskw(w);
        return key >= 0 ? (u128)key : ((u128)-key | (u128)1 << (w - 1));
    };
    auto holds = [&](K kk, bool constLeft, i128 key) {
        u128 v = runChain(ch, bits(key));
        return (bool)(constLeft ? concrete(kk, 1, c->w, c->val, v) : concrete(kk, 1, c->w, v, c->val));
    };
    // the set of keys where kk holds is a prefix or a suffix of the keys
    auto bound = [&](K kk, bool constLeft, bool &prefix, i128 &t) { // prefix: keys < t hold; else keys >= t hold
        const bool l = holds(kk, constLeft, lo), h = holds(kk, constLeft, hi);
        if (l == h) {
            prefix = true;
            t = l ? hi + 1 : lo;
            return;
        }
        prefix = l;
        i128 x0 = lo, x1 = hi; // holds(x0) == l, holds(x1) != l
        while (x1 - x0 > 1) {
            i128 m = x0 + (x1 - x0) / 2;
            if (holds(kk, constLeft, m) == l) x0 = m;
            else x1 = m;
        }
        t = x1;
    };
    auto form = [&](bool prefix, i128 t) -> E {
        if (t > hi || t <= lo) {
            const bool all = (t > hi) == prefix;
            if (!all) return F();
            return isInt ? T() : Not(F2(KFUno, x, x, 1));
        }
        E tc = C(bits(t), w);
        if (isInt) return prefix ? Slt(x, tc) : Sle(tc, x);
        return prefix ? F2(KFOlt, x, tc, 1) : F2(KFOle, tc, x, 1);
    };
    bool prefix;
    i128 t;
    if (k == KFOeq) {
        bool p2;
        i128 t2;
        bound(KFOle, false, prefix, t);
        bound(KFOle, true, p2, t2);
        res = And(form(prefix, t), form(p2, t2));
        return true;
    }
    bound(k, right, prefix, t);
    res = form(prefix, t);
    return true;
}
E F2(K k, E a, E b, unsigned w)
{
    if (a->isc() && b->isc()) return C(concrete(k, w, a->w, a->val, b->val), w);
    if (fpExactInt) {
        E i, j;
        unsigned bi, bj;
        if (asInt(a, i, bi) && asInt(b, j, bj)) {
            unsigned lim = a->w == 32 ? 24 : 53;
            switch (k) {
                case KFAdd: case KFSub: {
                    // integer-valued operands are never -0 here (SIToFP(0) == +0), and x - x == +0 in RNE
                    unsigned nb = std::max(bi, bj) + 1;
                    if (nb <= lim) {
                        E x = sexTo(i, nb + 1 > i->w ? nb + 1 : i->w), y = sexTo(j, nb + 1 > j->w ? nb + 1 : j->w);
                        x = Extract(sexTo(x, std::max<unsigned>(x->w, nb + 1)), 0, nb + 1);
                        y = Extract(sexTo(y, std::max<unsigned>(y->w, nb + 1)), 0, nb + 1);
                        return F1(KSIToFP, k == KFAdd ? Add(x, y) : Sub(x, y), w);
                    }
                    break;
                }
                case KFOeq: case KFOlt: case KFOle: {
                    unsigned mw = std::max(i->w, j->w);
                    E x = sexTo(i, mw), y = sexTo(j, mw);
                    return k == KFOeq ? Eq(x, y) : k == KFOlt ? Slt(x, y) : Sle(x, y);
                }
                case KFUno: return F();
                case KFMin: case KFMax: {
                    unsigned mw = std::max(i->w, j->w);
                    E x = sexTo(i, mw), y = sexTo(j, mw);
                    return k == KFMin ? Ite(Slt(x, y), a, b) : Ite(Slt(x, y), b, a);
                }
                default: break;
            }
        }
    }
    if (k == KFUno && a == b && a->k == KSIToFP) return F();
    if (k == KFUno && a == b) {
        E n;
        if (chainStep(a, n)) return F2(k, n, n, w);
    }
    if ((k == KFOeq || k == KFOlt || k == KFOle) && a->isc() != b->isc()) {
        E r;
        if (monoCompare(k, a, b, r)) return r;
    }
    if (k == KFUno) {
        // constants that are not NaN
        if (b->isc() && b->w == 32 && f32(b->val) == f32(b->val) && a != b && !(a->isc())) return F2(k, a, a, w);
        if (b->isc() && b->w == 64 && f64(b->val) == f64(b->val) && a != b && !(a->isc())) return F2(k, a, a, w);
        if (a->isc() && a->w == 32 && f32(a->val) == f32(a->val)) return F2(k, b, b, w);
        if (a->isc() && a->w == 64 && f64(a->val) == f64(a->val)) return F2(k, b, b, w);
    }
    if ((k == KFOeq || k == KFOlt || k == KFOle || k == KFUno) && iteConst(a) && b->isc())
        return Ite(a->op(0), F2(k, a->op(1), b, w), F2(k, a->op(2), b, w));
    if ((k == KFOeq || k == KFOlt || k == KFOle || k == KFUno) && iteConst(b) && a->isc())
        return Ite(b->op(0), F2(k, a, b->op(1), w), F2(k, a, b->op(2), w));
    if (k == KFOlt && a == b) return F();
    return mk2(k, w, a, b);
}

// ---- evaluation -------------------------------------------------------------
static u32 gen = 0;
static u64 lastModel = ~(u64)0;
static u128 ev(E e, const Model *m)
{
    if (e->k == KConst) return e->val;
    if (e->stamp == gen) return e->cval;
    u128 r = 0;
    switch (e->k) {
        case KVar: r = m ? m->get((u32)e->val) : 0; break;
        case KZExt: r = ev(e->op(0), m); break;
        case KSExt: r = (u128)sext128(ev(e->op(0), m), e->op(0)->w) & maskw(e->w); break;
        case KExtract: r = (ev(e->op(0), m) >> (unsigned)e->val) & maskw(e->w); break;
        case KConcat: r = (ev(e->op(0), m) << e->op(1)->w) | ev(e->op(1), m); break;
        case KIte: r = ev(e->op(0), m) ? ev(e->op(1), m) : ev(e->op(2), m); break;
        case KFSqrt: case KFloor: case KCeil: case KTrunc: case KRint: case KRound:
        case KFExt: case KFTrunc: case KSIToFP: case KUIToFP: case KFPToSI: case KFPToUI:
            r = concrete1(e->k, e->w, e->op(0)->w, ev(e->op(0), m));
            break;
        case KTuple: abort();
        default: r = concrete(e->k, e->w, e->op(0)->w, ev(e->op(0), m), ev(e->op(1), m)); break;
    }
    e->stamp = gen;
    e->cval = r;
    return r;
}
u128 eval(E e, const Model *m)
{
    u64 id = m ? m->uid : 0;
    if (id != lastModel || gen == 0) {
        lastModel = id;
        gen++;
    }
    return ev(e, m);
}
void congruence(E e, u64 &m, u64 &r)
{
    auto gcd = [](u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; };
    if (e->w > 64) { m = 1; r = 0; return; }
    switch (e->k) {
        case KConst: m = 0; r = (u64)e->val; return;
        case KAdd: case KSub: {
            u64 m1, r1, m2, r2;
            congruence(e->op(0), m1, r1);
            congruence(e->op(1), m2, r2);
            m = gcd(m1, m2);
            // wrap-around safe only for powers of two, or when no overflow; keep the power-of-two part unless small
            r = e->k == KAdd ? r1 + r2 : r1 - r2;
            if (m && (m & (m - 1))) {
                bool safe = e->k == KAdd && std::max(e->op(0)->act, e->op(1)->act) < e->w;
                if (!safe) m = m & (~m + 1);
            }
            if (m) r %= m; else if (e->w < 64) r &= (u64)maskw(e->w);
            return;
        }
        case KMul:
            if (e->op(1)->isc()) {
                u64 c = (u64)e->op(1)->val;
                m = c; r = 0;
                if ((unsigned)e->op(0)->act + bitlen(c) > e->w) m = m & (~m + 1);
                return;
            }
            break;
        case KConcat:
            if (e->op(1)->isc()) { m = e->op(1)->w >= 64 ? 0 : (u64)1 << e->op(1)->w; r = (u64)e->op(1)->val;
                u64 m1, r1; congruence(e->op(0), m1, r1);
                if (m1 > 1 && (m1 < (1u << 20))) { u64 p = (u64)1 << e->op(1)->w; m = p * m1; r = r1 * p + (u64)e->op(1)->val; }
                return; }
            break;
        case KZExt: congruence(e->op(0), m, r); return;
        case KIte: {
            u64 m1, r1, m2, r2;
            congruence(e->op(1), m1, r1);
            congruence(e->op(2), m2, r2);
            u64 d = r1 > r2 ? r1 - r2 : r2 - r1;
            m = gcd(gcd(m1, m2), d);
            r = m ? r1 % m : r1;
            return;
        }
        default: break;
    }
    m = 1; r = 0;
}
static std::unordered_map<u32, std::vector<u32>> varCache;
static std::unordered_map<u32, bool> fpCache;
const std::vector<u32> &vars(E e)
{
    auto it = varCache.find(e->id);
    if (it != varCache.end()) return it->second;
    std::vector<u32> out;
    std::vector<E> st{e};
    static std::vector<u32> seen;
    static u32 g = 0;
    if (seen.size() < nexpr) seen.resize(nexpr + 4096, 0);
    g++;
    while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (x->k == KConst || seen[x->id] == g) continue;
        seen[x->id] = g;
        if (x->k == KVar) { out.push_back((u32)x->val); continue; }
        if (x != e) {
            auto c = varCache.find(x->id);
            if (c != varCache.end()) { out.insert(out.end(), c->second.begin(), c->second.end()); continue; }
        }
        for (u32 i = 0; i < x->nops; i++) st.push_back(x->op(i));
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return varCache[e->id] = std::move(out);
}
bool hasFP(E e)
{
    auto it = fpCache.find(e->id);
    if (it != fpCache.end()) return it->second;
    bool r = e->k >= KFAdd;
    for (u32 i = 0; !r && i < e->nops; i++) r = hasFP(e->op(i));
    return fpCache[e->id] = r;
}
static const char *kn[] = {"const", "var", "tuple", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>", "ashr", "zext",
    "sext", "extract", "concat", "==", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frem", "fmin", "fmax", "floor", "ceil",
    "trunc", "rint", "round", "foeq", "folt", "fole", "funo", "fext", "ftrunc", "sitofp", "uitofp", "fptosi", "fptoui"};
std::string str(E e, int d)
{
    char b[64];
    if (e->k == KConst) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if (e->k == KVar) return varNames[(u32)e->val];
    if (d == 0) { snprintf(b, 64, "#%u:%u", e->id, e->w); return b; }
    std::string s = "(";
    s += kn[e->k];
    if (e->k == KExtract) { snprintf(b, 64, "[%u+%u]", (unsigned)e->val, e->w); s += b; }
    if (e->k == KZExt || e->k == KSExt) { snprintf(b, 64, "%u", e->w); s += b; }
    for (u32 i = 0; i < e->nops; i++) s += " " + str(e->op(i), d - 1);
    return s + ")";
}
} // namespace ex
