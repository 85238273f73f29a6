// symx: hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

enum K : u8 {
    KConst, KVar, KTuple,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KZExt, KSExt, KExtract, KConcat,
    KEq, KUlt, KUle, KSlt, KSle,
    KIte,
    // floating point over IEEE bit patterns (width 32 or 64)
    KFAdd, KFSub, KFMul, KFDiv, KFSqrt, KFRem, KFMin, KFMax,
    KFloor, KCeil, KTrunc, KRint, KRound,
    KFOeq, KFOlt, KFOle, KFUno,
    KFExt, KFTrunc, KSIToFP, KUIToFP, KFPToSI, KFPToUI,
    KLast
};

struct Expr {
    K k;
    u8 act;      // number of low bits that may be non-zero
    u16 w;       // width in bits
    u32 id;
    u32 nops;
    mutable u32 stamp; // evaluation cache generation
    u64 hash;
    u128 val;          // Const: value; Var: index; Extract: low bit
    mutable u128 cval; // evaluation cache
    const Expr *const *ops;
    const Expr *op(unsigned i) const { return ops[i]; }
    bool isc() const { return k == KConst; }
    bool isc(u128 v) const { return k == KConst && val == v; }
};
typedef const Expr *E;

struct Model {
    u64 uid;
    std::vector<u8> v;
    Model() { static u64 n = 0; uid = ++n; }
    Model(const Model &o) : Model() { v = o.v; }
    u8 get(u32 i) const { return i < v.size() ? v[i] : 0; }
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

namespace ex {
E C(u128 v, unsigned w);
inline E T() { return C(1, 1); }
inline E F() { return C(0, 1); }
E Var(const std::string &name); // 8-bit variable, interned by name
const std::string &varName(u32 i);
u32 nVars();
E Tuple(const std::vector<E> &v);
E Bin(K k, E a, E b);
E Add(E a, E b);
E Sub(E a, E b);
E Mul(E a, E b);
E And(E a, E b);
E Or(E a, E b);
E Xor(E a, E b);
E Not(E a); // bitwise
E Shl(E a, E b);
E LShr(E a, E b);
E AShr(E a, E b);
E ZExt(E a, unsigned w);
E SExt(E a, unsigned w);
E Extract(E a, unsigned lo, unsigned w);
E Concat(E hi, E lo);
E Eq(E a, E b);
E Ne(E a, E b);
E Ult(E a, E b);
E Ule(E a, E b);
E Slt(E a, E b);
E Sle(E a, E b);
E Ite(E c, E a, E b);
E F1(K k, E a, unsigned w);       // unary fp / conversions, result width w
E F2(K k, E a, E b, unsigned w);  // binary fp
u128 eval(E e, const Model *m);
// congruence: e == r (mod m), m==0 means constant
void congruence(E e, u64 &m, u64 &r);
const std::vector<u32> &vars(E e);
bool hasFP(E e);
std::string str(E e, int depth = 6);
u64 count();
extern bool fpExactInt; // use integer reasoning for integer-valued floats
}
