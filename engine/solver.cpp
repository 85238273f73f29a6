#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <unordered_map>

SolverStats sstats;
unsigned solverTimeoutMs = 60000;
double solverDeadline = 1e9;
static const auto processStart = std::chrono::steady_clock::now();

static Z3_context ctx;
static Z3_sort bv8;
static std::vector<Z3_ast> bvCache, fpCache;
static std::unordered_map<u32, Z3_ast> varAst;

static void errh(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
static void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    bv8 = Z3_mk_bv_sort(ctx, 8);
}
static Z3_sort fpsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast numeral(u128 v, unsigned w)
{
    if (w == 1) return v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
    return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast tr(E e);
static Z3_ast trBV(E e) // always a bit-vector, even for width 1
{
    Z3_ast a = tr(e);
    if (e->w == 1) {
        Z3_sort s = Z3_mk_bv_sort(ctx, 1);
        return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
    }
    return a;
}
static bool isFPRes(E e)
{
    switch (e->k) {
        case KFAdd: case KFSub: case KFMul: case KFDiv: case KFSqrt: case KFRem: case KFMin: case KFMax:
        case KFloor: case KCeil: case KTrunc: case KRint: case KRound: case KFExt: case KFTrunc: case KSIToFP: case KUIToFP: return true;
        default: return false;
    }
}
static Z3_ast trF(E e) // as floating point
{
    if (fpCache.size() <= e->id) fpCache.resize(e->id + 1024, nullptr);
    if (fpCache[e->id]) return fpCache[e->id];
    Z3_ast r;
    Z3_ast rne = Z3_mk_fpa_rne(ctx);
    switch (e->k) {
        case KFAdd: r = Z3_mk_fpa_add(ctx, rne, trF(e->op(0)), trF(e->op(1))); break;
        case KFSub: r = Z3_mk_fpa_sub(ctx, rne, trF(e->op(0)), trF(e->op(1))); break;
        case KFMul: r = Z3_mk_fpa_mul(ctx, rne, trF(e->op(0)), trF(e->op(1))); break;
        case KFDiv: r = Z3_mk_fpa_div(ctx, rne, trF(e->op(0)), trF(e->op(1))); break;
        case KFSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, trF(e->op(0))); break;
        case KFMin: case KFMax: {
            Z3_ast a = trF(e->op(0)), b = trF(e->op(1));
            Z3_ast c = e->k == KFMin ? Z3_mk_fpa_lt(ctx, a, b) : Z3_mk_fpa_lt(ctx, b, a);
            c = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, b), Z3_mk_true(ctx), c);
            r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, a), b, Z3_mk_ite(ctx, c, a, b));
            break;
        }
        case KFloor: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), trF(e->op(0))); break;
        case KCeil: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), trF(e->op(0))); break;
        case KTrunc: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), trF(e->op(0))); break;
        case KRint: r = Z3_mk_fpa_round_to_integral(ctx, rne, trF(e->op(0))); break;
        case KRound: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), trF(e->op(0))); break;
        case KFExt: r = Z3_mk_fpa_to_fp_float(ctx, rne, trF(e->op(0)), fpsort(64)); break;
        case KFTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rne, trF(e->op(0)), fpsort(32)); break;
        case KSIToFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, trBV(e->op(0)), fpsort(e->w)); break;
        case KUIToFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, trBV(e->op(0)), fpsort(e->w)); break;
        case KIte: r = Z3_mk_ite(ctx, tr(e->op(0)), trF(e->op(1)), trF(e->op(2))); break;
        default: r = Z3_mk_fpa_to_fp_bv(ctx, tr(e), fpsort(e->w)); break;
    }
    Z3_inc_ref(ctx, r);
    fpCache[e->id] = r;
    return r;
}
static Z3_ast trunc_range(E e)
{
    // float -> int with x86 out-of-range behaviour
    E a = e->op(0);
    Z3_ast f = trF(a);
    unsigned w = e->w;
    unsigned cw = e->k == KFPToSI ? (w < 32 ? 32 : w) : (w <= 32 ? 64 : w);
    Z3_ast rtz = Z3_mk_fpa_rtz(ctx);
    Z3_ast bad, conv;
    auto lit = [&](double d) { return Z3_mk_fpa_numeral_double(ctx, d, fpsort(a->w)); };
    if (e->k == KFPToSI || cw != w || true) {
        bool sg = e->k == KFPToSI || w <= 32;
        if (sg) {
            double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
            Z3_ast lo;
            if (cw == 32 && a->w == 64) lo = Z3_mk_fpa_gt(ctx, f, lit(-lim - 1));
            else lo = Z3_mk_fpa_geq(ctx, f, lit(-lim));
            Z3_ast p[2] = {lo, Z3_mk_fpa_lt(ctx, f, lit(lim))};
            bad = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, p));
            conv = Z3_mk_fpa_to_sbv(ctx, rtz, f, cw);
        } else {
            Z3_ast p[2] = {Z3_mk_fpa_gt(ctx, f, lit(-1.0)), Z3_mk_fpa_lt(ctx, f, lit(18446744073709551616.0))};
            bad = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, p));
            conv = Z3_mk_fpa_to_ubv(ctx, rtz, f, cw);
        }
    }
    if (cw != w) {
        conv = Z3_mk_extract(ctx, w - 1, 0, conv);
        return Z3_mk_ite(ctx, bad, numeral(0, w), conv);
    }
    return Z3_mk_ite(ctx, bad, numeral((u128)1 << (w - 1), w), conv);
}
static Z3_ast tr(E e)
{
    if (bvCache.size() <= e->id) bvCache.resize(e->id + 1024, nullptr);
    if (bvCache[e->id]) return bvCache[e->id];
    Z3_ast r = nullptr;
    auto A = [&](int i) { return tr(e->op(i)); };
    if (isFPRes(e)) {
        r = Z3_mk_fpa_to_ieee_bv(ctx, trF(e));
    } else
        switch (e->k) {
            case KConst: r = numeral(e->val, e->w); break;
            case KVar: {
                r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), bv8);
                varAst[(u32)e->val] = r;
                break;
            }
            case KAdd: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
            case KSub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
            case KMul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
            case KUDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
            case KSDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
            case KURem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
            case KSRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
            case KAnd:
            case KOr: {
                Z3_ast p[2] = {A(0), A(1)};
                if (e->w == 1) r = e->k == KAnd ? Z3_mk_and(ctx, 2, p) : Z3_mk_or(ctx, 2, p);
                else r = e->k == KAnd ? Z3_mk_bvand(ctx, p[0], p[1]) : Z3_mk_bvor(ctx, p[0], p[1]);
                break;
            }
            case KXor:
                if (e->w == 1) {
                    if (e->op(1)->isc(1)) r = Z3_mk_not(ctx, A(0));
                    else r = Z3_mk_xor(ctx, A(0), A(1));
                } else if (e->op(1)->isc(maskw(e->w)))
                    r = Z3_mk_bvnot(ctx, A(0));
                else
                    r = Z3_mk_bvxor(ctx, A(0), A(1));
                break;
            case KShl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
            case KLShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
            case KAShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
            case KZExt: r = Z3_mk_zero_ext(ctx, e->w - e->op(0)->w, trBV(e->op(0))); break;
            case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->op(0)->w, trBV(e->op(0))); break;
            case KExtract:
                r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, trBV(e->op(0)));
                if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
                break;
            case KConcat: r = Z3_mk_concat(ctx, trBV(e->op(0)), trBV(e->op(1))); break;
            case KEq: r = Z3_mk_eq(ctx, A(0), A(1)); break;
            case KUlt: r = Z3_mk_bvult(ctx, A(0), A(1)); break;
            case KUle: r = Z3_mk_bvule(ctx, A(0), A(1)); break;
            case KSlt: r = Z3_mk_bvslt(ctx, A(0), A(1)); break;
            case KSle: r = Z3_mk_bvsle(ctx, A(0), A(1)); break;
            case KIte: r = Z3_mk_ite(ctx, A(0), A(1), A(2)); break;
            case KFOeq: r = Z3_mk_fpa_eq(ctx, trF(e->op(0)), trF(e->op(1))); break;
            case KFOlt: r = Z3_mk_fpa_lt(ctx, trF(e->op(0)), trF(e->op(1))); break;
            case KFOle: r = Z3_mk_fpa_leq(ctx, trF(e->op(0)), trF(e->op(1))); break;
            case KFUno: {
                Z3_ast p[2] = {Z3_mk_fpa_is_nan(ctx, trF(e->op(0))), Z3_mk_fpa_is_nan(ctx, trF(e->op(1)))};
                r = Z3_mk_or(ctx, 2, p);
                break;
            }
            case KFPToSI:
            case KFPToUI: r = trunc_range(e); break;
            default: fprintf(stderr, "tr: unsupported %d\n", e->k); abort();
        }
    Z3_inc_ref(ctx, r);
    if (bvCache.size() <= e->id) bvCache.resize(e->id + 1024, nullptr);
    bvCache[e->id] = r;
    return r;
}

struct CacheEnt { Res r; std::vector<std::pair<u32, u8>> asg; };
struct VecHash {
    size_t operator()(const std::vector<u32> &v) const
    {
        u64 h = 1469598103934665603ull;
        for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
};
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> cache;
static std::deque<ModelPtr> recent;
static std::vector<u32> varMark;
static u32 markGen = 0;

static void slice(const std::vector<E> &pc, E cond, std::vector<E> &out, std::vector<u32> &vs)
{
    if (varMark.size() < ex::nVars()) varMark.resize(ex::nVars() + 1024, 0);
    markGen++;
    vs.clear();
    for (u32 v : ex::vars(cond)) { varMark[v] = markGen; vs.push_back(v); }
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = pc.size(); i-- > 0;) {
            if (in[i]) continue;
            const auto &cv = ex::vars(pc[i]);
            bool hit = false;
            for (u32 v : cv) if (varMark[v] == markGen) { hit = true; break; }
            if (!hit) continue;
            in[i] = 1;
            out.push_back(pc[i]);
            for (u32 v : cv)
                if (varMark[v] != markGen) { varMark[v] = markGen; vs.push_back(v); ch = true; }
        }
    }
}

Res solve(const std::vector<E> &pc, E cond, const ModelPtr &base, ModelPtr &out)
{
    if (cond->isc(0)) return Unsat;
    sstats.queries++;
    if (ex::eval(cond, base.get())) { out = base; sstats.modelHits++; sstats.sat++; return Sat; }
    std::vector<E> cs;
    std::vector<u32> vs;
    slice(pc, cond, cs, vs);
    cs.push_back(cond);
    std::vector<u32> key;
    for (E e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto mkModel = [&](const std::vector<std::pair<u32, u8>> &asg) {
        auto m = std::make_shared<Model>(*base);
        if (m->v.size() < ex::nVars()) m->v.resize(ex::nVars(), 0);
        for (auto &p : asg) m->v[p.first] = p.second;
        return m;
    };
    auto it = cache.find(key);
    if (it != cache.end()) {
        sstats.cacheHits++;
        if (it->second.r == Sat) {
            out = mkModel(it->second.asg);
            sstats.sat++;
        } else if (it->second.r == Unsat)
            sstats.unsat++;
        return it->second.r;
    }
    // try recent models restricted to the slice
    for (auto &rm : recent) {
        if (rm == base) continue;
        bool ok = ex::eval(cond, rm.get()) != 0;
        for (size_t i = 0; ok && i < cs.size(); i++) ok = ex::eval(cs[i], rm.get()) != 0;
        if (ok) {
            std::vector<std::pair<u32, u8>> asg;
            for (u32 v : vs) asg.push_back({v, rm->get(v)});
            out = mkModel(asg);
            cache[key] = {Sat, asg};
            sstats.modelHits++;
            sstats.sat++;
            return Sat;
        }
    }
    init();
    auto t0 = std::chrono::steady_clock::now();
    const double left = solverDeadline - std::chrono::duration<double>(t0 - processStart).count();
    if (left <= 0) {
        sstats.unknown++;
        return Unknown;
    }
    bool fp = false;
    for (E e : cs) fp = fp || ex::hasFP(e);
    Z3_solver s = fp ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)std::min<double>(solverTimeoutMs, left * 1000 + 500));
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (E e : cs) Z3_solver_assert(ctx, s, tr(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    sstats.z3calls++;
    CacheEnt ce;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (u32 v : vs) {
            Z3_ast o = nullptr;
            u64 x = 0;
            auto va = varAst.find(v);
            if (va != varAst.end() && Z3_model_eval(ctx, m, va->second, true, &o)) {
                Z3_inc_ref(ctx, o);
                uint64_t y = 0;
                Z3_get_numeral_uint64(ctx, o, &y);
                x = y;
                Z3_dec_ref(ctx, o);
            }
            ce.asg.push_back({v, (u8)x});
        }
        Z3_model_dec_ref(ctx, m);
        ce.r = Sat;
        auto mm = mkModel(ce.asg);
        out = mm;
        // sanity: the model must satisfy the sliced constraints under our own evaluator
        for (E e : cs)
            if (!ex::eval(e, mm.get())) {
                fprintf(stderr, "symx: evaluator/solver mismatch on %s\n", ex::str(e, 12).c_str());
                if (!fp) abort();
                ce.r = Unknown;
                break;
            }
        if (ce.r == Sat) {
            recent.push_front(mm);
            if (recent.size() > 12) recent.pop_back();
            sstats.sat++;
        } else
            sstats.unknown++;
    } else if (r == Z3_L_FALSE) {
        ce.r = Unsat;
        sstats.unsat++;
    } else {
        ce.r = Unknown;
        sstats.unknown++;
    }
    Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.time += dt;
    if (dt > sstats.maxTime) sstats.maxTime = dt;
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) {
        fprintf(stderr, "slow query %.2fs (%d) %zu constraints, cond %s\n", dt, (int)ce.r, cs.size(), ex::str(cond, 5).c_str());
    }
    cache[key] = ce;
    return ce.r;
}
void dumpSmt(const std::vector<E> &pc, E cond, const char *file)
{
    init();
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    for (E e : pc) Z3_solver_assert(ctx, s, tr(e));
    Z3_solver_assert(ctx, s, tr(cond));
    FILE *f = fopen(file, "w");
    if (f) { fputs(Z3_solver_to_string(ctx, s), f); fclose(f); }
    Z3_solver_dec_ref(ctx, s);
}
