// symx: symbolic executor for LLVM IR (bounded, path-exploring, SMT-backed).
#include "expr.h"
#include "solver.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <unordered_map>
using namespace llvm;
using ex::C;

// ---------------------------------------------------------------- options
static u64 optMaxInst = 50'000'000;   // per path
static double optTime = 600;          // seconds
static u64 optMaxPaths = ~0ull;
static u64 optConcretizeCap = 2048;
static u64 optMaxDepth = 2000;
static u64 optMaxAlloc = 64ull << 20;
static u64 optMaxViol = 8;
static bool optFPAbstract = false;
static bool optVerbose = false;
static bool optTrace = false;
static std::vector<long long> optParams;
static std::set<std::string> optMergeFns;
static std::vector<std::string> optMergePats;

static Module *M;
static const DataLayout *DL;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

// ---------------------------------------------------------------- values
struct Val {
    E e = nullptr; // symbolic / wide / tuple; null => concrete c
    u64 c = 0;
    Val() {}
    Val(u64 x) : c(x) {}
    bool conc() const { return !e; }
    bool same(const Val &o) const { return e == o.e && c == o.c; }
};
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : C(v.c, w); }
static inline Val fromE(E e)
{
    Val v;
    if (e->k == KConst && e->w <= 64) v.c = (u64)e->val;
    else v.e = e;
    return v;
}

// ---------------------------------------------------------------- objects
enum ObjKind : u8 { OHeap, OStack, OGlobal, OConst, OFunc, OFreed, ODeadStack };
struct SymByte { E e; u8 idx; };
struct ObjData {
    u32 refs = 0;
    u32 size = 0;
    ObjKind kind = OHeap;
    u8 tag = 0; // 0 malloc 1 new 2 new[]
    const char *name = "";
    u8 *bytes = nullptr;
    SymByte *sym = nullptr;
    ~ObjData() { free(bytes); free(sym); }
    void needSym() { if (!sym) sym = (SymByte *)calloc(size ? size : 1, sizeof(SymByte)); }
};
struct ObjRef {
    ObjData *p = nullptr;
    ObjRef() {}
    explicit ObjRef(ObjData *d) : p(d) { if (p) p->refs++; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) p->refs++; }
    ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
constexpr unsigned PG = 64;
struct Page { ObjRef o[PG]; };
static u64 baseOf(u32 id) { return ((u64)(id + 1) << 32) | 0x10000; }
struct Memory {
    std::vector<std::shared_ptr<Page>> pages;
    u32 next = 0;
    ObjData *get(u32 id) const
    {
        u32 p = id / PG;
        if (p >= pages.size() || !pages[p]) return nullptr;
        return pages[p]->o[id % PG].p;
    }
    ObjRef &slot(u32 id)
    {
        u32 p = id / PG;
        if (p >= pages.size()) pages.resize(p + 1);
        if (!pages[p]) pages[p] = std::make_shared<Page>();
        else if (pages[p].use_count() > 1) pages[p] = std::make_shared<Page>(*pages[p]);
        return pages[p]->o[id % PG];
    }
    ObjData *writable(u32 id)
    {
        ObjRef &r = slot(id);
        if (r.p->refs > 1) {
            ObjData *d = new ObjData();
            d->size = r.p->size; d->kind = r.p->kind; d->name = r.p->name; d->tag = r.p->tag;
            d->bytes = (u8 *)malloc(d->size ? d->size : 1);
            memcpy(d->bytes, r.p->bytes, d->size);
            if (r.p->sym) {
                d->sym = (SymByte *)malloc(sizeof(SymByte) * (d->size ? d->size : 1));
                memcpy(d->sym, r.p->sym, sizeof(SymByte) * d->size);
            }
            r = ObjRef(d);
        }
        return r.p;
    }
    u32 alloc(u64 size, ObjKind k, const char *name, u8 fill)
    {
        u32 id = next++;
        ObjData *d = new ObjData();
        d->size = (u32)size;
        d->kind = k;
        d->name = name;
        d->bytes = (u8 *)malloc(size ? size : 1);
        memset(d->bytes, fill, size);
        slot(id) = ObjRef(d);
        return id;
    }
    void kill(u32 id, ObjKind k)
    {
        ObjData *o = get(id);
        ObjData *d = new ObjData();
        d->size = o->size; d->kind = k; d->name = o->name;
        d->bytes = (u8 *)malloc(1);
        slot(id) = ObjRef(d);
        d->size = 0;
    }
};

// ---------------------------------------------------------------- code
struct Opnd { int slot = -1; Val c; };
struct IInst {
    Instruction *I = nullptr;
    unsigned op = 0;
    int dst = -1;
    u16 w = 0;   // result width
    u16 w0 = 0;  // operand 0 width
    bool simple = true; // scalar types only
    std::vector<Opnd> ops;
    // branches
    std::vector<std::pair<int, int>> succ; // (block, predIdx)
    std::vector<u64> caseVal;
    std::vector<int> caseSucc;
    // gep
    u64 gepOff = 0;
    std::vector<std::pair<int, u64>> gepIdx; // operand index, scale
    std::vector<unsigned> gepW;
    // calls
    Function *callee = nullptr;
    int ext = -1; // external handler idx
    u64 size = 0; // load/store/alloca size
    unsigned pred = 0;
};
struct IBlock {
    std::vector<IInst> insts;
    std::vector<int> phiDst;
    std::vector<std::vector<Opnd>> phiOps; // per pred
    BasicBlock *BB;
};
struct IFunc {
    Function *F;
    std::vector<IBlock> blocks;
    int nslots = 0;
    std::vector<u16> slotW;
    bool merge = false;
    u64 calls = 0;
    std::string name;
};

struct Group;
struct Frame {
    IFunc *f;
    int bb = 0, ip = 0;
    std::vector<Val> slots;
    std::vector<u32> allocas;
    bool mergeOnRet = false;
    std::vector<Val> varargs;
};
struct Input { std::string name; std::vector<u32> vars; };
struct State {
    u64 id;
    std::vector<Frame> stack;
    Memory mem;
    std::vector<E> pc;
    std::unordered_map<const Expr *, bool> known;
    ModelPtr model;
    u64 insts = 0;
    u64 chain = 0;          // consecutive concretisations at one instruction
    const IInst *chainAt = nullptr;
    std::map<std::string, int> nameCount;
    std::vector<std::shared_ptr<Input>> inputs;
    std::vector<std::pair<u64, u64>> excType; // exception object -> typeinfo address
    std::vector<u64> caught;
    u64 pendExc = 0, pendSel = 0;
    std::vector<std::shared_ptr<Group>> groups;
    bool fpabs = false;
    std::vector<std::string> reachLog;
    bool merged = false;
};
struct Group {
    u64 outstanding = 1;
    std::vector<State *> parked;
};

static std::vector<State *> work;
static std::unordered_map<Function *, IFunc *> ifuncs;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u32, Function *> funcOf;
static std::unordered_map<u32, const GlobalVariable *> gvOf;
static u64 stateIds = 0;

// statistics
static u64 nInst = 0, nPathsDone = 0, nPathsAssume = 0, nForks = 0, nErrors = 0, nMerges = 0, nAsserts = 0, nAssertQueries = 0, nMemChecks = 0;
static bool incomplete = false;
static std::map<std::string, u64> incompleteWhy;
static std::map<std::string, u64> reached;
static std::map<std::string, u64> unmodelled;
struct Violation { std::string kind, msg, loc, trace; std::vector<std::pair<std::string, std::vector<u8>>> inputs; };
static std::vector<Violation> violations;
static std::map<std::string, u64> violKeys;
struct Sample { std::vector<std::pair<std::string, std::vector<u8>>> inputs; std::vector<std::string> reach; bool merged; };
static std::vector<Sample> samples;
static u64 optSamples = 0, sampleSeen = 0, sampleRng = 88172645463325252ull;

struct Kill {};               // terminate the current state silently
struct Fork {};               // current instruction must be re-executed (state already updated)
static State *cur;

static std::string dem(StringRef n) { return demangle(n.str()); }
static std::string shortLoc(const DILocation *L)
{
    std::string s;
    while (L) {
        if (!s.empty()) s += " <- ";
        auto *sp = L->getScope()->getSubprogram();
        StringRef fn = L->getFilename();
        size_t p = fn.rfind('/');
        if (p != StringRef::npos) fn = fn.substr(p + 1);
        s += (sp ? sp->getName().str() : "?") + "@" + fn.str() + ":" + std::to_string(L->getLine());
        L = L->getInlinedAt();
    }
    return s;
}
static const IInst *curInst(const Frame &f)
{
    auto &b = f.f->blocks[f.bb];
    if (f.ip < (int)b.insts.size()) return &b.insts[f.ip];
    return nullptr;
}
static std::string stackTrace(State &s, bool top = false)
{
    std::string r;
    for (size_t i = s.stack.size(); i-- > 0;) {
        auto &f = s.stack[i];
        const IInst *in = curInst(f);
        std::string l = in && in->I->getDebugLoc() ? shortLoc(in->I->getDebugLoc().get()) : "";
        std::string n = dem(f.f->F->getName());
        if (n.size() > 120) n = n.substr(0, 120) + "...";
        r += n + " [" + l + "]\n";
        if (top) break;
    }
    return r;
}
static std::string curLoc(State &s)
{
    // innermost location outside the C++ standard library
    for (size_t i = s.stack.size(); i-- > 0;) {
        const IInst *in = curInst(s.stack[i]);
        if (!in) continue;
        for (const DILocation *L = in->I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
            StringRef d = L->getFilename();
            StringRef dir = L->getDirectory();
            if (d.contains("/c++/") || d.contains("rt.cpp") || d.contains("bits/") || dir.contains("/c++/")) continue;
            size_t p = d.rfind('/');
            auto *sp = L->getScope()->getSubprogram();
            return (sp ? sp->getName().str() : "?") + std::string("@") + (p == StringRef::npos ? d : d.substr(p + 1)).str() + ":" + std::to_string(L->getLine());
        }
    }
    return "?";
}
static void setIncomplete(const std::string &why)
{
    incomplete = true;
    incompleteWhy[why]++;
}
static std::string extraTrace;
static void report(State &s, const std::string &kind, const std::string &msg, const ModelPtr &m)
{
    nErrors++;
    std::string loc = curLoc(s);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
    u64 n = violKeys[key]++;
    if (n >= optMaxViol) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.loc = loc; v.trace = stackTrace(s) + extraTrace;
    for (auto &in : s.inputs) {
        std::vector<u8> b;
        for (u32 x : in->vars) b.push_back(m->get(x));
        v.inputs.push_back({in->name, b});
    }
    violations.push_back(v);
    if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), v.trace.c_str());
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg)
{
    report(s, kind, msg, s.model);
    extraTrace.clear();
    throw Kill{};
}
[[noreturn]] static void unsupported(State &s, const std::string &msg)
{
    unmodelled[msg]++;
    setIncomplete("unmodelled: " + msg);
    if (optVerbose) fprintf(stderr, "UNMODELLED %s\n%s", msg.c_str(), stackTrace(s).c_str());
    throw Kill{};
}

// ---------------------------------------------------------------- path conditions
static void addConstraint(State &s, E c)
{
    if (c->isc()) return;
    if (c->k == KAnd && c->w == 1) {
        addConstraint(s, c->op(0));
        addConstraint(s, c->op(1));
        return;
    }
    if (s.known.count(c)) return;
    s.pc.push_back(c);
    s.known[c] = true;
    E n = ex::Not(c);
    s.known[n] = false;
}
static State *cloneState(State &s)
{
    State *t = new State(s);
    t->id = ++stateIds;
    for (auto &g : t->groups) g->outstanding++;
    nForks++;
    return t;
}
// 0: false, 1: true, -1: unknown without solver
static int quick(State &s, E c)
{
    if (c->isc()) return c->val != 0;
    auto it = s.known.find(c);
    if (it != s.known.end()) return it->second;
    return -1;
}
// decide condition; may fork (the clone takes the other side and re-executes the instruction)
static bool mustCheck(State &s, E c, ModelPtr &other)
{
    // returns true when !v is feasible
    Res r = solve(s.pc, c, s.model, other);
    if (r == Unknown) { setIncomplete("solver unknown"); return false; }
    return r == Sat;
}
static bool decideFork(State &s, E c)
{
    int q = quick(s, c);
    if (q >= 0) return q;
    bool v = ex::eval(c, s.model.get()) != 0;
    E mine = v ? c : ex::Not(c), oth = v ? ex::Not(c) : c;
    ModelPtr om;
    if (mustCheck(s, oth, om)) {
        State *t = cloneState(s);
        addConstraint(*t, oth);
        t->model = om;
        work.push_back(t);
    }
    addConstraint(s, mine);
    return v;
}
static u64 concretize(State &s, const Val &v, unsigned w)
{
    if (v.conc()) return v.c;
    E e = v.e;
    if (e->w > 64) unsupported(s, "concretize wide");
    u64 x = (u64)ex::eval(e, s.model.get());
    E eq = ex::Eq(e, C(x, e->w));
    int q = quick(s, eq);
    if (q == 1) return x;
    const IInst *at = curInst(s.stack.back());
    if (s.chainAt == at) s.chain++;
    else { s.chainAt = at; s.chain = 0; }
    if (s.chain > optConcretizeCap) {
        setIncomplete("concretisation cap at " + curLoc(s));
        throw Kill{};
    }
    ModelPtr om;
    if (mustCheck(s, ex::Not(eq), om)) {
        State *t = cloneState(s);
        addConstraint(*t, ex::Not(eq));
        t->model = om;
        work.push_back(t);
    }
    addConstraint(s, eq);
    return x;
}
// assume c on the current path or kill it
static void assumeC(State &s, E c)
{
    int q = quick(s, c);
    if (q == 1) return;
    if (q == 0) { nPathsAssume++; throw Kill{}; }
    if (!ex::eval(c, s.model.get())) {
        ModelPtr om;
        Res r = solve(s.pc, c, s.model, om);
        if (r == Unknown) { setIncomplete("solver unknown"); throw Kill{}; }
        if (r == Unsat) { nPathsAssume++; throw Kill{}; }
        s.model = om;
    }
    addConstraint(s, c);
}

// ---------------------------------------------------------------- memory access
static std::string objName(State &s, u32 id)
{
    ObjData *o = s.mem.get(id);
    if (!o) return "unknown object";
    std::string n = o->name ? o->name : "";
    return n + "(" + std::to_string(o->size) + " bytes)";
}
static E byteExpr(const ObjData *o, u32 off)
{
    if (o->sym && o->sym[off].e) {
        const SymByte &b = o->sym[off];
        if (b.e->w == 8) return b.e;
        if (b.e->w < 8) return ex::ZExt(b.e, 8);
        return ex::Extract(b.e, b.idx * 8, 8);
    }
    return C(o->bytes[off], 8);
}
static Val readBytes(const ObjData *o, u32 off, unsigned n)
{
    bool sy = false;
    if (o->sym)
        for (unsigned i = 0; i < n; i++)
            if (o->sym[off + i].e) { sy = true; break; }
    if (!sy && n <= 8) {
        u64 v = 0;
        memcpy(&v, o->bytes + off, n);
        return Val(v);
    }
    if (sy) {
        E e = o->sym[off].e;
        if (e && o->sym[off].idx == 0 && e->w == n * 8) {
            bool all = true;
            for (unsigned i = 1; i < n; i++)
                if (o->sym[off + i].e != e || o->sym[off + i].idx != i) { all = false; break; }
            if (all) return fromE(e);
        }
    }
    E r = byteExpr(o, off);
    for (unsigned i = 1; i < n; i++) r = ex::Concat(byteExpr(o, off + i), r);
    return fromE(r);
}
static void writeBytes(ObjData *o, u32 off, unsigned n, const Val &v)
{
    if (v.conc()) {
        memcpy(o->bytes + off, &v.c, n);
        if (o->sym)
            for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr;
        return;
    }
    if (v.e->k == KConst) {
        u128 x = v.e->val;
        memcpy(o->bytes + off, &x, n);
        if (o->sym)
            for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr;
        return;
    }
    o->needSym();
    E e = v.e;
    if (e->w < n * 8) e = ex::ZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        // constant bytes inside a symbolic word stay concrete
        E b = ex::Extract(e, i * 8, 8);
        if (b->isc()) { o->bytes[off + i] = (u8)b->val; o->sym[off + i].e = nullptr; }
        else if (b->k == KVar) { o->sym[off + i] = {b, 0}; }
        else o->sym[off + i] = {e, (u8)i};
    }
}
struct Loc { u32 id; Val off; };
static void checkAlive(State &s, u32 id, bool write, u64 addr)
{
    ObjData *o = s.mem.get(id);
    char b[64];
    snprintf(b, 64, "0x%llx", (unsigned long long)addr);
    if (addr < (1ull << 32)) fail(s, "memory", std::string(write ? "write" : "read") + " through null/invalid pointer");
    if (!o) fail(s, "memory", std::string("access through invalid pointer"));
    if (o->kind == OFreed) fail(s, "memory", std::string(write ? "write to" : "read of") + " freed memory");
    if (o->kind == ODeadStack) fail(s, "memory", std::string(write ? "write to" : "read of") + " dead stack object");
    if (o->kind == OFunc) fail(s, "memory", "data access to function");
    if (write && o->kind == OConst) fail(s, "memory", "write to constant " + objName(s, id));
}
static Loc resolve(State &s, const Val &addr, u64 n, bool write)
{
    if (addr.conc()) {
        u32 id = (u32)(addr.c >> 32) - 1;
        checkAlive(s, id, write, addr.c);
        ObjData *o = s.mem.get(id);
        u64 off = addr.c - baseOf(id);
        if (off > o->size || n > o->size - off)
            fail(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + objName(s, id));
        return {id, Val(off)};
    }
    E A = addr.e;
    // lift ite-pointers
    while (A->k == KIte) A = decideFork(s, A->op(0)) ? A->op(1) : A->op(2);
    if (A->isc()) return resolve(s, fromE(A), n, write);
    u32 id;
    if (A->k == KAdd && A->op(1)->isc() && (u64)(A->op(1)->val >> 32) != 0 && (u64)(A->op(1)->val >> 32) < 0x80000000ull &&
        s.mem.get((u32)((u64)A->op(1)->val >> 32) - 1)) {
        id = (u32)((u64)A->op(1)->val >> 32) - 1;
    } else {
        u64 v = (u64)ex::eval(A, s.model.get());
        id = (u32)(v >> 32) - 1;
        E in = ex::Eq(ex::Extract(A, 32, 32), C(v >> 32, 32));
        decideFork(s, in);
        checkAlive(s, id, write, v);
    }
    checkAlive(s, id, write, baseOf(id));
    ObjData *o = s.mem.get(id);
    E off = ex::Sub(A, C(baseOf(id), 64));
    nMemChecks++;
    if (n > o->size) fail(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes of " + objName(s, id));
    E ok = ex::Ule(off, C(o->size - n, 64));
    int q = quick(s, ok);
    if (q != 1) {
        ModelPtr om;
        Res r = q == 0 ? Sat : solve(s.pc, ex::Not(ok), s.model, om);
        if (q == 0) om = s.model;
        if (r == Unknown) setIncomplete("solver unknown (bounds)");
        if (r == Sat) {
            u64 ov = (u64)ex::eval(off, om.get());
            (void)ov;
            report(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes of " + objName(s, id) + " at symbolic offset", om);
        }
        assumeC(s, ok);
    }
    return {id, fromE(off)};
}
// enumerate candidate offsets for a symbolic offset
static bool candidates(State &s, E off, u64 size, u64 n, std::vector<u64> &out, u64 cap)
{
    u64 m, r;
    ex::congruence(off, m, r);
    u64 hi = size - n, lo = 0;
    if (off->act < 63) hi = std::min(hi, (u64)maskw(off->act));
    if (m == 0) { out.push_back(r); return true; }
    r %= m;
    auto cnt = [&]() { return hi < r ? 0 : (hi - lo) / m + 1; };
    if (cnt() > 24) {
        // tighten with the solver
        ModelPtr om;
        u64 v = (u64)ex::eval(off, s.model.get());
        u64 a = v, b = hi; // max in [a,b]
        u64 step = m;
        // exponential then binary
        while (a < b) {
            u64 mid = std::min(b - 1, a + step - 1);
            Res q = solve(s.pc, ex::Ult(C(mid, 64), off), s.model, om);
            if (q == Sat) { a = std::max(mid + 1, (u64)ex::eval(off, om.get())); step *= 4; }
            else if (q == Unsat) { b = mid; if (step > m) step = std::max<u64>(m, (b - a) / 2 + 1); else break; }
            else break;
        }
        hi = b;
        b = v; a = lo; step = m; // min in [a,b]
        while (a < b) {
            u64 mid = b - std::min(b - a, step); // is there off <= mid?
            Res q = solve(s.pc, ex::Ule(off, C(mid, 64)), s.model, om);
            if (q == Sat) { b = std::min(mid, (u64)ex::eval(off, om.get())); step *= 4; }
            else if (q == Unsat) { a = mid + 1; if (step > m) step = std::max<u64>(m, (b - a) / 2 + 1); else break; }
            else break;
        }
        lo = a;
    }
    u64 first = lo <= r ? r : r + (lo - r + m - 1) / m * m;
    for (u64 x = first; x <= hi; x += m) {
        out.push_back(x);
        if (out.size() > cap) return false;
    }
    return true;
}
static Val loadN(State &s, const Val &addr, unsigned n)
{
    Loc l = resolve(s, addr, n, false);
    ObjData *o = s.mem.get(l.id);
    if (l.off.conc()) return readBytes(o, (u32)l.off.c, n);
    std::vector<u64> cs;
    if (!candidates(s, l.off.e, o->size, n, cs, 20000)) {
        u64 off = concretize(s, l.off, 64);
        return readBytes(o, (u32)off, n);
    }
    if (cs.empty()) { setIncomplete("no candidate offset"); throw Kill{}; }
    E v = toE(readBytes(o, (u32)cs.back(), n), n * 8);
    for (size_t i = cs.size() - 1; i-- > 0;)
        v = ex::Ite(ex::Eq(l.off.e, C(cs[i], 64)), toE(readBytes(o, (u32)cs[i], n), n * 8), v);
    return fromE(v);
}
static void storeN(State &s, const Val &addr, unsigned n, const Val &v)
{
    Loc l = resolve(s, addr, n, true);
    if (l.off.conc()) {
        writeBytes(s.mem.writable(l.id), (u32)l.off.c, n, v);
        return;
    }
    std::vector<u64> cs;
    ObjData *o = s.mem.get(l.id);
    if (!candidates(s, l.off.e, o->size, n, cs, 600)) {
        u64 off = concretize(s, l.off, 64);
        writeBytes(s.mem.writable(l.id), (u32)off, n, v);
        return;
    }
    o = s.mem.writable(l.id);
    E ve = toE(v, n * 8);
    if (ve->w < n * 8) ve = ex::ZExt(ve, n * 8);
    for (u64 c : cs) {
        E old = toE(readBytes(o, (u32)c, n), n * 8);
        E nv = ex::Ite(ex::Eq(l.off.e, C(c, 64)), ve, old);
        if (nv != old) writeBytes(o, (u32)c, n, fromE(nv));
    }
}
static std::string readCStr(State &s, u64 a)
{
    std::string r;
    u32 id = (u32)(a >> 32) - 1;
    ObjData *o = s.mem.get(id);
    if (!o || a < (1ull << 32)) return "";
    for (u64 off = a - baseOf(id); off < o->size && o->bytes[off] && !(o->sym && o->sym[off].e); off++) r += (char)o->bytes[off];
    return r;
}

// ---------------------------------------------------------------- types
static unsigned tw(Type *t)
{
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isHalfTy()) return 16;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFP128Ty()) return 128;
    return 0;
}
static bool isAgg(Type *t) { return t->isAggregateType() || t->isVectorTy(); }
static unsigned aggN(Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) return st->getNumElements();
    if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type *aggT(Type *t, unsigned i)
{
    if (auto *st = dyn_cast<StructType>(t)) return st->getElementType(i);
    if (auto *at = dyn_cast<ArrayType>(t)) return at->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 aggOff(Type *t, unsigned i)
{
    if (auto *st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
    Type *et = aggT(t, i);
    if (t->isVectorTy()) return i * (u64)((tw(et) + 7) / 8);
    return i * DL->getTypeAllocSize(et).getFixedValue();
}
static Val addOff(const Val &a, u64 o) { return a.conc() ? Val(a.c + o) : fromE(ex::Add(a.e, C(o, 64))); }
static Val loadT(State &s, const Val &a, Type *t)
{
    if (isAgg(t)) {
        std::vector<E> v;
        for (unsigned i = 0; i < aggN(t); i++) {
            Type *et = aggT(t, i);
            Val x = loadT(s, addOff(a, aggOff(t, i)), et);
            v.push_back(isAgg(et) ? x.e : toE(x, tw(et)));
        }
        Val r;
        r.e = ex::Tuple(v);
        return r;
    }
    unsigned w = tw(t), n = (w + 7) / 8;
    Val v = loadN(s, a, n);
    if (w != n * 8) {
        if (v.conc()) v.c &= (u64)maskw(w);
        else v = fromE(ex::Extract(v.e, 0, w));
    }
    return v;
}
static void storeT(State &s, const Val &a, Type *t, const Val &v)
{
    if (isAgg(t)) {
        for (unsigned i = 0; i < aggN(t); i++) storeT(s, addOff(a, aggOff(t, i)), aggT(t, i), isAgg(aggT(t, i)) ? Val(fromE(v.e->op(i))) : fromE(v.e->op(i)));
        return;
    }
    unsigned w = tw(t), n = (w + 7) / 8;
    if (!v.conc() && w != n * 8) { storeN(s, a, n, fromE(ex::ZExt(v.e, n * 8))); return; }
    storeN(s, a, n, v);
}
static E zeroOf(Type *t)
{
    if (isAgg(t)) {
        std::vector<E> v;
        for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroOf(aggT(t, i)));
        return ex::Tuple(v);
    }
    return C(0, tw(t));
}
static u64 addrOf(const GlobalValue *g);
static Val evalConst(Constant *c)
{
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (t->isVectorTy()) {} 
        const APInt &a = ci->getValue();
        if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
        u128 v = a.getRawData()[0];
        if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
        if (a.getBitWidth() > 128) { Val x; x.e = C(0, 128); return x; }
        return fromE(C(v, a.getBitWidth()));
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
        u128 v = a.getRawData()[0];
        if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
        return fromE(C(v, a.getBitWidth()));
    }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (isAgg(t)) { Val v; v.e = zeroOf(t); return v; }
        return fromE(C(0, tw(t)));
    }
    if (auto *g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
    if (isAgg(t)) {
        std::vector<E> v;
        for (unsigned i = 0; i < aggN(t); i++) {
            Constant *x = c->getAggregateElement(i);
            Val xv = evalConst(x);
            v.push_back(isAgg(aggT(t, i)) ? xv.e : toE(xv, tw(aggT(t, i))));
        }
        Val r;
        r.e = ex::Tuple(v);
        return r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                    Val b = evalConst(cast<Constant>(ce->getOperand(0)));
                    return Val(b.c + off.getZExtValue());
                }
                break;
            }
            case Instruction::BitCast:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::AddrSpaceCast: {
                Val b = evalConst(cast<Constant>(ce->getOperand(0)));
                unsigned w = tw(t);
                if (w < 64) b.c &= (u64)maskw(w);
                return b;
            }
            case Instruction::Add: case Instruction::Sub: {
                Val a = evalConst(cast<Constant>(ce->getOperand(0))), b = evalConst(cast<Constant>(ce->getOperand(1)));
                u64 r = ce->getOpcode() == Instruction::Add ? a.c + b.c : a.c - b.c;
                return Val(r & (u64)maskw(tw(t)));
            }
            case Instruction::Trunc: {
                Val a = evalConst(cast<Constant>(ce->getOperand(0)));
                return Val(a.c & (u64)maskw(tw(t)));
            }
            case Instruction::ICmp: {
                const u64 a = evalConst(cast<Constant>(ce->getOperand(0))).c, b = evalConst(cast<Constant>(ce->getOperand(1))).c;
                switch (ce->getPredicate()) {
                    case CmpInst::ICMP_EQ: return Val(a == b);
                    case CmpInst::ICMP_NE: return Val(a != b);
                    case CmpInst::ICMP_ULT: return Val(a < b);
                    case CmpInst::ICMP_ULE: return Val(a <= b);
                    case CmpInst::ICMP_UGT: return Val(a > b);
                    case CmpInst::ICMP_UGE: return Val(a >= b);
                    default: break;
                }
                break;
            }
            default: break;
        }
    }
    if (isa<DSOLocalEquivalent>(c) || isa<NoCFIValue>(c)) return evalConst(cast<Constant>(c->getOperand(0)));
    std::string str;
    raw_string_ostream os(str);
    c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", str.c_str());
    unmodelled["constant"]++;
    return Val(0);
}
static u64 addrOf(const GlobalValue *g)
{
    if (auto *a = dyn_cast<GlobalAlias>(g)) {
        auto *b = a->getAliaseeObject();
        Val v = evalConst(const_cast<Constant *>(a->getAliasee()));
        (void)b;
        return v.c;
    }
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); exit(3); }
    return it->second;
}
static void initMem(ObjData *o, u64 off, Constant *c)
{
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(o->bytes + off, r.data(), r.size());
        return;
    }
    if (isAgg(t)) {
        for (unsigned i = 0; i < aggN(t); i++) initMem(o, off + aggOff(t, i), c->getAggregateElement(i));
        return;
    }
    Val v = evalConst(c);
    unsigned n = (tw(t) + 7) / 8;
    writeBytes(o, (u32)off, n, v);
}

// ---------------------------------------------------------------- external functions
typedef Val (*ExtFn)(State &, const IInst &, std::vector<Val> &);
static std::vector<std::pair<std::string, ExtFn>> extTable;
static std::unordered_map<std::string, int> extIdx;
static IFunc *getIFunc(Function *F);
static void pushCall(State &s, Function *F, std::vector<Val> &args);
static void unwind(State &s, u64 exc);

// ---------------------------------------------------------------- preprocess
static IFunc *getIFunc(Function *F)
{
    auto it = ifuncs.find(F);
    if (it != ifuncs.end()) return it->second;
    auto *r = new IFunc;
    r->F = F;
    r->name = F->getName().str();
    ifuncs[F] = r;
    std::unordered_map<Value *, int> slot;
    auto mk = [&](Value *v) {
        int n = r->nslots++;
        slot[v] = n;
        r->slotW.push_back(isAgg(v->getType()) ? 0 : tw(v->getType()));
        return n;
    };
    for (auto &a : F->args()) mk(&a);
    std::unordered_map<BasicBlock *, int> bi;
    for (auto &B : *F) {
        int n = bi.size();
        bi[&B] = n;
        for (auto &I : B)
            if (!I.getType()->isVoidTy()) mk(&I);
    }
    auto opnd = [&](Value *v) {
        Opnd o;
        auto f = slot.find(v);
        if (f != slot.end()) o.slot = f->second;
        else if (auto *c = dyn_cast<Constant>(v)) o.c = evalConst(c);
        return o;
    };
    r->blocks.resize(bi.size());
    std::unordered_map<BasicBlock *, std::unordered_map<BasicBlock *, int>> predIdx;
    for (auto &B : *F) {
        auto &m = predIdx[&B];
        for (auto *P : predecessors(&B))
            if (!m.count(P)) { int n = m.size(); m[P] = n; }
    }
    for (auto &B : *F) {
        IBlock &ib = r->blocks[bi[&B]];
        ib.BB = &B;
        auto &pm = predIdx[&B];
        ib.phiOps.resize(pm.size());
        for (auto &P : B.phis()) {
            ib.phiDst.push_back(slot[&P]);
            std::vector<Opnd> po(pm.size());
            for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
                auto f = pm.find(P.getIncomingBlock(i));
                if (f != pm.end()) po[f->second] = opnd(P.getIncomingValue(i));
            }
            for (size_t i = 0; i < po.size(); i++) ib.phiOps[i].push_back(po[i]);
        }
        for (auto &I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            IInst in;
            in.I = &I;
            in.op = I.getOpcode();
            if (!I.getType()->isVoidTy()) {
                in.dst = slot[&I];
                in.w = isAgg(I.getType()) ? 0 : tw(I.getType());
                if (isAgg(I.getType())) in.simple = false;
            }
            if (I.getNumOperands() && !I.getOperand(0)->getType()->isLabelTy() && !I.getOperand(0)->getType()->isMetadataTy()) {
                Type *t0 = I.getOperand(0)->getType();
                if (isAgg(t0)) in.simple = false;
                else in.w0 = tw(t0);
            }
            auto addSucc = [&](BasicBlock *S) { in.succ.push_back({bi[S], predIdx[S][&B]}); };
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                    switch (II->getIntrinsicID()) {
                        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                        case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: continue;
                        default: break;
                    }
                }
                for (auto &a : cb->args()) {
                    if (a->getType()->isMetadataTy()) { in.ops.push_back(Opnd()); continue; }
                    in.ops.push_back(opnd(a));
                }
                Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto *CF = dyn_cast<Function>(cv)) {
                    in.callee = CF;
                    if (Function *ov = M->getFunction("sx_override." + CF->getName().str())) in.callee = ov;
                    auto f = extIdx.find(in.callee->getName().str());
                    if (f != extIdx.end()) in.ext = f->second;
                } else
                    in.ops.push_back(opnd(cb->getCalledOperand())); // indirect target last
                if (auto *iv = dyn_cast<InvokeInst>(&I)) {
                    addSucc(iv->getNormalDest());
                    addSucc(iv->getUnwindDest());
                }
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) in.ops.push_back(opnd(br->getCondition()));
                for (unsigned i = 0; i < br->getNumSuccessors(); i++) addSucc(br->getSuccessor(i));
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                in.ops.push_back(opnd(sw->getCondition()));
                addSucc(sw->getDefaultDest());
                for (auto &c : sw->cases()) {
                    in.caseVal.push_back(c.getCaseValue()->getZExtValue());
                    std::pair<int, int> sp{bi[c.getCaseSuccessor()], predIdx[c.getCaseSuccessor()][&B]};
                    int idx = -1;
                    for (size_t k = 0; k < in.succ.size(); k++) if (in.succ[k] == sp) idx = k;
                    if (idx < 0) { idx = in.succ.size(); in.succ.push_back(sp); }
                    in.caseSucc.push_back(idx);
                }
            } else {
                for (auto &o : I.operands()) in.ops.push_back(opnd(o));
            }
            if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
                if (gep->getType()->isVectorTy()) in.simple = false;
                unsigned oi = 1;
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++oi) {
                    Value *idx = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) {
                        in.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        u64 sc = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                        if (auto *ci = dyn_cast<ConstantInt>(idx)) in.gepOff += (u64)ci->getSExtValue() * sc;
                        else { in.gepIdx.push_back({(int)oi, sc}); in.gepW.push_back(tw(idx->getType())); }
                    }
                }
            }
            if (auto *ic = dyn_cast<CmpInst>(&I)) in.pred = ic->getPredicate();
            if (auto *al = dyn_cast<AllocaInst>(&I)) in.size = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            if (auto *ld = dyn_cast<LoadInst>(&I)) in.size = (tw(ld->getType()) + 7) / 8;
            if (auto *st = dyn_cast<StoreInst>(&I)) in.size = (tw(st->getValueOperand()->getType()) + 7) / 8;
            ib.insts.push_back(std::move(in));
        }
    }
    if (!optMergePats.empty()) {
        std::string d = demangle(r->name);
        for (auto &p : optMergePats)
            if (d.find(p) != std::string::npos) r->merge = true;
    }
    return r;
}

static inline Val getv(State &s, const Opnd &o) { return o.slot >= 0 ? s.stack.back().slots[o.slot] : o.c; }
static inline void setv(State &s, const IInst &in, const Val &v)
{
    if (in.dst >= 0) s.stack.back().slots[in.dst] = v;
}
static void jump(State &s, std::pair<int, int> to)
{
    Frame &f = s.stack.back();
    IBlock &b = f.f->blocks[to.first];
    if (!b.phiDst.empty()) {
        auto &po = b.phiOps[to.second];
        if (po.size() == 1) {
            f.slots[b.phiDst[0]] = getv(s, po[0]);
        } else {
            Val tmp[64];
            std::vector<Val> big;
            Val *t = tmp;
            if (po.size() > 64) { big.resize(po.size()); t = big.data(); }
            for (size_t i = 0; i < po.size(); i++) t[i] = getv(s, po[i]);
            for (size_t i = 0; i < po.size(); i++) f.slots[b.phiDst[i]] = t[i];
        }
    }
    f.bb = to.first;
    f.ip = 0;
}

// ---------------------------------------------------------------- merging
static bool sameInputs(State &a, State &b)
{
    if (a.inputs.size() != b.inputs.size()) return false;
    for (size_t i = 0; i < a.inputs.size(); i++)
        if (a.inputs[i] != b.inputs[i] && (a.inputs[i]->name != b.inputs[i]->name || a.inputs[i]->vars != b.inputs[i]->vars)) return false;
    return a.nameCount == b.nameCount;
}
static bool tryMerge(State &a, State &b) // merge b into a
{
    if (a.stack.size() != b.stack.size() || a.mem.next != b.mem.next) return false;
    if (a.caught != b.caught || a.excType != b.excType || a.groups != b.groups) return false;
    if (!sameInputs(a, b)) return false;
    for (size_t i = 0; i < a.stack.size(); i++) {
        auto &x = a.stack[i], &y = b.stack[i];
        if (x.f != y.f || x.bb != y.bb || x.ip != y.ip || x.allocas != y.allocas || x.mergeOnRet != y.mergeOnRet) return false;
    }
    size_t np = a.mem.pages.size();
    if (np != b.mem.pages.size()) return false;
    std::vector<u32> diff;
    for (size_t p = 0; p < np; p++) {
        if (a.mem.pages[p] == b.mem.pages[p]) continue;
        for (unsigned i = 0; i < PG; i++) {
            ObjData *x = a.mem.get(p * PG + i), *y = b.mem.get(p * PG + i);
            if (x == y) continue;
            if (!x || !y || x->size != y->size || x->kind != y->kind) return false;
            if (x->kind == OFreed || x->kind == ODeadStack) continue;
            diff.push_back(p * PG + i);
        }
    }
    size_t k = 0;
    while (k < a.pc.size() && k < b.pc.size() && a.pc[k] == b.pc[k]) k++;
    E ca = ex::T(), cb = ex::T();
    for (size_t i = k; i < a.pc.size(); i++) ca = ex::And(ca, a.pc[i]);
    for (size_t i = k; i < b.pc.size(); i++) cb = ex::And(cb, b.pc[i]);
    // choose the simpler side as selector
    auto sel = [&](const Val &x, const Val &y, unsigned w) -> Val {
        if (x.same(y)) return x;
        return fromE(ex::Ite(ca, toE(x, w), toE(y, w)));
    };
    for (size_t i = 0; i < a.stack.size(); i++) {
        auto &x = a.stack[i], &y = b.stack[i];
        for (size_t j = 0; j < x.slots.size(); j++) {
            if (x.slots[j].same(y.slots[j])) continue;
            unsigned w = x.f->slotW[j];
            if (w == 0) {
                if (!x.slots[j].e || !y.slots[j].e) { if (!x.slots[j].e) x.slots[j] = y.slots[j]; continue; }
                Val v;
                v.e = ex::Ite(ca, x.slots[j].e, y.slots[j].e);
                x.slots[j] = v;
                continue;
            }
            x.slots[j] = sel(x.slots[j], y.slots[j], w);
        }
    }
    for (u32 id : diff) {
        ObjData *x = a.mem.writable(id), *y = b.mem.get(id);
        for (u32 o = 0; o < x->size; o++) {
            bool sx = x->sym && x->sym[o].e, sy = y->sym && y->sym[o].e;
            if (!sx && !sy) {
                if (x->bytes[o] == y->bytes[o]) continue;
            } else if (sx && sy && x->sym[o].e == y->sym[o].e && x->sym[o].idx == y->sym[o].idx)
                continue;
            // whole-word merge when both sides come from words of equal width
            E v = ex::Ite(ca, byteExpr(x, o), byteExpr(y, o));
            writeBytes(x, o, 1, fromE(v));
        }
    }
    a.pc.resize(k);
    a.known.clear();
    std::vector<E> old;
    old.swap(a.pc);
    for (E c : old) {
        a.pc.push_back(c);
        a.known[c] = true;
        a.known[ex::Not(c)] = false;
    }
    addConstraint(a, ex::Or(ca, cb));
    a.insts = std::max(a.insts, b.insts);
    a.merged = true;
    nMerges++;
    return true;
}
static void dropState(State *s);
static void finishGroup(std::shared_ptr<Group> g)
{
    if (g->outstanding != g->parked.size()) return;
    std::vector<State *> ps;
    ps.swap(g->parked);
    g->outstanding = 0;
    std::vector<State *> out;
    for (State *p : ps) p->groups.pop_back();
    std::vector<State *> dead;
    for (State *p : ps) {
        bool m = false;
        for (State *o : out)
            if (tryMerge(*o, *p)) { m = true; break; }
        if (m) dead.push_back(p);
        else out.push_back(p);
    }
    for (State *o : out) work.push_back(o);
    for (State *d : dead) {
        // leaves outer groups
        auto gs = d->groups;
        delete d;
        for (auto &og : gs) { og->outstanding--; }
        for (auto it = gs.rbegin(); it != gs.rend(); ++it)
            if ((*it)->outstanding && (*it)->outstanding == (*it)->parked.size()) finishGroup(*it);
    }
}
static void dropState(State *s)
{
    auto gs = s->groups;
    delete s;
    for (auto &g : gs) g->outstanding--;
    for (auto it = gs.rbegin(); it != gs.rend(); ++it)
        if ((*it)->outstanding == (*it)->parked.size() && (*it)->outstanding) finishGroup(*it);
}
struct Parked {};
static void mergeBegin(State &s) { s.groups.push_back(std::make_shared<Group>()); }
// must be called when s is ready to resume (ip advanced)
[[noreturn]] static void mergeEnd(State &s)
{
    s.groups.back()->parked.push_back(&s);
    throw Parked{};
}

// ---------------------------------------------------------------- calls / returns / exceptions
static void popFrame(State &s)
{
    Frame &f = s.stack.back();
    for (u32 id : f.allocas) s.mem.kill(id, ODeadStack);
    s.stack.pop_back();
}
static void pushCall(State &s, Function *F, std::vector<Val> &args)
{
    if (s.stack.size() > optMaxDepth) fail(s, "recursion", "call depth limit exceeded");
    IFunc *f = getIFunc(F);
    f->calls++;
    s.stack.emplace_back();
    Frame &fr = s.stack.back();
    fr.f = f;
    fr.slots.resize(f->nslots);
    size_t n = F->arg_size();
    for (size_t i = 0; i < n && i < args.size(); i++) fr.slots[i] = args[i];
    if (F->isVarArg())
        for (size_t i = n; i < args.size(); i++) fr.varargs.push_back(args[i]);
    if (f->merge) {
        fr.mergeOnRet = true;
        mergeBegin(s);
    }
}
static std::string tiName(u64 a)
{
    u32 id = (u32)(a >> 32) - 1;
    auto it = gvOf.find(id);
    return it == gvOf.end() ? "" : it->second->getName().str();
}
static const std::map<std::string, std::string> &stdHierarchy()
{
    static std::map<std::string, std::string> h = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
        {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"},
        {"_ZTIN3fmt2v912format_errorE", "_ZTISt13runtime_error"}};
    return h;
}
// is `from` (typeinfo addr) equal to or derived from `to`?  off accumulates base offset
static bool derives(u64 from, u64 to, i64 &off, int depth = 0)
{
    if (from == to) return true;
    std::string a = tiName(from), b = tiName(to);
    if (!a.empty() && a == b) return true;
    if (depth > 20) return false;
    u32 id = (u32)(from >> 32) - 1;
    auto it = gvOf.find(id);
    if (it == gvOf.end()) return false;
    const GlobalVariable *g = it->second;
    if (!g->hasInitializer()) {
        auto h = stdHierarchy().find(a);
        while (h != stdHierarchy().end()) {
            if (h->second == b) return true;
            h = stdHierarchy().find(h->second);
        }
        return false;
    }
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return false;
    // vtable pointer names the kind
    std::string vt;
    if (auto *cx = dyn_cast<Constant>(cs->getOperand(0))) {
        auto *b0 = cx->stripInBoundsConstantOffsets();
        vt = b0->getName().str();
    }
    if (vt.find("__si_class_type_info") != std::string::npos) return derives(evalConst(cs->getOperand(2)).c, to, off, depth + 1);
    if (vt.find("__vmi_class_type_info") != std::string::npos) {
        u64 n = evalConst(cs->getOperand(3)).c;
        for (u64 i = 0; i < n; i++) {
            u64 bt = evalConst(cs->getOperand(4 + 2 * i)).c;
            i64 fl = (i64)evalConst(cs->getOperand(5 + 2 * i)).c;
            i64 o2 = off + (fl >> 8);
            if (derives(bt, to, o2, depth + 1)) { off = o2; return true; }
        }
    }
    return false;
}
static void unwind(State &s, u64 exc)
{
    u64 ti = 0;
    for (auto &p : s.excType)
        if (p.first == exc) ti = p.second;
    std::string where = curLoc(s);
    std::string thrownAt = stackTrace(s);
    // the frame on top is the thrower (its current instruction is the call); look for handlers
    while (true) {
        if (s.stack.empty()) return;
        Frame &f = s.stack.back();
        const IInst *in = curInst(f);
        if (in && in->op == Instruction::Invoke) {
            auto *iv = cast<InvokeInst>(in->I);
            LandingPadInst *lp = iv->getLandingPadInst();
            bool take = lp->isCleanup();
            u64 sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) {
                    u64 ct = evalConst(lp->getClause(i)).c;
                    i64 off = 0;
                    if (ct == 0 || derives(ti, ct, off)) {
                        take = true;
                        sel = ct == 0 ? 1 : (ct >> 32);
                        break;
                    }
                } else {
                    take = true; // filter
                    auto *fc = lp->getClause(i);
                    if (cast<ArrayType>(fc->getType())->getNumElements() == 0) { sel = (u64)-1; break; }
                }
            }
            if (take) {
                s.pendExc = exc;
                s.pendSel = sel & 0xffffffffu;
                jump(s, in->succ[1]);
                return;
            }
        }
        if (f.mergeOnRet) {
            // leaves the merge region without joining
            auto g = s.groups.back();
            s.groups.pop_back();
            popFrame(s);
            g->outstanding--;
            if (g->outstanding && g->outstanding == g->parked.size()) finishGroup(g);
            continue;
        }
        if (s.stack.size() == 1) {
            std::string n = tiName(ti);
            if (n.size() > 4) n = dem("_Z" + n.substr(4));
            extraTrace = "thrown from:\n" + thrownAt;
            fail(s, "exception", "uncaught exception (type " + tiName(ti) + ") thrown at " + where);
        }
        popFrame(s);
    }
}
static void doReturn(State &s, const Val &rv)
{
    bool mr = s.stack.back().mergeOnRet;
    popFrame(s);
    if (s.stack.empty()) return;
    Frame &f = s.stack.back();
    const IInst *in = curInst(f);
    if (in->dst >= 0) f.slots[in->dst] = rv;
    if (in->op == Instruction::Invoke) jump(s, in->succ[0]);
    else f.ip++;
    if (mr) mergeEnd(s);
}

// ---------------------------------------------------------------- fresh symbols for uninterpreted functions
static std::map<std::vector<u64>, E> ufCache;
static E ufApp(const std::string &fn, const std::vector<E> &args, unsigned w)
{
    static std::map<std::string, u64> fnId;
    auto fi = fnId.emplace(fn, fnId.size()).first->second;
    std::vector<u64> key{fi, w};
    for (E e : args) key.push_back(e->id);
    auto it = ufCache.find(key);
    if (it != ufCache.end()) return it->second;
    u64 n = ufCache.size();
    E r = nullptr;
    for (unsigned i = 0; i < w / 8; i++) {
        E b = ex::Var("uf!" + fn + "!" + std::to_string(n) + "[" + std::to_string(i) + "]");
        r = r ? ex::Concat(b, r) : b;
    }
    return ufCache[key] = r;
}
static Val fbin(State &s, K k, const Val &a, const Val &b, unsigned w, unsigned rw)
{
    E x = toE(a, w), y = toE(b, w);
    if (k == KFRem && !(x->isc() && y->isc())) return fromE(ufApp("frem", {x, y}, rw));
    if ((optFPAbstract || s.fpabs) && (k == KFAdd || k == KFSub || k == KFMul || k == KFDiv) && !(x->isc() && y->isc())) {
        E t = ex::F2(k, x, y, rw);
        if (t->k == k) { // not simplified away
            const char *nm = k == KFAdd ? "fadd" : k == KFSub ? "fsub" : k == KFMul ? "fmul" : "fdiv";
            return fromE(ufApp(nm, {t->op(0), t->op(1)}, rw));
        }
        return fromE(t);
    }
    return fromE(ex::F2(k, x, y, rw));
}
static E fcmpE(unsigned pred, E a, E b)
{
    auto O = [&](K k, E x, E y) { return ex::F2(k, x, y, 1); };
    E uno = nullptr;
    switch (pred) {
        case CmpInst::FCMP_FALSE: return ex::F();
        case CmpInst::FCMP_TRUE: return ex::T();
        case CmpInst::FCMP_OEQ: return O(KFOeq, a, b);
        case CmpInst::FCMP_OLT: return O(KFOlt, a, b);
        case CmpInst::FCMP_OLE: return O(KFOle, a, b);
        case CmpInst::FCMP_OGT: return O(KFOlt, b, a);
        case CmpInst::FCMP_OGE: return O(KFOle, b, a);
        case CmpInst::FCMP_UNO: return O(KFUno, a, b);
        case CmpInst::FCMP_ORD: return ex::Not(O(KFUno, a, b));
        case CmpInst::FCMP_ONE: uno = O(KFUno, a, b); return ex::And(ex::Not(uno), ex::Not(O(KFOeq, a, b)));
        case CmpInst::FCMP_UEQ: return ex::Or(O(KFUno, a, b), O(KFOeq, a, b));
        case CmpInst::FCMP_UNE: return ex::Not(O(KFOeq, a, b));
        case CmpInst::FCMP_ULT: return ex::Not(O(KFOle, b, a));
        case CmpInst::FCMP_ULE: return ex::Not(O(KFOlt, b, a));
        case CmpInst::FCMP_UGT: return ex::Not(O(KFOle, a, b));
        case CmpInst::FCMP_UGE: return ex::Not(O(KFOlt, a, b));
    }
    abort();
}
static E icmpE(unsigned pred, E a, E b)
{
    switch (pred) {
        case CmpInst::ICMP_EQ: return ex::Eq(a, b);
        case CmpInst::ICMP_NE: return ex::Ne(a, b);
        case CmpInst::ICMP_ULT: return ex::Ult(a, b);
        case CmpInst::ICMP_ULE: return ex::Ule(a, b);
        case CmpInst::ICMP_UGT: return ex::Ult(b, a);
        case CmpInst::ICMP_UGE: return ex::Ule(b, a);
        case CmpInst::ICMP_SLT: return ex::Slt(a, b);
        case CmpInst::ICMP_SLE: return ex::Sle(a, b);
        case CmpInst::ICMP_SGT: return ex::Slt(b, a);
        case CmpInst::ICMP_SGE: return ex::Sle(b, a);
    }
    abort();
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w)
{
    i64 x = (i64)(a << (64 - w)) >> (64 - w), y = (i64)(b << (64 - w)) >> (64 - w);
    switch (pred) {
        case CmpInst::ICMP_EQ: return a == b;
        case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_ULT: return a < b;
        case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_UGT: return a > b;
        case CmpInst::ICMP_UGE: return a >= b;
        case CmpInst::ICMP_SLT: return x < y;
        case CmpInst::ICMP_SLE: return x <= y;
        case CmpInst::ICMP_SGT: return x > y;
        case CmpInst::ICMP_SGE: return x >= y;
    }
    abort();
}
static K binK(unsigned op)
{
    switch (op) {
        case Instruction::Add: return KAdd;
        case Instruction::Sub: return KSub;
        case Instruction::Mul: return KMul;
        case Instruction::UDiv: return KUDiv;
        case Instruction::SDiv: return KSDiv;
        case Instruction::URem: return KURem;
        case Instruction::SRem: return KSRem;
        case Instruction::And: return KAnd;
        case Instruction::Or: return KOr;
        case Instruction::Xor: return KXor;
        case Instruction::Shl: return KShl;
        case Instruction::LShr: return KLShr;
        case Instruction::AShr: return KAShr;
        case Instruction::FAdd: return KFAdd;
        case Instruction::FSub: return KFSub;
        case Instruction::FMul: return KFMul;
        case Instruction::FDiv: return KFDiv;
        case Instruction::FRem: return KFRem;
    }
    return KLast;
}
static Val intBin(State &s, unsigned op, const Val &a, const Val &b, unsigned w)
{
    if (a.conc() && b.conc() && w <= 64) {
        u64 m = w == 64 ? ~0ull : ((1ull << w) - 1), x = a.c, y = b.c;
        switch (op) {
            case Instruction::Add: return Val((x + y) & m);
            case Instruction::Sub: return Val((x - y) & m);
            case Instruction::Mul: return Val((x * y) & m);
            case Instruction::And: return Val(x & y);
            case Instruction::Or: return Val(x | y);
            case Instruction::Xor: return Val(x ^ y);
            case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
            default: break;
        }
    }
    K k = binK(op);
    if (k == KUDiv || k == KSDiv || k == KURem || k == KSRem) {
        E d = toE(b, w);
        E z = ex::Eq(d, C(0, w));
        if (z->isc(1)) fail(s, "arith", "division by zero");
        if (!z->isc(0)) {
            if (decideFork(s, z)) fail(s, "arith", "division by zero");
        }
    }
    return fromE(ex::Bin(k, toE(a, w), toE(b, w)));
}
// x86's 80-bit floating point: concrete values only
static long double asX(State &s, const Val &a, unsigned w)
{
    E e = toE(a, w);
    if (!e->isc()) unsupported(s, "symbolic x86_fp80");
    if (w == 32) { float f; u32 b = (u32)e->val; memcpy(&f, &b, 4); return f; }
    if (w == 64) { double d; u64 b = (u64)e->val; memcpy(&d, &b, 8); return d; }
    long double l = 0;
    memcpy(&l, &e->val, 10);
    return l;
}
static Val fromX(long double l, unsigned w)
{
    if (w == 32) { float f = (float)l; u32 b; memcpy(&b, &f, 4); return Val(b); }
    if (w == 64) { double d = (double)l; u64 b; memcpy(&b, &d, 8); return Val(b); }
    u128 v = 0;
    memcpy(&v, &l, 10);
    return fromE(C(v, 80));
}
static Val castOp(State &s, unsigned op, const Val &a, unsigned w0, unsigned w)
{
    switch (op) {
        case Instruction::Trunc:
            if (a.conc()) return Val(w == 64 ? a.c : a.c & ((1ull << w) - 1));
            return fromE(ex::Extract(a.e, 0, w));
        case Instruction::ZExt:
            if (a.conc() && w <= 64) return a;
            return fromE(ex::ZExt(toE(a, w0), w));
        case Instruction::SExt:
            if (a.conc() && w <= 64) return Val((u64)sext128(a.c, w0) & (u64)maskw(w));
            return fromE(ex::SExt(toE(a, w0), w));
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
            if (w == w0) return a;
            if (w < w0) return castOp(s, Instruction::Trunc, a, w0, w);
            return castOp(s, Instruction::ZExt, a, w0, w);
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return a;
        case Instruction::FPExt:
            if (w == 80 && w0 >= 32) return fromX(asX(s, a, w0), 80);
            if (w > 64 || w0 < 32) unsupported(s, "fpext to wide type");
            return fromE(ex::F1(KFExt, toE(a, w0), w));
        case Instruction::FPTrunc:
            if (w0 == 80 && w >= 32) return fromX(asX(s, a, 80), w);
            if (w0 > 64 || w < 32) unsupported(s, "fptrunc from wide type");
            return fromE(ex::F1(KFTrunc, toE(a, w0), w));
        case Instruction::SIToFP: if (w > 64) unsupported(s, "x86_fp80"); return fromE(ex::F1(KSIToFP, toE(a, w0), w));
        case Instruction::UIToFP: if (w > 64) unsupported(s, "x86_fp80"); return fromE(ex::F1(KUIToFP, toE(a, w0), w));
        case Instruction::FPToSI: if (w0 > 64) unsupported(s, "x86_fp80"); return fromE(ex::F1(KFPToSI, toE(a, w0), w));
        case Instruction::FPToUI: if (w0 > 64) unsupported(s, "x86_fp80"); return fromE(ex::F1(KFPToUI, toE(a, w0), w));
    }
    abort();
}
// flatten any value to one bit-vector
static E flat(E e, Type *t)
{
    if (!isAgg(t)) return e;
    E r = nullptr;
    for (unsigned i = 0; i < aggN(t); i++) {
        E x = flat(e->op(i), aggT(t, i));
        r = r ? ex::Concat(x, r) : x;
    }
    return r;
}
static Val unflat(E e, Type *t)
{
    if (!isAgg(t)) return fromE(e);
    std::vector<E> v;
    unsigned o = 0;
    for (unsigned i = 0; i < aggN(t); i++) {
        unsigned w = tw(aggT(t, i));
        v.push_back(ex::Extract(e, o, w));
        o += w;
    }
    Val r;
    r.e = ex::Tuple(v);
    return r;
}
static Val selectV(State &s, const Val &c, const Val &a, const Val &b, unsigned w)
{
    if (c.conc()) return c.c ? a : b;
    int q = quick(s, c.e);
    if (q >= 0) return q ? a : b;
    if (a.same(b)) return a;
    if (a.e && a.e->k == KTuple) { Val r; r.e = ex::Ite(c.e, a.e, b.e); return r; }
    return fromE(ex::Ite(c.e, toE(a, w), toE(b, w)));
}

// ---------------------------------------------------------------- intrinsics
static void memCopy(State &s, const Val &d, const Val &src, u64 n)
{
    if (!n) return;
    Val dd = d, ss = src;
    if (n <= 8 && (!d.conc() || !src.conc())) {
        Val v = loadN(s, ss, n);
        storeN(s, dd, n, v);
        return;
    }
    if (!dd.conc()) dd = Val(concretize(s, dd, 64));
    if (!ss.conc()) ss = Val(concretize(s, ss, 64));
    Loc a = resolve(s, ss, n, false);
    Loc b = resolve(s, dd, n, true);
    ObjData *o = s.mem.writable(b.id);
    ObjData *p = s.mem.get(a.id);
    memmove(o->bytes + b.off.c, p->bytes + a.off.c, n);
    if (p->sym) {
        o->needSym();
        memmove(o->sym + b.off.c, p->sym + a.off.c, n * sizeof(SymByte));
    } else if (o->sym)
        memset(o->sym + b.off.c, 0, n * sizeof(SymByte));
}
static void memSet(State &s, const Val &d, const Val &v, u64 n)
{
    if (!n) return;
    Val dd = d;
    if (!dd.conc()) dd = Val(concretize(s, dd, 64));
    Loc b = resolve(s, dd, n, true);
    ObjData *o = s.mem.writable(b.id);
    if (v.conc()) {
        memset(o->bytes + b.off.c, (int)v.c, n);
        if (o->sym) memset(o->sym + b.off.c, 0, n * sizeof(SymByte));
    } else
        for (u64 i = 0; i < n; i++) writeBytes(o, (u32)(b.off.c + i), 1, v);
}
static E popcnt(E e)
{
    E r = C(0, e->w);
    for (unsigned i = 0; i < e->w; i++) r = ex::Add(r, e->w == 1 ? e : ex::ZExt(ex::Extract(e, i, 1), e->w));
    return r;
}
static Val elem(const Val &v, unsigned i) { return fromE(v.e->op(i)); }

static Val scalarIntrinsic(State &s, Intrinsic::ID id, const IInst &in, std::vector<Val> &a, unsigned w, unsigned w0)
{
    auto e = [&](unsigned i) { return toE(a[i], w0); };
    switch (id) {
        case Intrinsic::umax: return fromE(ex::Ite(ex::Ult(e(0), e(1)), e(1), e(0)));
        case Intrinsic::umin: return fromE(ex::Ite(ex::Ult(e(0), e(1)), e(0), e(1)));
        case Intrinsic::smax: return fromE(ex::Ite(ex::Slt(e(0), e(1)), e(1), e(0)));
        case Intrinsic::smin: return fromE(ex::Ite(ex::Slt(e(0), e(1)), e(0), e(1)));
        case Intrinsic::abs: return fromE(ex::Ite(ex::Slt(e(0), C(0, w)), ex::Sub(C(0, w), e(0)), e(0)));
        case Intrinsic::ctpop: return fromE(popcnt(e(0)));
        case Intrinsic::ctlz: {
            E r = C(w, w);
            for (unsigned i = 0; i < w; i++) r = ex::Ite(w == 1 ? e(0) : ex::Extract(e(0), i, 1), C(w - 1 - i, w), r);
            return fromE(r);
        }
        case Intrinsic::cttz: {
            E r = C(w, w);
            for (unsigned i = w; i-- > 0;) r = ex::Ite(w == 1 ? e(0) : ex::Extract(e(0), i, 1), C(i, w), r);
            return fromE(r);
        }
        case Intrinsic::bswap: {
            E r = ex::Extract(e(0), 0, 8);
            for (unsigned i = 1; i < w / 8; i++) r = ex::Concat(r, ex::Extract(e(0), i * 8, 8));
            return fromE(r);
        }
        case Intrinsic::bitreverse: {
            E r = ex::Extract(e(0), 0, 1);
            for (unsigned i = 1; i < w; i++) r = ex::Concat(r, ex::Extract(e(0), i, 1));
            return fromE(r);
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            E sh = ex::Bin(KURem, e(2), C(w, w));
            if (w * 2 > 128) unsupported(s, "fshl wide");
            E cc = ex::Concat(e(0), e(1));
            E z = ex::ZExt(sh, 2 * w);
            if (id == Intrinsic::fshl) return fromE(ex::Extract(ex::Shl(cc, z), w, w));
            return fromE(ex::Extract(ex::LShr(cc, z), 0, w));
        }
        case Intrinsic::uadd_sat: { E r = ex::Add(e(0), e(1)); return fromE(ex::Ite(ex::Ult(r, e(0)), C(~(u128)0, w), r)); }
        case Intrinsic::usub_sat: return fromE(ex::Ite(ex::Ult(e(0), e(1)), C(0, w), ex::Sub(e(0), e(1))));
        case Intrinsic::sadd_sat:
        case Intrinsic::ssub_sat: {
            E x = ex::SExt(e(0), w + 1), y = ex::SExt(e(1), w + 1);
            E r = id == Intrinsic::sadd_sat ? ex::Add(x, y) : ex::Sub(x, y);
            E mx = C(maskw(w) >> 1, w + 1), mn = C((u128)(-((i128)1 << (w - 1))), w + 1);
            r = ex::Ite(ex::Slt(mx, r), mx, ex::Ite(ex::Slt(r, mn), mn, r));
            return fromE(ex::Extract(r, 0, w));
        }
        case Intrinsic::fabs: return fromE(ex::And(e(0), C(maskw(w) >> 1, w)));
        case Intrinsic::copysign: return fromE(ex::Or(ex::And(e(0), C(maskw(w) >> 1, w)), ex::And(e(1), C((u128)1 << (w - 1), w))));
        case Intrinsic::sqrt: return fromE(ex::F1(KFSqrt, e(0), w));
        case Intrinsic::floor: return fromE(ex::F1(KFloor, e(0), w));
        case Intrinsic::ceil: return fromE(ex::F1(KCeil, e(0), w));
        case Intrinsic::trunc: return fromE(ex::F1(KTrunc, e(0), w));
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::roundeven: return fromE(ex::F1(KRint, e(0), w));
        case Intrinsic::round: return fromE(ex::F1(KRound, e(0), w));
        case Intrinsic::lround:
        case Intrinsic::llround: return fromE(ex::F1(KFPToSI, ex::F1(KRound, e(0), w0), w));
        case Intrinsic::lrint:
        case Intrinsic::llrint: return fromE(ex::F1(KFPToSI, ex::F1(KRint, e(0), w0), w));
        case Intrinsic::minnum: return fromE(ex::F2(KFMin, e(0), e(1), w));
        case Intrinsic::maxnum: return fromE(ex::F2(KFMax, e(0), e(1), w));
        case Intrinsic::fmuladd: return fbin(s, KFAdd, fbin(s, KFMul, a[0], a[1], w, w), a[2], w, w);
        case Intrinsic::fma: return fbin(s, KFAdd, fbin(s, KFMul, a[0], a[1], w, w), a[2], w, w);
        case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: {
            std::vector<E> xs;
            bool cc = true;
            unsigned n = id == Intrinsic::pow ? 2 : 1;
            for (unsigned i = 0; i < n; i++) { xs.push_back(e(i)); cc = cc && xs.back()->isc(); }
            if (!cc) return fromE(ufApp(Intrinsic::getBaseName(id).str(), xs, w));
            double d[2] = {0, 0}, r = 0;
            for (unsigned i = 0; i < n; i++) {
                if (w == 32) { u32 b = (u32)xs[i]->val; float f; memcpy(&f, &b, 4); d[i] = f; }
                else { u64 b = (u64)xs[i]->val; memcpy(&d[i], &b, 8); }
            }
            float rf = 0;
            switch (id) {
                case Intrinsic::pow: r = pow(d[0], d[1]); rf = powf(d[0], d[1]); break;
                case Intrinsic::sin: r = sin(d[0]); rf = sinf(d[0]); break;
                case Intrinsic::cos: r = cos(d[0]); rf = cosf(d[0]); break;
                case Intrinsic::exp: r = exp(d[0]); rf = expf(d[0]); break;
                case Intrinsic::exp2: r = exp2(d[0]); rf = exp2f(d[0]); break;
                case Intrinsic::log: r = log(d[0]); rf = logf(d[0]); break;
                case Intrinsic::log2: r = log2(d[0]); rf = log2f(d[0]); break;
                default: r = log10(d[0]); rf = log10f(d[0]); break;
            }
            if (w == 32) { u32 b; memcpy(&b, &rf, 4); return Val(b); }
            u64 b; memcpy(&b, &r, 8); return Val(b);
        }
        case Intrinsic::powi: {
            if (toE(a[0], w0)->isc() && a[1].conc()) {
                int p = (int)a[1].c;
                if (w == 32) { u32 b = (u32)a[0].c; float f; memcpy(&f, &b, 4); f = __builtin_powif(f, p); memcpy(&b, &f, 4); return Val(b); }
                u64 b = a[0].c; double f; memcpy(&f, &b, 8); f = __builtin_powi(f, p); memcpy(&b, &f, 8); return Val(b);
            }
            return fromE(ufApp("powi", {e(0), toE(a[1], 32)}, w));
        }
        case Intrinsic::is_fpclass: {
            u64 mask = a[1].c;
            unsigned mb = w0 == 32 ? 23 : 52, eb = w0 == 32 ? 8 : 11;
            E x = e(0), sign = ex::Extract(x, w0 - 1, 1), ex_ = ex::Extract(x, mb, eb), man = ex::Extract(x, 0, mb);
            E emax = ex::Eq(ex_, C(maskw(eb), eb)), e0 = ex::Eq(ex_, C(0, eb)), m0 = ex::Eq(man, C(0, mb));
            E nan = ex::And(emax, ex::Not(m0)), inf = ex::And(emax, m0), zero = ex::And(e0, m0), sub = ex::And(e0, ex::Not(m0)), nor = ex::And(ex::Not(emax), ex::Not(e0));
            E q = ex::Extract(man, mb - 1, 1), ns = ex::Not(sign);
            E r = ex::F();
            E cls[10] = {ex::And(nan, ex::Not(q)), ex::And(nan, q), ex::And(inf, sign), ex::And(nor, sign), ex::And(sub, sign), ex::And(zero, sign), ex::And(zero, ns), ex::And(sub, ns), ex::And(nor, ns), ex::And(inf, ns)};
            for (int i = 0; i < 10; i++) if (mask >> i & 1) r = ex::Or(r, cls[i]);
            return fromE(r);
        }
        default: break;
    }
    unsupported(s, "intrinsic " + Intrinsic::getBaseName(id).str());
}
static Val doIntrinsic(State &s, const IInst &in, std::vector<Val> &a)
{
    auto *II = cast<CallBase>(in.I);
    Intrinsic::ID id = II->getCalledFunction()->getIntrinsicID();
    switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: memCopy(s, a[0], a[1], concretize(s, a[2], 64)); return Val();
        case Intrinsic::memset: memSet(s, a[0], a[1], concretize(s, a[2], 64)); return Val();
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::annotation:
        case Intrinsic::ptr_annotation:
        case Intrinsic::threadlocal_address: return a[0];
        case Intrinsic::is_constant: return Val(0);
        case Intrinsic::objectsize: return Val(in.w == 32 ? 0xffffffffull : ~0ull);
        case Intrinsic::eh_typeid_for: return Val(concretize(s, a[0], 64) >> 32);
        case Intrinsic::trap:
        case Intrinsic::debugtrap:
        case Intrinsic::ubsantrap: fail(s, "trap", "trap reached");
        case Intrinsic::stacksave: return Val(0);
        case Intrinsic::stackrestore: return Val();
        case Intrinsic::ptrmask: return intBin(s, Instruction::And, a[0], a[1], 64);
        case Intrinsic::vastart: {
            // SysV va_list: materialise all arguments as 8-byte overflow slots
            Frame &f = s.stack.back();
            u32 sz = f.varargs.size() * 8;
            u32 o = s.mem.alloc(sz ? sz : 8, OStack, "varargs", 0);
            s.stack.back().allocas.push_back(o);
            auto *d = s.mem.writable(o);
            for (size_t i = 0; i < f.varargs.size(); i++) {
                Val v = f.varargs[i];
                if (!v.conc() && v.e->w < 64) v = fromE(ex::ZExt(v.e, 64));
                writeBytes(d, i * 8, 8, v);
            }
            storeN(s, a[0], 4, Val(48));
            storeN(s, addOff(a[0], 4), 4, Val(176));
            storeN(s, addOff(a[0], 8), 8, Val(baseOf(o)));
            storeN(s, addOff(a[0], 16), 8, Val(0));
            return Val();
        }
        case Intrinsic::vaend: return Val();
        case Intrinsic::vacopy: memCopy(s, a[0], a[1], 24); return Val();
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = in.w0;
            w = tw(II->getArgOperand(0)->getType());
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned W = mul ? 2 * w : w + 1;
            if (W > 128) unsupported(s, "overflow intrinsic wide");
            E x = sg ? ex::SExt(toE(a[0], w), W) : ex::ZExt(toE(a[0], w), W);
            E y = sg ? ex::SExt(toE(a[1], w), W) : ex::ZExt(toE(a[1], w), W);
            E r = mul ? ex::Mul(x, y) : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ex::Add(x, y) : ex::Sub(x, y);
            E lo = ex::Extract(r, 0, w);
            E ov = ex::Ne(r, sg ? ex::SExt(lo, W) : ex::ZExt(lo, W));
            Val v;
            v.e = ex::Tuple({lo, ov});
            return v;
        }
        default: break;
    }
    Type *rt = II->getType();
    // vector reductions
    if (!rt->isVectorTy() && II->arg_size() >= 1 && II->getArgOperand(0)->getType()->isVectorTy()) {
        Type *vt = II->getArgOperand(0)->getType();
        unsigned n = aggN(vt), w = tw(aggT(vt, 0));
        E acc = a[0].e->op(0);
        for (unsigned i = 1; i < n; i++) {
            E x = a[0].e->op(i);
            switch (id) {
                case Intrinsic::vector_reduce_add: acc = ex::Add(acc, x); break;
                case Intrinsic::vector_reduce_mul: acc = ex::Mul(acc, x); break;
                case Intrinsic::vector_reduce_and: acc = ex::And(acc, x); break;
                case Intrinsic::vector_reduce_or: acc = ex::Or(acc, x); break;
                case Intrinsic::vector_reduce_xor: acc = ex::Xor(acc, x); break;
                case Intrinsic::vector_reduce_umax: acc = ex::Ite(ex::Ult(acc, x), x, acc); break;
                case Intrinsic::vector_reduce_umin: acc = ex::Ite(ex::Ult(x, acc), x, acc); break;
                case Intrinsic::vector_reduce_smax: acc = ex::Ite(ex::Slt(acc, x), x, acc); break;
                case Intrinsic::vector_reduce_smin: acc = ex::Ite(ex::Slt(x, acc), x, acc); break;
                default: unsupported(s, "vector reduction");
            }
        }
        (void)w;
        return fromE(acc);
    }
    if (rt->isVectorTy()) {
        unsigned n = aggN(rt), w = tw(aggT(rt, 0));
        std::vector<E> out;
        for (unsigned i = 0; i < n; i++) {
            std::vector<Val> x;
            for (size_t j = 0; j < a.size(); j++) x.push_back(a[j].e && a[j].e->k == KTuple ? elem(a[j], i) : a[j]);
            unsigned w0 = tw(II->getArgOperand(0)->getType()->getScalarType());
            out.push_back(toE(scalarIntrinsic(s, id, in, x, w, w0), w));
        }
        Val v;
        v.e = ex::Tuple(out);
        return v;
    }
    return scalarIntrinsic(s, id, in, a, in.w, II->arg_size() ? tw(II->getArgOperand(0)->getType()) : 0);
}

// ---------------------------------------------------------------- external handlers
static Function *throwBadAlloc;
static Val allocHeap(State &s, const Val &size, u8 tag, bool throwing, u8 fill)
{
    u64 n;
    if (!size.conc()) {
        // separate the absurd sizes first
        if (decideFork(s, ex::Ult(C(optMaxAlloc, 64), size.e))) n = optMaxAlloc + 1;
        else n = concretize(s, size, 64);
    } else
        n = size.c;
    if (n > optMaxAlloc) {
        reached["!huge-allocation"]++;
        if (!throwing) return Val(0);
        if (!throwBadAlloc) unsupported(s, "bad_alloc thrower");
        std::vector<Val> none;
        pushCall(s, throwBadAlloc, none);
        throw Fork{};
    }
    u32 id = s.mem.alloc(n, OHeap, "heap block", fill);
    s.mem.writable(id)->tag = tag;
    return Val(baseOf(id));
}
static void freeHeap(State &s, const Val &p, int tag)
{
    u64 a = concretize(s, p, 64);
    if (!a) return;
    u32 id = (u32)(a >> 32) - 1;
    ObjData *o = a < (1ull << 32) ? nullptr : s.mem.get(id);
    if (!o) fail(s, "memory", "free of invalid pointer");
    if (o->kind == OFreed) fail(s, "memory", "double free");
    if (o->kind != OHeap) fail(s, "memory", "free of non-heap object " + objName(s, id));
    if (a != baseOf(id)) fail(s, "memory", "free of interior pointer");
    s.mem.kill(id, OFreed);
}
static Val hMalloc(State &s, const IInst &, std::vector<Val> &a) { return allocHeap(s, a[0], 0, false, 0xCD); }
static Val hNew(State &s, const IInst &, std::vector<Val> &a) { return allocHeap(s, a[0], 1, true, 0xCD); }
static Val hNewNT(State &s, const IInst &, std::vector<Val> &a) { return allocHeap(s, a[0], 1, false, 0xCD); }
static Val hCalloc(State &s, const IInst &, std::vector<Val> &a)
{
    return allocHeap(s, intBin(s, Instruction::Mul, a[0], a[1], 64), 0, false, 0);
}
static Val hAligned(State &s, const IInst &, std::vector<Val> &a) { return allocHeap(s, a[1], 0, false, 0xCD); }
static Val hFree(State &s, const IInst &, std::vector<Val> &a) { freeHeap(s, a[0], 0); return Val(); }
static Val hRealloc(State &s, const IInst &, std::vector<Val> &a)
{
    u64 p = concretize(s, a[0], 64);
    u64 n = concretize(s, a[1], 64);
    Val r = allocHeap(s, Val(n), 0, false, 0xCD);
    if (p) {
        u32 id = (u32)(p >> 32) - 1;
        ObjData *o = s.mem.get(id);
        if (!o || o->kind != OHeap) fail(s, "memory", "realloc of invalid pointer");
        u64 k = std::min<u64>(o->size, n);
        if (k) memCopy(s, r, Val(p), k);
        freeHeap(s, Val(p), 0);
    }
    return r;
}
static Val hMemcpy(State &s, const IInst &, std::vector<Val> &a) { memCopy(s, a[0], a[1], concretize(s, a[2], 64)); return a[0]; }
static Val hMemset(State &s, const IInst &, std::vector<Val> &a)
{
    Val v = a[1].conc() ? Val(a[1].c & 255) : fromE(ex::Extract(a[1].e, 0, 8));
    memSet(s, a[0], v, concretize(s, a[2], 64));
    return a[0];
}
static Val hMemcmp(State &s, const IInst &in, std::vector<Val> &a)
{
    u64 n = concretize(s, a[2], 64);
    if (!n) return Val(0);
    Val p = Val(concretize(s, a[0], 64)), q = Val(concretize(s, a[1], 64));
    Loc x = resolve(s, p, n, false), y = resolve(s, q, n, false);
    ObjData *o1 = s.mem.get(x.id), *o2 = s.mem.get(y.id);
    bool bc = in.callee->getName() == "bcmp";
    E r = C(0, 32);
    if (bc) {
        E eq = ex::T();
        for (u64 i = 0; i < n; i++) {
            eq = ex::And(eq, ex::Eq(byteExpr(o1, x.off.c + i), byteExpr(o2, y.off.c + i)));
            if (eq->isc(0)) break;
        }
        return fromE(ex::Ite(eq, C(0, 32), C(1, 32)));
    }
    for (u64 i = n; i-- > 0;) {
        E b1 = byteExpr(o1, x.off.c + i), b2 = byteExpr(o2, y.off.c + i);
        E eq = ex::Eq(b1, b2);
        if (eq->isc(1)) continue;
        r = ex::Ite(eq, r, ex::Ite(ex::Ult(b1, b2), C(~(u128)0, 32), C(1, 32)));
    }
    return fromE(r);
}
static Val hNop(State &, const IInst &, std::vector<Val> &) { return Val(0); }
static Val hRet1(State &, const IInst &, std::vector<Val> &) { return Val(1); }
static Val hAbort(State &s, const IInst &in, std::vector<Val> &) { fail(s, "abort", in.callee->getName().str() + " called"); }
static Val hAssertFail(State &s, const IInst &in, std::vector<Val> &a)
{
    // std::__glibcxx_assert_fail(file, line, function, condition) / __assert_fail(cond, file, line, fn)
    std::string c;
    if (in.callee->getName() == "__assert_fail") c = readCStr(s, a[0].c);
    else if (a.size() > 3) c = readCStr(s, a[3].c);
    fail(s, "assertion", "library assertion failed: " + c);
}
static Val hExit(State &s, const IInst &, std::vector<Val> &) { nPathsDone++; throw Kill{}; }
// harness API
static Val hSymbolic(State &s, const IInst &, std::vector<Val> &a)
{
    u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
    std::string nm = readCStr(s, a[2].c);
    int k = s.nameCount[nm]++;
    auto in = std::make_shared<Input>();
    in->name = nm + "#" + std::to_string(k);
    if (n) {
        Loc l = resolve(s, Val(p), n, true);
        ObjData *o = s.mem.writable(l.id);
        o->needSym();
        for (u64 i = 0; i < n; i++) {
            E v = ex::Var(in->name + "[" + std::to_string(i) + "]");
            in->vars.push_back((u32)v->val);
            o->sym[l.off.c + i] = {v, 0};
        }
    }
    s.inputs.push_back(in);
    return Val();
}
static E boolOf(const Val &v, unsigned w) { return v.conc() ? C(v.c != 0, 1) : ex::Ne(v.e, C(0, v.e->w)); }
static Val hAssume(State &s, const IInst &, std::vector<Val> &a) { assumeC(s, boolOf(a[0], 32)); return Val(); }
static Val hAssert(State &s, const IInst &, std::vector<Val> &a)
{
    nAsserts++;
    E c = boolOf(a[0], 32);
    std::string msg = readCStr(s, a[1].c);
    int q = quick(s, c);
    if (q == 1) return Val();
    if (q == 0) fail(s, "assert", msg);
    nAssertQueries++;
    ModelPtr om;
    Res r = solve(s.pc, ex::Not(c), s.model, om);
    if (r == Unknown) setIncomplete("solver unknown (assert " + msg + ")");
    if (r == Sat) {
        report(s, "assert", msg, om);
        assumeC(s, c);
    } else
        addConstraint(s, c);
    return Val();
}
static Val hReach(State &s, const IInst &, std::vector<Val> &a)
{
    std::string l = readCStr(s, a[0].c);
    reached[l]++;
    if (s.reachLog.size() < 64) s.reachLog.push_back(l);
    return Val();
}
static Val hConcretize(State &s, const IInst &, std::vector<Val> &a) { return Val(concretize(s, a[0], 64)); }
static Val hIsSym(State &s, const IInst &, std::vector<Val> &a) { return Val(!a[0].conc()); }
static Val hParam(State &, const IInst &, std::vector<Val> &a) { return Val(a[0].c < optParams.size() ? (u64)optParams[a[0].c] : 0); }
// correctly rounded mantissa * 10^exponent (both concrete)
static Val hDec2d(State &, const IInst &, std::vector<Val> &a)
{
    char buf[64];
    snprintf(buf, sizeof buf, "%llue%d", (unsigned long long)a[0].c, (int)(u32)a[1].c);
    double r = strtod(buf, nullptr);
    u64 b; memcpy(&b, &r, 8); return Val(b);
}
static Val hPrint(State &s, const IInst &, std::vector<Val> &a)
{
    fprintf(stderr, "[sx] %s %s\n", readCStr(s, a[0].c).c_str(), a[1].conc() ? std::to_string((i64)a[1].c).c_str() : ex::str(a[1].e, 14).c_str());
    return Val();
}
static Val hMergeBegin(State &s, const IInst &, std::vector<Val> &) { mergeBegin(s); return Val(); }
static Val hFpAbs(State &s, const IInst &, std::vector<Val> &a) { s.fpabs = a[0].c != 0; return Val(); }
static Val hFail(State &s, const IInst &, std::vector<Val> &a) { fail(s, "assert", readCStr(s, a[0].c)); }
static Val hSilentEnd(State &, const IInst &, std::vector<Val> &) { nPathsAssume++; throw Kill{}; }
static Val hUnreachableLimit(State &s, const IInst &, std::vector<Val> &) { setIncomplete("harness bound exceeded at " + curLoc(s)); throw Kill{}; }
// exceptions
static Val hAllocExc(State &s, const IInst &, std::vector<Val> &a)
{
    u32 id = s.mem.alloc(concretize(s, a[0], 64), OHeap, "exception", 0);
    return Val(baseOf(id));
}
static Val hThrow(State &s, const IInst &, std::vector<Val> &a)
{
    u64 p = concretize(s, a[0], 64);
    s.excType.push_back({p, concretize(s, a[1], 64)});
    unwind(s, p);
    throw Fork{};
}
static Val hRethrow(State &s, const IInst &, std::vector<Val> &)
{
    if (s.caught.empty()) fail(s, "abort", "rethrow without exception");
    u64 e = s.caught.back();
    unwind(s, e);
    throw Fork{};
}
static Val hBeginCatch(State &s, const IInst &, std::vector<Val> &a)
{
    u64 p = concretize(s, a[0], 64);
    s.caught.push_back(p);
    return Val(p);
}
static Val hEndCatch(State &s, const IInst &, std::vector<Val> &)
{
    if (!s.caught.empty()) s.caught.pop_back();
    return Val();
}
static Val hGetExcPtr(State &, const IInst &, std::vector<Val> &a) { return a[0]; }
static Val hUncaught(State &, const IInst &, std::vector<Val> &) { return Val(0); }
static Val hGuardAcq(State &s, const IInst &, std::vector<Val> &a)
{
    Val v = loadN(s, a[0], 1);
    return Val(v.c ? 0 : 1);
}
static Val hGuardRel(State &s, const IInst &, std::vector<Val> &a) { storeN(s, a[0], 1, Val(1)); return Val(); }
static Val hTidFor(State &, const IInst &, std::vector<Val> &a) { return a[0]; }
// base sub-object lookup: offset of base `want` inside class `ti`
static bool findBase(u64 ti, u64 want, i64 &off) { return derives(ti, want, off); }
static Val hDynCast(State &s, const IInst &, std::vector<Val> &a)
{
    u64 p = concretize(s, a[0], 64);
    if (!p) return Val(0);
    u64 vp = concretize(s, loadN(s, Val(p), 8), 64);
    i64 top = (i64)concretize(s, loadN(s, Val(vp - 16), 8), 64);
    u64 ti = concretize(s, loadN(s, Val(vp - 8), 8), 64);
    i64 off = 0;
    if (!findBase(ti, a[2].c, off)) return Val(0);
    return Val(p + top + off);
}
static double asD(const Val &v, unsigned w)
{
    u64 c = v.e ? (u64)v.e->val : v.c;
    if (w == 32) { u32 b = (u32)c; float f; memcpy(&f, &b, 4); return f; }
    double d; memcpy(&d, &c, 8); return d;
}
static Val hMath(State &s, const IInst &in, std::vector<Val> &a)
{
    std::string n = in.callee->getName().str();
    unsigned w = in.w;
    static std::map<std::string, double (*)(double)> f1 = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"exp", exp}, {"log", log}, {"log2", log2}, {"log10", log10}, {"exp2", exp2}, {"cbrt", cbrt}, {"sqrt", sqrt}};
    static std::map<std::string, float (*)(float)> g1 = {{"sinf", sinf}, {"cosf", cosf}, {"tanf", tanf}, {"asinf", asinf}, {"acosf", acosf}, {"atanf", atanf}, {"expf", expf}, {"logf", logf}, {"log2f", log2f}, {"log10f", log10f}, {"exp2f", exp2f}, {"cbrtf", cbrtf}, {"sqrtf", sqrtf}};
    static std::map<std::string, double (*)(double, double)> f2 = {{"pow", pow}, {"atan2", atan2}, {"fmod", fmod}, {"hypot", hypot}, {"remainder", remainder}};
    static std::map<std::string, float (*)(float, float)> g2 = {{"powf", powf}, {"atan2f", atan2f}, {"fmodf", fmodf}, {"hypotf", hypotf}, {"remainderf", remainderf}};
    auto D = [&](double r) { u64 b; memcpy(&b, &r, 8); return Val(b); };
    auto Fl = [&](float r) { u32 b; memcpy(&b, &r, 4); return Val(b); };
    if (n == "sqrt" || n == "sqrtf") return fromE(ex::F1(KFSqrt, toE(a[0], w), w));
    bool cc = true;
    std::vector<E> xs;
    for (auto &v : a) { cc = cc && (v.conc() || v.e->isc()); xs.push_back(v.e ? v.e : C(v.c, w)); }
    if (!cc) return fromE(ufApp(n, xs, w));
    if (f1.count(n)) return D(f1[n](asD(a[0], 64)));
    if (g1.count(n)) return Fl(g1[n]((float)asD(a[0], 32)));
    if (f2.count(n)) return D(f2[n](asD(a[0], 64), asD(a[1], 64)));
    if (g2.count(n)) return Fl(g2[n]((float)asD(a[0], 32), (float)asD(a[1], 32)));
    unsupported(s, n);
}
// towards a constant: the long double itself is not looked at
static Val hNextToward(State &s, const IInst &in, std::vector<Val> &a)
{
    auto *cf = dyn_cast<ConstantFP>(cast<CallBase>(in.I)->getArgOperand(1));
    if (!cf || !(a[0].conc() || a[0].e->isc())) unsupported(s, "nexttoward");
    APFloat y = cf->getValueAPF();
    bool lost;
    y.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
    if (lost) unsupported(s, "nexttoward");
    double r = nextafter(asD(a[0], 64), y.convertToDouble());
    u64 b;
    memcpy(&b, &r, 8);
    return Val(b);
}
static Val hRoundLike(State &s, const IInst &in, std::vector<Val> &a)
{
    std::string n = in.callee->getName().str();
    bool f = n.back() == 'f' && n != "rintf_" ;
    std::string b = f && n != "f" ? n.substr(0, n.size() - 1) : n;
    static std::map<std::string, K> m = {{"floor", KFloor}, {"ceil", KCeil}, {"trunc", KTrunc}, {"rint", KRint}, {"nearbyint", KRint}, {"round", KRound}};
    unsigned w0 = tw(cast<CallBase>(in.I)->getArgOperand(0)->getType());
    if (b == "lround" || b == "llround") return fromE(ex::F1(KFPToSI, ex::F1(KRound, toE(a[0], w0), w0), 64));
    if (b == "lrint" || b == "llrint") return fromE(ex::F1(KFPToSI, ex::F1(KRint, toE(a[0], w0), w0), 64));
    if (b == "fabs") return fromE(ex::And(toE(a[0], w0), C(maskw(w0) >> 1, w0)));
    if (b == "fmin") return fromE(ex::F2(KFMin, toE(a[0], w0), toE(a[1], w0), w0));
    if (b == "fmax") return fromE(ex::F2(KFMax, toE(a[0], w0), toE(a[1], w0), w0));
    return fromE(ex::F1(m[b], toE(a[0], w0), w0));
}
static void regExt(const char *n, ExtFn f)
{
    extIdx[n] = extTable.size();
    extTable.push_back({n, f});
}
static void registerExt()
{
    regExt("malloc", hMalloc); regExt("calloc", hCalloc); regExt("realloc", hRealloc); regExt("free", hFree);
    regExt("aligned_alloc", hAligned);
    for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) regExt(n, hNew);
    for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) regExt(n, hNewNT);
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) regExt(n, hFree);
    regExt("memcpy", hMemcpy); regExt("memmove", hMemcpy); regExt("memset", hMemset); regExt("memcmp", hMemcmp); regExt("bcmp", hMemcmp);
    for (auto n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_free_exception", "atexit", "__cxa_thread_atexit", "_ZSt21ios_base_library_initv"}) regExt(n, hNop);
    for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_call_unexpected", "__stack_chk_fail", "__cxa_bad_cast_", "__cxa_throw_bad_array_new_length_"}) regExt(n, hAbort);
    regExt("_ZSt21__glibcxx_assert_failPKciS0_S0_", hAssertFail);
    regExt("__assert_fail", hAssertFail);
    for (auto n : {"exit", "_exit"}) regExt(n, hExit);
    regExt("sx_symbolic", hSymbolic); regExt("sx_assume", hAssume); regExt("sx_assert_", hAssert); regExt("sx_reach", hReach);
    regExt("sx_concretize", hConcretize); regExt("sx_param", hParam); regExt("sx_print", hPrint); regExt("sx_merge_begin", hMergeBegin);
    regExt("sx_merge_end", hNop); regExt("sx_fp_abstract", hFpAbs); regExt("sx_fail", hFail); regExt("sx_end", hSilentEnd); regExt("sx_bound", hUnreachableLimit);
    regExt("sx_is_symbolic", hIsSym); regExt("sx_dec2d", hDec2d);
    regExt("__cxa_allocate_exception", hAllocExc); regExt("__cxa_throw", hThrow); regExt("__cxa_rethrow", hRethrow);
    regExt("__cxa_begin_catch", hBeginCatch); regExt("__cxa_end_catch", hEndCatch); regExt("__cxa_get_exception_ptr", hGetExcPtr);
    regExt("_ZSt18uncaught_exceptionv", hUncaught); regExt("_ZSt19uncaught_exceptionsv", hUncaught);
    regExt("__cxa_guard_acquire", hGuardAcq); regExt("__cxa_guard_release", hGuardRel); regExt("__cxa_guard_abort", hNop);
    regExt("__dynamic_cast", hDynCast);
    for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10", "exp2", "cbrt", "sqrt", "pow", "atan2", "fmod", "hypot", "remainder"}) {
        regExt(n, hMath);
        static std::vector<std::string> keep;
        regExt((std::string(n) + "f").c_str(), hMath);
    }
    regExt("nexttoward", hNextToward);
    for (auto n : {"floor", "ceil", "trunc", "rint", "nearbyint", "round", "lround", "llround", "lrint", "llrint", "fabs", "fmin", "fmax"}) {
        regExt(n, hRoundLike);
        regExt((std::string(n) + "f").c_str(), hRoundLike);
    }
    for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once_", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "pthread_rwlock_wrlock", "fflush", "sched_yield"}) regExt(n, hNop);
}

// ---------------------------------------------------------------- interpreter
static void doCall(State &s, const IInst &in)
{
    std::vector<Val> a;
    a.reserve(in.ops.size());
    for (auto &o : in.ops) a.push_back(getv(s, o));
    Function *F = in.callee;
    int ext = in.ext;
    if (!F) {
        if (cast<CallBase>(in.I)->isInlineAsm()) {
            // empty asm used as optimisation barrier
            auto *ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
            if (!ia->getAsmString().empty()) unsupported(s, "inline asm " + std::string(ia->getAsmString()));
            setv(s, in, a.empty() ? Val(0) : a[0]);
            s.stack.back().ip++;
            return;
        }
        u64 t = concretize(s, a.back(), 64);
        a.pop_back();
        auto it = funcOf.find((u32)(t >> 32) - 1);
        if (it == funcOf.end() || t != baseOf(it->first)) fail(s, "memory", "call through invalid function pointer");
        F = it->second;
        if (Function *ov = M->getFunction("sx_override." + F->getName().str())) F = ov;
        auto f = extIdx.find(F->getName().str());
        if (f != extIdx.end()) ext = f->second;
        if (ext >= 0) {
            IInst tmp = in;
            tmp.callee = F;
            Val v = extTable[ext].second(s, tmp, a);
            setv(s, in, v);
            if (in.op == Instruction::Invoke) jump(s, in.succ[0]);
            else s.stack.back().ip++;
            return;
        }
    }
    if (F->isIntrinsic()) {
        Val v = doIntrinsic(s, in, a);
        setv(s, in, v);
        if (in.op == Instruction::Invoke) jump(s, in.succ[0]);
        else s.stack.back().ip++;
        return;
    }
    if (ext >= 0) {
        Val v = extTable[ext].second(s, in, a);
        setv(s, in, v);
        if (in.op == Instruction::Invoke) jump(s, in.succ[0]);
        else s.stack.back().ip++;
        if (extTable[ext].first == "sx_merge_end") {
            if (s.groups.empty()) unsupported(s, "merge_end without begin");
            mergeEnd(s);
        }
        return;
    }
    if (F->isDeclaration()) {
        if (F->getName().starts_with("_ZTW")) {}
        unsupported(s, "external " + F->getName().str());
    }
    pushCall(s, F, a);
}
static void doSwitch(State &s, const IInst &in)
{
    Val v = getv(s, in.ops[0]);
    if (v.conc()) {
        for (size_t i = 0; i < in.caseVal.size(); i++)
            if (in.caseVal[i] == v.c) { jump(s, in.succ[in.caseSucc[i]]); return; }
        jump(s, in.succ[0]);
        return;
    }
    unsigned w = v.e->w;
    std::vector<E> conds(in.succ.size(), ex::F());
    E any = ex::F();
    for (size_t i = 0; i < in.caseVal.size(); i++) {
        E c = ex::Eq(v.e, C(in.caseVal[i], w));
        any = ex::Or(any, c);
        conds[in.caseSucc[i]] = ex::Or(conds[in.caseSucc[i]], c);
    }
    conds[0] = ex::Or(conds[0], ex::Not(any));
    int taken = -1;
    for (size_t i = 0; i < conds.size(); i++)
        if (ex::eval(conds[i], s.model.get())) { taken = i; break; }
    for (size_t i = 0; i < conds.size(); i++) {
        if ((int)i == taken) continue;
        int q = quick(s, conds[i]);
        if (q == 0) continue;
        ModelPtr om;
        if (mustCheck(s, conds[i], om)) {
            State *t = cloneState(s);
            addConstraint(*t, conds[i]);
            t->model = om;
            jump(*t, in.succ[i]);
            work.push_back(t);
        }
    }
    addConstraint(s, conds[taken]);
    jump(s, in.succ[taken]);
}
static Val vecMap2(const Val &a, const Val &b, unsigned n, std::function<E(E, E)> f)
{
    std::vector<E> o;
    for (unsigned i = 0; i < n; i++) o.push_back(f(a.e->op(i), b.e->op(i)));
    Val v;
    v.e = ex::Tuple(o);
    return v;
}
static void execVector(State &s, const IInst &in)
{
    Instruction *I = in.I;
    Type *t = I->getType();
    Val r;
    switch (in.op) {
        case Instruction::ExtractValue: {
            Val v = getv(s, in.ops[0]);
            E e = v.e;
            Type *tt = I->getOperand(0)->getType();
            for (unsigned i : cast<ExtractValueInst>(I)->indices()) { e = e->op(i); tt = aggT(tt, i); }
            r = isAgg(tt) ? Val() : fromE(e);
            if (isAgg(tt)) r.e = e;
            break;
        }
        case Instruction::InsertValue: {
            Val v = getv(s, in.ops[0]), x = getv(s, in.ops[1]);
            auto idx = cast<InsertValueInst>(I)->getIndices();
            Type *xt = I->getOperand(1)->getType();
            E xe = isAgg(xt) ? x.e : toE(x, tw(xt));
            std::function<E(E, unsigned)> rec = [&](E e, unsigned d) -> E {
                if (d == idx.size()) return xe;
                std::vector<E> o(e->ops, e->ops + e->nops);
                o[idx[d]] = rec(o[idx[d]], d + 1);
                return ex::Tuple(o);
            };
            r.e = rec(v.e, 0);
            break;
        }
        case Instruction::ExtractElement: {
            Val v = getv(s, in.ops[0]);
            u64 i = concretize(s, getv(s, in.ops[1]), 64);
            r = fromE(v.e->op(i % v.e->nops));
            break;
        }
        case Instruction::InsertElement: {
            Val v = getv(s, in.ops[0]), x = getv(s, in.ops[1]);
            u64 i = concretize(s, getv(s, in.ops[2]), 64);
            std::vector<E> o(v.e->ops, v.e->ops + v.e->nops);
            o[i % o.size()] = toE(x, tw(I->getOperand(1)->getType()));
            r.e = ex::Tuple(o);
            break;
        }
        case Instruction::ShuffleVector: {
            Val a = getv(s, in.ops[0]), b = getv(s, in.ops[1]);
            std::vector<E> o;
            unsigned n = a.e->nops;
            for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask()) o.push_back(m < 0 ? C(0, a.e->op(0)->w) : (unsigned)m < n ? a.e->op(m) : b.e->op(m - n));
            r.e = ex::Tuple(o);
            break;
        }
        case Instruction::Load: r = loadT(s, getv(s, in.ops[0]), t); break;
        case Instruction::Store: storeT(s, getv(s, in.ops[1]), I->getOperand(0)->getType(), getv(s, in.ops[0])); break;
        case Instruction::Select: {
            Val c = getv(s, in.ops[0]), a = getv(s, in.ops[1]), b = getv(s, in.ops[2]);
            if (I->getOperand(0)->getType()->isVectorTy()) {
                std::vector<E> o;
                for (unsigned i = 0; i < a.e->nops; i++) o.push_back(ex::Ite(c.e->op(i), a.e->op(i), b.e->op(i)));
                r.e = ex::Tuple(o);
            } else
                r = selectV(s, c, a, b, 0);
            break;
        }
        case Instruction::Freeze: r = getv(s, in.ops[0]); break;
        case Instruction::BitCast: {
            Val v = getv(s, in.ops[0]);
            Type *st = I->getOperand(0)->getType();
            unsigned total = DL->getTypeSizeInBits(st).getFixedValue();
            if (total > 128) unsupported(s, "wide vector bitcast");
            E f = isAgg(st) ? flat(v.e, st) : toE(v, tw(st));
            r = unflat(f, t);
            break;
        }
        case Instruction::ICmp: case Instruction::FCmp: {
            Val a = getv(s, in.ops[0]), b = getv(s, in.ops[1]);
            r = vecMap2(a, b, a.e->nops, [&](E x, E y) { return in.op == Instruction::ICmp ? icmpE(in.pred, x, y) : fcmpE(in.pred, x, y); });
            break;
        }
        case Instruction::FNeg: {
            Val a = getv(s, in.ops[0]);
            std::vector<E> o;
            for (unsigned i = 0; i < a.e->nops; i++) o.push_back(ex::Xor(a.e->op(i), C((u128)1 << (a.e->op(i)->w - 1), a.e->op(i)->w)));
            r.e = ex::Tuple(o);
            break;
        }
        default:
            if (isa<BinaryOperator>(I)) {
                Val a = getv(s, in.ops[0]), b = getv(s, in.ops[1]);
                Type *et = aggT(t, 0);
                unsigned w = tw(et);
                r = vecMap2(a, b, a.e->nops, [&](E x, E y) -> E {
                    if (et->isFloatingPointTy()) return toE(fbin(s, binK(in.op), fromE(x), fromE(y), w, w), w);
                    return toE(intBin(s, in.op, fromE(x), fromE(y), w), w);
                });
                break;
            }
            if (isa<CastInst>(I)) {
                Val a = getv(s, in.ops[0]);
                std::vector<E> o;
                unsigned w0 = tw(I->getOperand(0)->getType()->getScalarType()), w = tw(t->getScalarType());
                for (unsigned i = 0; i < a.e->nops; i++) o.push_back(toE(castOp(s, in.op, fromE(a.e->op(i)), w0, w), w));
                r.e = ex::Tuple(o);
                break;
            }
            unsupported(s, std::string("vector instruction ") + I->getOpcodeName());
    }
    setv(s, in, r);
    s.stack.back().ip++;
}
static void step(State &s)
{
    Frame &f = s.stack.back();
    const IInst &in = f.f->blocks[f.bb].insts[f.ip];
    nInst++;
    s.insts++;
    if (s.chainAt && s.chainAt != &in) s.chainAt = nullptr;
    switch (in.op) {
        case Instruction::Call:
        case Instruction::Invoke: doCall(s, in); return;
        case Instruction::Br:
            if (in.ops.empty()) { jump(s, in.succ[0]); return; }
            {
                Val c = getv(s, in.ops[0]);
                if (c.conc()) { jump(s, in.succ[c.c ? 0 : 1]); return; }
                int q = quick(s, c.e);
                if (q >= 0) { jump(s, in.succ[q ? 0 : 1]); return; }
                bool v = ex::eval(c.e, s.model.get()) != 0;
                E mine = v ? c.e : ex::Not(c.e), oth = v ? ex::Not(c.e) : c.e;
                ModelPtr om;
                if (mustCheck(s, oth, om)) {
                    State *t = cloneState(s);
                    addConstraint(*t, oth);
                    t->model = om;
                    jump(*t, in.succ[v ? 1 : 0]);
                    work.push_back(t);
                    addConstraint(s, mine);
                } else
                    addConstraint(s, mine);
                jump(s, in.succ[v ? 0 : 1]);
                return;
            }
        case Instruction::Switch: doSwitch(s, in); return;
        case Instruction::Ret: {
            Val v;
            if (!in.ops.empty()) v = getv(s, in.ops[0]);
            doReturn(s, v);
            return;
        }
        case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached");
        case Instruction::Resume: {
            Val v = getv(s, in.ops[0]);
            u64 e = (u64)v.e->op(0)->val;
            unwind(s, e);
            return;
        }
        case Instruction::LandingPad: {
            Val v;
            v.e = ex::Tuple({C(s.pendExc, 64), C(s.pendSel, 32)});
            setv(s, in, v);
            f.ip++;
            return;
        }
        case Instruction::Alloca: {
            u64 n = in.size;
            auto *al = cast<AllocaInst>(in.I);
            if (al->isArrayAllocation()) n *= concretize(s, getv(s, in.ops[0]), 64);
            u32 id = s.mem.alloc(n, OStack, "stack variable", 0xCD);
            f.allocas.push_back(id);
            setv(s, in, Val(baseOf(id)));
            f.ip++;
            return;
        }
        default: break;
    }
    if (!in.simple || in.op == Instruction::ExtractValue || in.op == Instruction::InsertValue || in.op == Instruction::ExtractElement || in.op == Instruction::InsertElement) {
        execVector(s, in);
        return;
    }
    Val r;
    switch (in.op) {
        case Instruction::Load: {
            Val v = loadN(s, getv(s, in.ops[0]), in.size);
            if (in.w != in.size * 8) {
                if (v.conc()) v.c &= (u64)maskw(in.w);
                else v = fromE(ex::Extract(v.e, 0, in.w));
            }
            r = v;
            break;
        }
        case Instruction::Store: {
            Val v = getv(s, in.ops[0]);
            if (!v.conc() && v.e->w != in.size * 8) v = fromE(ex::ZExt(v.e, in.size * 8));
            storeN(s, getv(s, in.ops[1]), in.size, v);
            break;
        }
        case Instruction::GetElementPtr: {
            Val p = getv(s, in.ops[0]);
            u64 off = in.gepOff;
            bool conc = p.conc();
            for (size_t i = 0; i < in.gepIdx.size(); i++) {
                Val x = getv(s, in.ops[in.gepIdx[i].first]);
                if (x.conc()) {
                    unsigned w = in.gepW[i];
                    i64 sx = w == 64 ? (i64)x.c : (i64)(x.c << (64 - w)) >> (64 - w);
                    off += (u64)sx * in.gepIdx[i].second;
                } else
                    conc = false;
            }
            if (conc) { r = Val(p.c + off); break; }
            E e = toE(p, 64);
            for (size_t i = 0; i < in.gepIdx.size(); i++) {
                Val x = getv(s, in.ops[in.gepIdx[i].first]);
                if (!x.conc()) {
                    E xe = in.gepW[i] < 64 ? ex::SExt(x.e, 64) : x.e;
                    e = ex::Add(e, ex::Mul(xe, C(in.gepIdx[i].second, 64)));
                }
            }
            r = fromE(ex::Add(e, C(off, 64)));
            break;
        }
        case Instruction::ICmp: {
            Val a = getv(s, in.ops[0]), b = getv(s, in.ops[1]);
            if (a.conc() && b.conc() && in.w0 <= 64) r = Val(icmpC(in.pred, a.c, b.c, in.w0));
            else r = fromE(icmpE(in.pred, toE(a, in.w0), toE(b, in.w0)));
            break;
        }
        case Instruction::FCmp: {
            if (in.w0 > 64) unsupported(s, "x86_fp80");
            Val a = getv(s, in.ops[0]), b = getv(s, in.ops[1]);
            r = fromE(fcmpE(in.pred, toE(a, in.w0), toE(b, in.w0)));
            break;
        }
        case Instruction::Select: {
            Val c = getv(s, in.ops[0]);
            r = selectV(s, c, getv(s, in.ops[1]), getv(s, in.ops[2]), in.w);
            break;
        }
        case Instruction::FNeg: {
            Val a = getv(s, in.ops[0]);
            E x = toE(a, in.w);
            // keep integer-valued floats in integer form when non-zero is known is not possible; use sign flip
            r = fromE(ex::Xor(x, C((u128)1 << (in.w - 1), in.w)));
            break;
        }
        case Instruction::Freeze: r = getv(s, in.ops[0]); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            if (in.w == 80 && in.op != Instruction::FRem) {
                long double x = asX(s, getv(s, in.ops[0]), 80), y = asX(s, getv(s, in.ops[1]), 80);
                r = fromX(in.op == Instruction::FAdd ? x + y : in.op == Instruction::FSub ? x - y : in.op == Instruction::FMul ? x * y : x / y, 80);
                break;
            }
            if (in.w > 64 || in.w < 32) unsupported(s, "x86_fp80/half arithmetic");
            r = fbin(s, binK(in.op), getv(s, in.ops[0]), getv(s, in.ops[1]), in.w, in.w);
            break;
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(in.I);
            Val p = getv(s, in.ops[0]), v = getv(s, in.ops[1]);
            unsigned w = in.w, n = (w + 7) / 8;
            Val old = loadN(s, p, n);
            Val nv;
            switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = intBin(s, Instruction::Add, old, v, w); break;
                case AtomicRMWInst::Sub: nv = intBin(s, Instruction::Sub, old, v, w); break;
                case AtomicRMWInst::And: nv = intBin(s, Instruction::And, old, v, w); break;
                case AtomicRMWInst::Or: nv = intBin(s, Instruction::Or, old, v, w); break;
                case AtomicRMWInst::Xor: nv = intBin(s, Instruction::Xor, old, v, w); break;
                default: unsupported(s, "atomicrmw");
            }
            storeN(s, p, n, nv);
            r = old;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = getv(s, in.ops[0]), c = getv(s, in.ops[1]), v = getv(s, in.ops[2]);
            unsigned w = tw(in.I->getOperand(1)->getType()), n = (w + 7) / 8;
            Val old = loadN(s, p, n);
            E eq = ex::Eq(toE(old, w), toE(c, w));
            bool ok = decideFork(s, eq);
            if (ok) storeN(s, p, n, v);
            r.e = ex::Tuple({toE(old, w), C(ok, 1)});
            break;
        }
        case Instruction::Fence: break;
        default:
            if (isa<BinaryOperator>(in.I)) { r = intBin(s, in.op, getv(s, in.ops[0]), getv(s, in.ops[1]), in.w); break; }
            if (isa<CastInst>(in.I)) { r = castOp(s, in.op, getv(s, in.ops[0]), in.w0, in.w); break; }
            unsupported(s, std::string("instruction ") + in.I->getOpcodeName());
    }
    Frame &f2 = s.stack.back();
    if (in.dst >= 0) f2.slots[in.dst] = r;
    f2.ip++;
}

// ---------------------------------------------------------------- driver
static bool timedOut = false;
static void runAll(bool isInit, State **keep)
{
    while (!work.empty()) {
        State *s = work.back();
        work.pop_back();
        cur = s;
        u64 chk = 0, lastCalls = sstats.z3calls;
        bool dead = false;
        try {
            while (true) {
                if (s->stack.empty()) break;
                try {
                    step(*s);
                } catch (Fork &) {}
                if (s->insts > optMaxInst) {
                    report(*s, "limit", "instruction limit per path exceeded (possible non-termination)", s->model);
                    setIncomplete("instruction limit");
                    throw Kill{};
                }
                if (((++chk & 0x3fff) == 0 || sstats.z3calls != lastCalls) && elapsed() > optTime) { timedOut = true; break; }
                lastCalls = sstats.z3calls;
            }
            if (timedOut) { setIncomplete("time limit"); for (auto *x : work) delete x; work.clear(); return; }
            if (keep && isInit) { *keep = s; return; }
            nPathsDone++;
            dead = true;
            if (optSamples) {
                sampleSeen++;
                sampleRng ^= sampleRng << 13; sampleRng ^= sampleRng >> 7; sampleRng ^= sampleRng << 17;
                size_t at = samples.size();
                if (at >= optSamples) at = sampleRng % sampleSeen;
                if (at < optSamples) {
                    Sample sm;
                    for (auto &in : s->inputs) {
                        std::vector<u8> b;
                        for (u32 x : in->vars) b.push_back(s->model->get(x));
                        sm.inputs.push_back({in->name, b});
                    }
                    sm.reach = s->reachLog;
                    sm.merged = s->merged;
                    if (at == samples.size()) samples.push_back(sm);
                    else samples[at] = sm;
                }
            }
        } catch (Kill &) {
            dead = true;
        } catch (Parked &) {
            finishGroup(s->groups.back());
        }
        if (dead) dropState(s);
        if (nPathsDone + nPathsAssume > optMaxPaths) { setIncomplete("path limit"); for (auto *x : work) delete x; work.clear(); return; }
    }
}
static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static const char *argEntry = "sx_main", *argFile = nullptr, *argOut = nullptr;
static bool skipCtors = false;
static void *realMain(void *)
{
    tStart = std::chrono::steady_clock::now();
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(argFile, err, ctx);
    if (!mod) { err.print("symx", errs()); exit(3); }
    M = mod.get();
    DL = &M->getDataLayout();
    registerExt();
    Function *entry = M->getFunction(argEntry);
    if (!entry) { fprintf(stderr, "no entry %s\n", argEntry); exit(3); }
    throwBadAlloc = M->getFunction("sx_throw_bad_alloc");
    State *s0 = new State();
    s0->id = ++stateIds;
    s0->model = std::make_shared<Model>();
    // addresses
    for (auto &F : *M) {
        u32 id = s0->mem.alloc(0, OFunc, "function", 0);
        gaddr[&F] = baseOf(id);
        funcOf[id] = &F;
    }
    for (auto &G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
        if (!G.hasInitializer() && sz < 64) sz = 64;
        u32 id = s0->mem.alloc(sz, OGlobal, strdup(("global " + dem(G.getName())).c_str()), 0);
        gaddr[&G] = baseOf(id);
        gvOf[id] = &G;
    }
    for (auto &G : M->globals()) {
        u32 id = (u32)(gaddr[&G] >> 32) - 1;
        ObjData *o = s0->mem.writable(id);
        if (G.hasInitializer()) initMem(o, 0, G.getInitializer());
        if (G.isConstant()) o->kind = OConst;
    }
    // global constructors
    State *ready = s0;
    if (!skipCtors) {
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
            if (gc->hasInitializer() && isa<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<u64, Function *>> cs;
                auto *arr = cast<ConstantArray>(gc->getInitializer());
                for (unsigned i = 0; i < arr->getNumOperands(); i++) {
                    auto *st = cast<ConstantStruct>(arr->getOperand(i));
                    auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
                    if (fn) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
                }
                std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &c : cs) {
                    std::vector<Val> none;
                    pushCall(*ready, c.second, none);
                    work.push_back(ready);
                    State *k = nullptr;
                    runAll(true, &k);
                    if (!k) { fprintf(stderr, "symx: global constructor %s failed\n", c.second->getName().str().c_str());
                        for (auto &v : violations) fprintf(stderr, "  %s %s\n%s", v.kind.c_str(), v.msg.c_str(), v.trace.c_str());
                        for (auto &u : unmodelled) fprintf(stderr, "  unmodelled %s\n", u.first.c_str());
                        exit(3); }
                    ready = k;
                    ready->insts = 0;
                }
            }
        }
    }
    u64 initInst = nInst;
    std::vector<Val> none;
    pushCall(*ready, entry, none);
    work.push_back(ready);
    runAll(false, nullptr);
    // ---- report
    FILE *o = argOut ? fopen(argOut, "w") : stdout;
    fprintf(o, "{\n \"entry\": \"%s\",\n", argEntry);
    fprintf(o, " \"params\": [");
    for (size_t i = 0; i < optParams.size(); i++) fprintf(o, "%s%lld", i ? ", " : "", optParams[i]);
    fprintf(o, "],\n \"complete\": %s,\n", incomplete ? "false" : "true");
    fprintf(o, " \"incomplete\": {");
    bool first = true;
    for (auto &p : incompleteWhy) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n \"paths\": %llu,\n \"paths_assumed_away\": %llu,\n \"forks\": %llu,\n \"merges\": %llu,\n \"instructions\": %llu,\n \"init_instructions\": %llu,\n",
        (unsigned long long)nPathsDone, (unsigned long long)nPathsAssume, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nInst, (unsigned long long)initInst);
    fprintf(o, " \"asserts_evaluated\": %llu,\n \"assert_queries\": %llu,\n \"symbolic_bounds_checks\": %llu,\n", (unsigned long long)nAsserts, (unsigned long long)nAssertQueries, (unsigned long long)nMemChecks);
    fprintf(o, " \"queries\": %llu,\n \"solver_calls\": %llu,\n \"cache_hits\": %llu,\n \"model_hits\": %llu,\n \"sat\": %llu,\n \"unsat\": %llu,\n \"unknown\": %llu,\n \"solver_time\": %.3f,\n \"max_query_time\": %.3f,\n \"wall\": %.3f,\n \"exprs\": %llu,\n",
        (unsigned long long)sstats.queries, (unsigned long long)sstats.z3calls, (unsigned long long)sstats.cacheHits, (unsigned long long)sstats.modelHits, (unsigned long long)sstats.sat, (unsigned long long)sstats.unsat, (unsigned long long)sstats.unknown, sstats.time, sstats.maxTime, elapsed(), (unsigned long long)ex::count());
    fprintf(o, " \"reached\": {");
    first = true;
    for (auto &p : reached) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n \"functions\": {");
    first = true;
    for (auto &p : ifuncs)
        if (p.second->calls) { fprintf(o, "%s\n  \"%s\": %llu", first ? "" : ",", jesc(dem(p.second->name)).c_str(), (unsigned long long)p.second->calls); first = false; }
    fprintf(o, "},\n \"violations\": [");
    first = true;
    for (auto &v : violations) {
        fprintf(o, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"loc\": \"%s\", \"trace\": \"%s\", \"inputs\": [", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.trace).c_str());
        bool f2 = true;
        for (auto &in : v.inputs) {
            fprintf(o, "%s[\"%s\", \"", f2 ? "" : ", ", jesc(in.first).c_str());
            for (u8 b : in.second) fprintf(o, "%02x", b);
            fprintf(o, "\"]");
            f2 = false;
        }
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "],\n \"samples\": [");
    first = true;
    for (auto &sm : samples) {
        fprintf(o, "%s\n  {\"merged\": %s, \"reach\": [", first ? "" : ",", sm.merged ? "true" : "false");
        first = false;
        for (size_t i = 0; i < sm.reach.size(); i++) fprintf(o, "%s\"%s\"", i ? ", " : "", jesc(sm.reach[i]).c_str());
        fprintf(o, "], \"inputs\": [");
        bool f2 = true;
        for (auto &in : sm.inputs) {
            fprintf(o, "%s[\"%s\", \"", f2 ? "" : ", ", jesc(in.first).c_str());
            for (u8 b : in.second) fprintf(o, "%02x", b);
            fprintf(o, "\"]");
            f2 = false;
        }
        fprintf(o, "]}");
    }
    fprintf(o, "]\n}\n");
    if (o != stdout) fclose(o);
    fflush(nullptr);
    _exit(violations.empty() ? (incomplete ? 2 : 0) : 1);
}
int main(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return argv[++i]; };
        if (a == "--entry") argEntry = nx();
        else if (a == "--out") argOut = nx();
        else if (a == "--max-inst") optMaxInst = strtoull(nx(), 0, 0);
        else if (a == "--time") { optTime = atof(nx()); solverDeadline = optTime; }
        else if (a == "--solver-timeout") solverTimeoutMs = atoi(nx());
        else if (a == "--param") optParams.push_back(atoll(nx()));
        else if (a == "--merge-fn") optMergePats.push_back(nx());
        else if (a == "--concretize-cap") optConcretizeCap = strtoull(nx(), 0, 0);
        else if (a == "--max-alloc") optMaxAlloc = strtoull(nx(), 0, 0);
        else if (a == "--max-depth") optMaxDepth = strtoull(nx(), 0, 0);
        else if (a == "--max-viol") optMaxViol = strtoull(nx(), 0, 0);
        else if (a == "--samples") optSamples = strtoull(nx(), 0, 0);
        else if (a == "--seed") sampleRng ^= strtoull(nx(), 0, 0) * 0x9e3779b97f4a7c15ull;
        else if (a == "--max-paths") optMaxPaths = strtoull(nx(), 0, 0);
        else if (a == "--fp-abstract") optFPAbstract = true;
        else if (a == "--no-fp-int") ex::fpExactInt = false;
        else if (a == "--no-ctors") skipCtors = true;
        else if (a == "-v") optVerbose = true;
        else if (a[0] == '-') { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
        else argFile = argv[i];
    }
    if (!argFile) { fprintf(stderr, "usage: symx [options] file.bc\n"); return 3; }
    pthread_attr_t at;
    pthread_attr_init(&at);
    size_t ss = 4ull << 30;
    void *stk = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_setstack(&at, stk, ss);
    pthread_t t;
    if (pthread_create(&t, &at, realMain, nullptr)) { perror("pthread"); return 3; }
    pthread_join(t, nullptr);
    return 3;
}
