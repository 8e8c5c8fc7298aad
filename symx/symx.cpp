// symx: a path-forking symbolic executor for LLVM IR (LLVM 18, Z3).
//
// Every path of the program within the bounds is followed; branch
// feasibility, assertion violations and symbolic addresses are decided by Z3
// over bit-vectors.  Exhausting the work list means: the assertions hold for
// every value of the symbolic inputs within the bounds the program assumes.
#include "expr.h"
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static Clock::time_point t_start;
static double now_s() { return std::chrono::duration<double>(Clock::now() - t_start).count(); }

// ------------------------------------------------------------------ values
struct Val { uint64_t c = 0; E e = nullptr; uint8_t w = 0; std::vector<Val>* agg = nullptr; };
static Val vc(uint64_t c, unsigned w) { Val v; v.c = c & maskw(w); v.w = (uint8_t)w; return v; }
static Val ve(E e) { if (isc(e)) return vc(e->c, e->w); Val v; v.e = e; v.w = e->w; return v; }
static E toE(const Val& v) { return v.e ? v.e : mkc(v.c, v.w); }

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_Global, K_Stack, K_Heap };
struct SymByte { E e; uint16_t idx; };          // byte idx of e
struct Obj {
    uint32_t refs = 0;
    uint64_t base = 0, size = 0; Kind kind = K_Heap; bool ro = false;
    const Value* src = nullptr;                 // allocating instruction/global
    std::vector<uint8_t> data;
    std::vector<uint8_t> st;                    // empty: all concrete. 0 conc,1 sym,2 uninit
    std::map<uint32_t, SymByte> sym;
};
struct ObjP {
    Obj* p = nullptr;
    ObjP() {}
    explicit ObjP(Obj* o) : p(o) { ++p->refs; }
    ObjP(const ObjP& o) : p(o.p) { if (p) ++p->refs; }
    ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->refs == 0) delete p; }
    Obj* operator->() const { return p; }
};

struct Frame {
    const Function* f; const BasicBlock* bb; const BasicBlock* prev = nullptr;
    BasicBlock::const_iterator it;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    uint64_t varargBase = 0;
};

struct InputRec { E e; uint64_t c; };

struct State {
    std::vector<Frame> stack;
    std::map<uint64_t, std::vector<Frame>> coros;
    std::map<uint64_t, ObjP> mem;
    std::vector<std::pair<uint64_t, uint64_t>> freed;
    uint64_t nextAddr = 0x512820000000;
    std::vector<E> pc;
    std::unordered_map<E, uint64_t> concr;
    std::vector<uint8_t> pin;                   // variables the path fixes
    unsigned npin = 0;
    std::map<uint32_t, uint64_t> dom;           // small choice variables: values left (bit mask)
    std::vector<uint64_t> model;
    std::vector<E> inputs;
    uint64_t steps = 0;
    uint32_t forks = 0;
    std::set<std::string> reached;
};

// ------------------------------------------------------------------ globals
static LLVMContext ctx;
static std::unique_ptr<Module> mod;
static const DataLayout* DL;
static std::map<uint64_t, ObjP> baseMem;        // initial globals
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function*> faddr;
static std::unordered_map<const Function*, std::unordered_map<const Value*, unsigned>*> numbering;
static std::unordered_map<const Function*, unsigned> nregs;

static uint64_t maxSteps = 3000000;
static uint64_t maxEnum = 600;
static unsigned maxViol = 6;
static double timeLimit = 800;
static int workers = 1;
static int solverTimeoutMs = 120000;

struct Viol { std::string kind, msg, where, stack; std::vector<uint64_t> inputs; };
static std::unordered_set<const BasicBlock*> bbexec;                 // blocks entered (coverage report)
struct Stats {
    uint64_t paths = 0, pathsAssumed = 0, steps = 0, forks = 0, queries = 0, cacheHits = 0, modelHits = 0,
             sat = 0, unsat = 0, unknown = 0, asserts = 0, assertsSym = 0, uninit = 0, maxDepth = 0, unconf = 0;
    double solver = 0;
    bool incomplete = false;
    std::string error;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, std::vector<uint64_t>> witness;
    std::map<std::string, std::pair<std::string,uint64_t>> funcs;   // name -> file, instructions
    std::map<std::string, uint64_t> assertSites;
    std::vector<Viol> viols;
    std::vector<std::vector<uint64_t>> candidates;  // inputs leading to where the search gave up
    std::set<std::string> violKeys;
};
static Stats S;

static std::deque<State*> work;
static bool mergeOn = false;
static uint64_t mergedStates = 0;
static const Function* entryFn = nullptr;
static State* running = nullptr;
static void giveUp(const State* s);
static void fatal(const std::string& m) { if (S.error.empty()) { S.error = m; if (running) giveUp(running); } throw std::string(m); }

// ------------------------------------------------------------------ solver
static Z3_solver solver;
struct VecHash { size_t operator()(const std::vector<E>& v) const { size_t h = v.size(); for (E e : v) h = h * 1000003 ^ e->id; return h; } };
static std::unordered_map<E, Z3_ast> litOf;
static size_t maxLits = 2500;
struct QRes { int r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::vector<E>, QRes, VecHash> qcache;

// slice of pc transitively sharing variables with cond
static void slicePc(const std::vector<E>& pc, E cond, std::vector<E>& out) {
    std::vector<uint32_t> vs = varsOf(cond);
    std::unordered_set<uint32_t> have(vs.begin(), vs.end());
    std::vector<char> taken(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!taken[i]) {
            auto& pv = varsOf(pc[i]);
            bool hit = false;
            for (auto v : pv) if (have.count(v)) { hit = true; break; }
            if (hit) { taken[i] = 1; ch = true; for (auto v : pv) have.insert(v); }
        }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (taken[i]) out.push_back(pc[i]);
}

// is pc && cond satisfiable?  On sat the model (for the slice) goes to vals.
static bool solve(const std::vector<E>& pc, E cond, std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    if (isc(cond)) { vals.clear(); return cond->c; }
    std::vector<E> cs;
    slicePc(pc, cond, cs);
    cs.push_back(cond);
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    auto it = qcache.find(cs);
    if (it != qcache.end()) { S.cacheHits++; vals = it->second.vals; return it->second.r; }
    auto t0 = Clock::now();
    std::set<uint32_t> vs;
    std::vector<Z3_ast> as;
    if (litOf.size() > maxLits) { litOf.clear(); Z3_solver_reset(zc, solver); }
    for (E c : cs) {
        Z3_ast& l = litOf[c];
        if (!l) {
            l = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("l" + std::to_string(c->id)).c_str()), Z3_mk_bool_sort(zc));
            Z3_inc_ref(zc, l);
            Z3_solver_assert(zc, solver, Z3_mk_implies(zc, l, toBool(c)));
        }
        as.push_back(l);
        for (auto v : varsOf(c)) vs.insert(v);
    }
    Z3_lbool r = Z3_solver_check_assumptions(zc, solver, (unsigned)as.size(), as.data());
    QRes q; q.r = r == Z3_L_TRUE;
    S.queries++;
    if (r == Z3_L_TRUE) {
        S.sat++;
        Z3_model m = Z3_solver_get_model(zc, solver);
        Z3_model_inc_ref(zc, m);
        for (auto v : vs) {
            Z3_ast out; uint64_t val = 0;
            if (Z3_model_eval(zc, m, toBV(g_vars[v]), true, &out)) Z3_get_numeral_uint64(zc, out, &val);
            q.vals.push_back({v, val});
        }
        Z3_model_dec_ref(zc, m);
    } else if (r == Z3_L_FALSE) S.unsat++;
    else { S.unknown++; S.solver += std::chrono::duration<double>(Clock::now() - t0).count(); fatal("solver answered unknown"); }
    S.solver += std::chrono::duration<double>(Clock::now() - t0).count();
    vals = q.vals;
    qcache.emplace(std::move(cs), std::move(q));
    return vals.size() || r == Z3_L_TRUE;
}
static void setModel(std::vector<uint64_t>& m, const std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    for (auto& p : vals) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
}
// Transitivity: pc contains a chain of comparisons that contradicts cond.
// (A cheap sound pre-check; whatever it does not refute goes to Z3.)
struct OrdEdge { E a, b; bool strict; };
static void ordEdges(E c, Op cmp, std::vector<OrdEdge>& out) {
    bool neg = false;
    if (c->op == O_Xor && c->w == 1 && isc(c->k[1]) && c->k[1]->c == 1) { neg = true; c = c->k[0]; }
    if (c->op == cmp) { if (!neg) out.push_back({c->k[0], c->k[1], true}); else out.push_back({c->k[1], c->k[0], false}); }
    else if (c->op == O_Eq && !neg) { out.push_back({c->k[0], c->k[1], false}); out.push_back({c->k[1], c->k[0], false}); }
}
static bool ordPath(const std::vector<OrdEdge>& g, E from, E to, bool needStrict) {
    // breadth first over (node, strict seen)
    std::vector<std::pair<E, bool>> q{{from, false}};
    std::set<std::pair<E, bool>> seen{{from, false}};
    for (size_t i = 0; i < q.size(); ++i) {
        auto [n, st] = q[i];
        if (n == to && (st || !needStrict)) return true;
        for (auto& e : g) if (e.a == n) {
            std::pair<E, bool> x{e.b, st || e.strict};
            if (seen.insert(x).second) q.push_back(x);
        }
    }
    return false;
}
static uint64_t ordRefuted = 0;
static bool orderRefutes(const std::vector<E>& pc, E cond) {
    E c = cond; bool neg = false;
    if (c->op == O_Xor && c->w == 1 && isc(c->k[1]) && c->k[1]->c == 1) { neg = true; c = c->k[0]; }
    if (c->w == 1 && (c->op == O_And || c->op == O_Or) && !isc(c->k[1])) {
        E x = neg ? mknot(c->k[0]) : c->k[0], y = neg ? mknot(c->k[1]) : c->k[1];
        bool conj = (c->op == O_And) != neg;
        bool rx = orderRefutes(pc, x);
        if (conj ? rx : !rx) return conj;
        return orderRefutes(pc, y);
    }
    if (c->op != O_Ult && c->op != O_Slt && c->op != O_Eq) return false;
    E a = c->k[0], b = c->k[1];
    if (isc(a) || isc(b)) return false;
    for (Op cmp : {O_Ult, O_Slt}) {
        if (c->op != O_Eq && c->op != cmp) continue;
        std::vector<OrdEdge> g;
        for (E p : pc) ordEdges(p, cmp, g);
        if (g.empty()) continue;
        if (c->op == O_Eq) {
            if (!neg) { if (ordPath(g, a, b, true) || ordPath(g, b, a, true)) return true; }
            else if (ordPath(g, a, b, false) && ordPath(g, b, a, false)) return true;
        } else if (!neg) { if (ordPath(g, b, a, false)) return true; }
        else if (ordPath(g, a, b, true)) return true;
    }
    return false;
}
// what the path condition says about single variables, put into e
static bool pinned(const State& s, uint32_t v) { return v < s.pin.size() && s.pin[v]; }
static E substPins(const State& s, E e, std::unordered_map<E, E>& memo) {
    if (e->op == O_Const) return e;
    if (e->op == O_Var) return pinned(s, (uint32_t)e->c) ? mkc(s.model[e->c], e->w) : e;
    auto& vs = varsOf(e);
    bool any = false;
    for (auto v : vs) if (pinned(s, v)) { any = true; break; }
    if (!any) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = e->k[0] ? substPins(s, e->k[0], memo) : nullptr, b = e->k[1] ? substPins(s, e->k[1], memo) : nullptr,
      c = e->k[2] ? substPins(s, e->k[2], memo) : nullptr, r;
    switch (e->op) {
    case O_Ite: r = mkite(a, b, c); break;
    case O_ZExt: r = mkzext(a, e->w); break;
    case O_SExt: r = mksext(a, e->w); break;
    case O_Extract: r = mkextract(a, e->off, e->w); break;
    case O_Concat: r = mkconcat(a, b); break;
    default: r = mkbin(e->op, a, b);
    }
    memo[e] = r;
    return r;
}
static E simp(const State& s, E e) {
    if (!s.npin || e->op == O_Const) return e;
    auto& vs = varsOf(e);
    unsigned n = 0;
    for (auto v : vs) if (pinned(s, v)) ++n;
    if (!n) return e;
    if (n == vs.size()) return mkc(evalE(e, s.model), e->w);
    std::unordered_map<E, E> memo;
    return substPins(s, e, memo);
}
// Small choice variables (vf_below(n), n <= 64) carry the set of values the
// single-variable constraints leave; a condition over such variables that no
// combination satisfies is refuted here.  (Sound; the rest goes to Z3.)
static uint64_t domRefuted = 0;
static bool domRefutes(const State& s, E cond) {
    auto& vs = varsOf(cond);
    if (vs.empty() || vs.size() > 3) return false;
    uint64_t n = 1;
    std::vector<std::vector<uint64_t>> d;
    std::vector<uint64_t> m = s.model;
    for (auto v : vs) {
        if (m.size() <= v) m.resize(v + 1, 0);
        std::vector<uint64_t> x;
        if (pinned(s, v)) x.push_back(s.model[v]);
        else {
            auto it = s.dom.find(v);
            if (it == s.dom.end()) return false;
            for (unsigned k = 0; k < 64; ++k) if (it->second >> k & 1) x.push_back(k);
        }
        n *= x.size();
        if (n > 512) return false;
        d.push_back(x);
    }
    std::vector<size_t> ix(vs.size(), 0);
    while (true) {
        for (size_t i = 0; i < vs.size(); ++i) m[vs[i]] = d[i][ix[i]];
        if (evalE(cond, m)) return false;
        size_t i = 0;
        while (i < vs.size() && ++ix[i] == d[i].size()) ix[i++] = 0;
        if (i == vs.size()) return true;
    }
}
// feasible?  model: a full model of pc && cond when it is.
static bool feasible(const State& s, E cond, std::vector<uint64_t>* model) {
    cond = simp(s, cond);
    if (isc(cond)) { if (cond->c && model) *model = s.model; return cond->c; }
    if (evalE(cond, s.model)) { S.modelHits++; if (model) *model = s.model; return true; }
    if (orderRefutes(s.pc, cond)) { ordRefuted++; return false; }
    if (domRefutes(s, cond)) { domRefuted++; return false; }
    std::vector<std::pair<uint32_t, uint64_t>> vals;
    if (!solve(s.pc, cond, vals)) return false;
    if (model) { *model = s.model; setModel(*model, vals); }
    return true;
}
static void addPc(State& s, E c) {
    if (isc(c)) return;
    if (c->op == O_And && c->w == 1) { addPc(s, c->k[0]); addPc(s, c->k[1]); return; }
    if (c->op == O_Eq && isc(c->k[1])) {
        s.concr[c->k[0]] = c->k[1]->c;
        E v = c->k[0];
        if (v->op == O_Var) {
            if (s.pin.size() <= v->c) s.pin.resize(v->c + 1, 0);
            if (!s.pin[v->c]) { s.pin[v->c] = 1; s.npin++; }
            if (s.model.size() <= v->c) s.model.resize(v->c + 1, 0);
            s.model[v->c] = c->k[1]->c;
        }
    }
    s.pc.push_back(c);
    auto& vs = varsOf(c);
    if (vs.size() == 1 && !pinned(s, vs[0])) {
        auto it = s.dom.find(vs[0]);
        if (it != s.dom.end()) {
            uint32_t v = vs[0];
            std::vector<uint64_t> m = s.model;
            if (m.size() <= v) m.resize(v + 1, 0);
            uint64_t left = 0; unsigned n = 0, last = 0;
            for (unsigned k = 0; k < 64; ++k) if (it->second >> k & 1) { m[v] = k; if (evalE(c, m)) { left |= 1ULL << k; ++n; last = k; } }
            it->second = left;
            if (n == 1) addPc(s, mkraw(O_Eq, 1, 0, g_vars[v], mkc(last, g_vars[v]->w)));
        }
    }
}

// ------------------------------------------------------------------ reports
static std::string locOf(const Instruction* i) {
    if (!i) return "?";
    if (const DILocation* d = i->getDebugLoc().get())
        return (d->getFilename() + ":" + Twine(d->getLine())).str();
    return i->getFunction()->getName().str();
}
static std::string shortName(const std::string& n) {
    size_t p = n.find("_V0_4_");
    return p == std::string::npos ? n : n.substr(p + 6);
}
static std::vector<uint64_t> inputValues(const State& s, const std::vector<uint64_t>& m) {
    std::vector<uint64_t> r;
    for (E e : s.inputs) r.push_back(evalE(e, m));
    return r;
}
// the inputs of a path the search did not finish: tried on the real code
static void giveUp(const State* s) { if (S.candidates.size() < 6) S.candidates.push_back(inputValues(*s, s->model)); }
static const Instruction* curInst(const State& s) {
    if (s.stack.empty()) return nullptr;
    const Frame& f = s.stack.back();
    return f.it == f.bb->end() ? nullptr : &*f.it;
}
static void report(const State& s, const std::string& kind, const std::string& msg, const std::vector<uint64_t>& model) {
    Viol v; v.kind = kind; v.msg = msg;
    v.where = locOf(curInst(s));
    std::string key = kind + "|" + msg + "|" + v.where;
    if (!S.violKeys.insert(key).second) return;
    for (size_t i = s.stack.size(); i-- > 0;) {
        const Frame& f = s.stack[i];
        BasicBlock::const_iterator it = f.it;
        const Instruction* in = nullptr;
        if (i + 1 == s.stack.size()) in = it == f.bb->end() ? nullptr : &*it;
        else if (it != f.bb->begin()) in = &*std::prev(it);
        v.stack += shortName(f.f->getName().str()) + " (" + locOf(in) + ")\n";
    }
    v.inputs = inputValues(s, model);
    S.viols.push_back(v);
}
struct PathEnd {};
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg) {
    report(s, kind, msg, s.model);
    throw PathEnd();
}

// ------------------------------------------------------------------ memory ops
static ObjP* findObj(State& s, uint64_t a, bool forWrite) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        Obj* o = it->second.p;
        if (a - o->base < o->size || (o->size == 0 && a == o->base)) {
            if (forWrite && o->refs > 1) { Obj* n = new Obj(*o); n->refs = 0; it->second = ObjP(n); }
            return &it->second;
        }
    }
    auto ib = baseMem.upper_bound(a);
    if (ib != baseMem.begin()) {
        --ib;
        Obj* o = ib->second.p;
        if (a - o->base < o->size) {
            auto is = s.mem.find(o->base);
            if (is != s.mem.end()) return &is->second;
            if (!forWrite) return &ib->second;
            Obj* n = new Obj(*o); n->refs = 0;
            auto r = s.mem.emplace(o->base, ObjP(n));
            return &r.first->second;
        }
    }
    return nullptr;
}
static uint64_t allocObj(State& s, uint64_t size, Kind k, const Value* src, bool zero, uint64_t at = 0) {
    Obj* o = new Obj();
    o->size = size; o->kind = k; o->src = src;
    o->base = at ? at : s.nextAddr;
    o->data.assign(size, 0);
    if (!zero && size) o->st.assign(size, 2);
    if (!at) s.nextAddr = (s.nextAddr + size + 64 + 15) & ~15ULL;
    s.mem.emplace(o->base, ObjP(o));
    return o->base;
}
static std::string describeBad(State& s, uint64_t a, uint64_t n) {
    std::ostringstream os;
    if (a < 4096) { os << "null pointer dereference"; return os.str(); }
    for (auto& f : s.freed) if (a >= f.first && a < f.first + std::max<uint64_t>(f.second, 1)) { os << "use after free (" << n << " bytes)"; return os.str(); }
    for (auto& p : s.mem) { Obj* o = p.second.p;
        if (a + 48 >= o->base && a <= o->base + o->size + 48) { os << "out-of-bounds access of " << n << " bytes"; return os.str(); } }
    os << "access of " << n << " bytes at an invalid address";
    return os.str();
}
static Obj* access(State& s, uint64_t a, uint64_t n, bool write, uint64_t& off) {
    ObjP* p = findObj(s, a, write);
    if (!p || a - (*p)->base + n > (*p)->size) violate(s, "memory", std::string(write ? "write: " : "read: ") + describeBad(s, a, n));
    if (write && (*p)->ro) violate(s, "memory", "write to constant data");
    off = a - (*p)->base;
    return p->p;
}
static E byteE(State& s, Obj*& o, uint64_t a, uint64_t off) {
    if (o->st.empty() || o->st[off] == 0) return mkc(o->data[off], 8);
    if (o->st[off] == 2) {
        uint64_t d;
        o = access(s, a, 1, !o->ro, d);
        E v = mkvar(8);
        S.uninit++;
        o->st[off] = 1; o->sym[(uint32_t)off] = SymByte{v, 0};
        return v;
    }
    auto& b = o->sym[(uint32_t)off];
    return mkextract(b.e, b.idx * 8, 8);
}
static Val loadInt(State& s, uint64_t a, unsigned w) {
    unsigned n = (w + 7) / 8;
    uint64_t off;
    Obj* o = access(s, a, n, false, off);
    bool conc = true;
    if (!o->st.empty()) for (unsigned i = 0; i < n; ++i) if (o->st[off + i]) { conc = false; break; }
    if (conc) {
        uint64_t v = 0;
        memcpy(&v, &o->data[off], n);
        return vc(v, w);
    }
    // one whole symbolic word?
    if (o->st[off] == 1) {
        auto& b0 = o->sym[(uint32_t)off];
        if (b0.idx == 0 && b0.e->w == n * 8) {
            bool whole = true;
            for (unsigned i = 1; i < n && whole; ++i) {
                if (o->st[off + i] != 1) { whole = false; break; }
                auto& b = o->sym[(uint32_t)(off + i)];
                if (b.e != b0.e || b.idx != i) whole = false;
            }
            if (whole) return ve(mkextract(b0.e, 0, w));
        }
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        E b = byteE(s, o, a, off + i);
        r = r ? mkconcat(b, r) : b;
    }
    return ve(mkextract(r, 0, w));
}
static void storeInt(State& s, uint64_t a, const Val& v) {
    unsigned n = (v.w + 7) / 8;
    uint64_t off;
    Obj* o = access(s, a, n, true, off);
    if (!v.e) {
        uint64_t c = v.c;
        memcpy(&o->data[off], &c, n);
        if (!o->st.empty()) for (unsigned i = 0; i < n; ++i) {
            if (o->st[off + i] == 1) o->sym.erase((uint32_t)(off + i));
            o->st[off + i] = 0;
        }
        return;
    }
    E e = mkzext(v.e, n * 8);
    if (o->st.empty()) o->st.assign(o->size, 0);
    for (unsigned i = 0; i < n; ++i) {
        E b = mkextract(e, i * 8, 8);
        if (isc(b)) { if (o->st[off + i] == 1) o->sym.erase((uint32_t)(off + i)); o->st[off + i] = 0; o->data[off + i] = (uint8_t)b->c; }
        else { o->st[off + i] = 1; o->sym[(uint32_t)(off + i)] = SymByte{e, (uint16_t)i}; }
    }
}
static void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (n == 0 || dst == src) return;
    uint64_t so, d;
    Obj* a = access(s, src, n, false, so);
    // snapshot (handles overlap)
    std::vector<uint8_t> data(a->data.begin() + so, a->data.begin() + so + n), st;
    std::vector<std::pair<uint32_t, SymByte>> sym;
    if (!a->st.empty()) {
        st.assign(a->st.begin() + so, a->st.begin() + so + n);
        for (auto it = a->sym.lower_bound((uint32_t)so); it != a->sym.end() && it->first < so + n; ++it)
            sym.push_back({(uint32_t)(it->first - so), it->second});
    }
    Obj* o = access(s, dst, n, true, d);
    memcpy(&o->data[d], data.data(), n);
    if (!o->st.empty() && !o->sym.empty())
        o->sym.erase(o->sym.lower_bound((uint32_t)d), o->sym.lower_bound((uint32_t)(d + n)));
    if (st.empty()) { if (!o->st.empty()) memset(&o->st[d], 0, n); }
    else {
        if (o->st.empty()) o->st.assign(o->size, 0);
        memcpy(&o->st[d], st.data(), n);
        for (auto& p : sym) o->sym[(uint32_t)(d + p.first)] = p.second;
    }
}

static void fillMem(State& s, uint64_t dst, uint8_t v, uint64_t n) {
    uint64_t d;
    Obj* o = access(s, dst, n, true, d);
    memset(&o->data[d], v, n);
    if (!o->st.empty()) {
        memset(&o->st[d], 0, n);
        if (!o->sym.empty()) o->sym.erase(o->sym.lower_bound((uint32_t)d), o->sym.lower_bound((uint32_t)(d + n)));
    }
}
static void noOverlap(State& s, uint64_t d, uint64_t r, uint64_t n) {
    if (d != r && d < r + n && r < d + n) violate(s, "memory", "copy between overlapping blocks");
}
// Leading bytes (at most n) that are known to be the same at a and b.
static uint64_t commonBytes(State& s, uint64_t a, uint64_t b, uint64_t n) {
    ObjP* p = findObj(s, a, false); ObjP* q = findObj(s, b, false);
    if (!p || !q) return 0;
    const Obj* x = p->p; const Obj* y = q->p;
    uint64_t i = a - x->base, j = b - y->base;
    if (i >= x->size || j >= y->size) return 0;
    n = std::min(n, std::min(x->size - i, y->size - j));
    for (uint64_t k = 0; k < n; ++k) {
        if ((!x->st.empty() && x->st[i + k]) || (!y->st.empty() && y->st[j + k]) || x->data[i + k] != y->data[j + k]) return k;
    }
    return n;
}
// Leading bytes (at most n) at a that are known and differ from v.
static uint64_t otherBytes(State& s, uint64_t a, uint8_t v, uint64_t n) {
    ObjP* p = findObj(s, a, false);
    if (!p) return 0;
    const Obj* x = p->p;
    uint64_t i = a - x->base;
    if (i >= x->size) return 0;
    n = std::min(n, x->size - i);
    for (uint64_t k = 0; k < n; ++k) if ((!x->st.empty() && x->st[i + k]) || x->data[i + k] == v) return k;
    return n;
}

static uint64_t knownBytes(State& s, uint64_t a, uint64_t n) {
    ObjP* p = findObj(s, a, false);
    if (!p) return 0;
    const Obj* x = p->p;
    uint64_t i = a - x->base;
    if (i >= x->size) return 0;
    n = std::min(n, x->size - i);
    for (uint64_t k = 0; k < n; ++k) if (!x->st.empty() && x->st[i + k]) return k;
    return n;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant* c);
static uint64_t constAddr(const Constant* c) { return constVal(c).c; }
static Val zeroOf(Type* t) {
    if (t->isIntegerTy()) return vc(0, t->getIntegerBitWidth());
    if (t->isPointerTy()) return vc(0, 64);
    if (auto* st = dyn_cast<StructType>(t)) { Val v; v.agg = new std::vector<Val>(); for (auto* e : st->elements()) v.agg->push_back(zeroOf(e)); return v; }
    if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = new std::vector<Val>(); for (unsigned i = 0; i < at->getNumElements(); ++i) v.agg->push_back(zeroOf(at->getElementType())); return v; }
    fatal("zeroOf: unsupported type"); return Val();
}
static Val constVal(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() > 64) fatal("integer wider than 64 bits");
        return vc(i->getZExtValue(), i->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return vc(0, 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) fatal("unknown global " + g->getName().str());
        return vc(it->second, 64);
    }
    if (auto* st = dyn_cast<ConstantStruct>(c)) { Val v; v.agg = new std::vector<Val>(); for (auto& o : st->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) fatal("constant gep");
            return vc(constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val v = constVal(ce->getOperand(0));
            unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getIntegerBitWidth();
            return vc(v.c, w);
        }
        case Instruction::Add: return vc(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, ce->getType()->getIntegerBitWidth());
        case Instruction::Sub: return vc(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, ce->getType()->getIntegerBitWidth());
        case Instruction::ICmp: break;
        }
    }
    std::string t; raw_string_ostream os(t); c->print(os);
    fatal("unsupported constant " + os.str());
    return Val();
}
static void writeInit(Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        unsigned es = (unsigned)DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) writeInit(o, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeInit(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    Val v = constVal(c);
    memcpy(&o->data[off], &v.c, DL->getTypeStoreSize(t));
}

// ------------------------------------------------------------------ setup
static void numberFunction(const Function& f) {
    auto* m = new std::unordered_map<const Value*, unsigned>();
    unsigned n = 0;
    for (auto& a : f.args()) (*m)[&a] = n++;
    for (auto& b : f) for (auto& i : b) if (!i.getType()->isVoidTy()) (*m)[&i] = n++;
    numbering[&f] = m; nregs[&f] = n;
}
static void setupModule() {
    DL = &mod->getDataLayout();
    uint64_t fa = 0x100000;
    for (auto& f : *mod) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; if (!f.isDeclaration()) numberFunction(f); }
    uint64_t a = 0x10000000;
    std::vector<GlobalVariable*> gs;
    auto put = [&](GlobalVariable& g) {
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
        Obj* o = new Obj(); o->base = a; o->size = sz; o->kind = K_Global; o->ro = g.isConstant(); o->src = &g; o->data.assign(sz, 0);
        a = (a + sz + 64 + 15) & ~15ULL;
        gaddr[&g] = o->base;
        baseMem.emplace(o->base, ObjP(o));
        gs.push_back(&g);
    };
    // named sections lie together; the linker's __start_ and __stop_ symbols bound them
    std::map<std::string, std::vector<GlobalVariable*>> sections;
    for (auto& g : mod->globals()) if (g.hasSection() && !g.isDeclaration()) sections[g.getSection().str()].push_back(&g);
    std::map<std::string, std::pair<uint64_t, uint64_t>> bounds;
    for (auto& p : sections) {
        uint64_t b = a;
        for (auto* g : p.second) put(*g);
        bounds[p.first] = {b, a};
        a += 256;
    }
    for (auto& g : mod->globals()) {
        if (gaddr.count(&g)) continue;
        StringRef n = g.getName();
        bool st = n.starts_with("__start_"), sp = n.starts_with("__stop_");
        if (g.isDeclaration() && (st || sp) && bounds.count(n.substr(st ? 8 : 7).str())) {
            auto& b = bounds[n.substr(st ? 8 : 7).str()];
            gaddr[&g] = st ? b.first : b.second;
            continue;
        }
        put(g);
    }
    for (auto* g : gs) if (g->hasInitializer()) writeInit(baseMem.find(gaddr[g])->second.p, 0, g->getInitializer());
}

// ------------------------------------------------------------------ execute
struct FnCache { const Function* f = nullptr; std::unordered_map<const Value*, unsigned>* m = nullptr; };
static FnCache fnc;
static inline std::unordered_map<const Value*, unsigned>* numOf(const Function* f) {
    if (fnc.f != f) { fnc.f = f; fnc.m = numbering[f]; }
    return fnc.m;
}
static inline Val op(State& s, const Value* v) {
    if (isa<Constant>(v)) return constVal(cast<Constant>(v));
    Frame& f = s.stack.back();
    Val& r = f.regs[numOf(f.f)->find(v)->second];
    if (r.e && s.npin) {
        auto& vs = varsOf(r.e);
        bool all = vs.size() <= 8;
        if (all) for (auto x : vs) if (!pinned(s, x)) { all = false; break; }
        if (all) r = vc(evalE(r.e, s.model), r.w);
    }
    return r;
}
static inline void setReg(State& s, const Value* i, const Val& v) {
    Frame& f = s.stack.back();
    f.regs[numOf(f.f)->find(i)->second] = v;
}

static std::map<std::string, uint64_t> forkAt;          // with SYMX_FORKS set: forks per source line
static bool forkLog = getenv("SYMX_FORKS") != nullptr;
static State* cloneState(State& s) { if (forkLog) forkAt[locOf(curInst(s))]++; State* n = new State(s); n->forks++; s.forks++; S.forks++; return n; }

// every value e can take over its variables' domains is in seen
static bool domOnly(State& s, E e, const std::set<uint64_t>& seen) {
    auto& vs = varsOf(e);
    if (vs.size() != 1 || pinned(s, vs[0])) return false;
    auto it = s.dom.find(vs[0]);
    if (it == s.dom.end()) return false;
    std::vector<uint64_t> m = s.model;
    if (m.size() <= vs[0]) m.resize(vs[0] + 1, 0);
    for (unsigned k = 0; k < 64; ++k) if (it->second >> k & 1) { m[vs[0]] = k; if (!seen.count(evalE(e, m))) return false; }
    domRefuted++;
    return true;
}
// a symbolic address that may lie outside every object
static bool wild(State& s, const Val& v, const char* what) {
    if (std::string(what) != "address") return false;
    E in = mkc(0, 1);
    for (auto& p : s.mem) {
        Obj* o = p.second.p;
        if (o->size) in = mkbin(O_Or, in, mkbin(O_Ult, mkbin(O_Sub, v.e, mkc(o->base, 64)), mkc(o->size, 64)));
    }
    std::vector<uint64_t> m;
    if (!feasible(s, mknot(in), &m)) return false;
    report(s, "memory", "access outside every object", m);
    return true;
}
// make v concrete, forking one state per feasible value.  Nothing of the
// current instruction may have been executed yet: the forks re-execute it.
static uint64_t concretize(State& s, const Val& v0, const char* what) {
    if (!v0.e) return v0.c;
    Val v = ve(simp(s, v0.e));
    if (!v.e) return v.c;
    auto it = s.concr.find(v.e);
    if (it != s.concr.end()) return it->second;
    uint64_t first = evalE(v.e, s.model);
    std::vector<E> excl = s.pc;
    E ne = mknot(mkbin(O_Eq, v.e, mkc(first, v.w)));
    uint64_t n = 1;
    std::set<uint64_t> seen{first};
    std::vector<std::pair<uint64_t, std::vector<std::pair<uint32_t, uint64_t>>>> others;
    while (true) {
        std::vector<std::pair<uint32_t, uint64_t>> vals;
        if (isc(ne) ? !ne->c : domOnly(s, v.e, seen)) break;
        if (!solve(excl, ne, vals)) break;
        std::vector<uint64_t> m = s.model;
        setModel(m, vals);
        uint64_t x = evalE(v.e, m);
        others.push_back({x, vals});
        seen.insert(x);
        if (++n > maxEnum && wild(s, v, what)) throw PathEnd();
        if (n > maxEnum) fatal(std::string("more than ") + std::to_string(maxEnum) + " values for a symbolic " + what + " at " + locOf(curInst(s)));
        excl.push_back(ne);
        ne = mknot(mkbin(O_Eq, v.e, mkc(x, v.w)));
    }
    for (auto& p : others) {
        State* c = cloneState(s);
        E eq = mkbin(O_Eq, v.e, mkc(p.first, v.w));
        addPc(*c, eq);
        c->concr[v.e] = p.first;
        setModel(c->model, p.second);
        work.push_back(c);
    }
    addPc(s, mkbin(O_Eq, v.e, mkc(first, v.w)));
    s.concr[v.e] = first;
    return first;
}
// decide a condition; forks.  same re-execution rule as concretize.
static bool decide(State& s, const Val& c0) {
    if (!c0.e) return c0.c & 1;
    Val c = ve(simp(s, c0.e));
    if (!c.e) return c.c & 1;
    auto it = s.concr.find(c.e);
    if (it != s.concr.end()) return it->second;
    E t = c.e, f = mknot(c.e);
    bool mv = evalE(t, s.model);
    std::vector<uint64_t> om;
    if (feasible(s, mv ? f : t, &om)) {
        State* n = cloneState(s);
        addPc(*n, mv ? f : t);
        n->concr[t] = !mv; n->concr[f] = mv;
        n->model = om;
        work.push_back(n);
        addPc(s, mv ? t : f);
    }
    s.concr[t] = mv; s.concr[f] = !mv;
    return mv;
}

static std::string cstr(State& s, uint64_t a) {
    std::string r;
    while (true) { Val v = loadInt(s, a++, 8); if (v.e || v.c == 0) break; r += (char)v.c; }
    return r;
}

static Val freshInput(State& s, unsigned w) {
    // inputs are numbered per path position so that equal positions share a variable
    static std::map<std::pair<size_t, unsigned>, E> pool;
    auto key = std::make_pair(s.inputs.size(), w);
    auto it = pool.find(key);
    E e;
    if (it == pool.end()) { e = mkvar(w); pool[key] = e; } else e = it->second;
    // a variable of the pool is unconstrained on this path: position used once
    s.inputs.push_back(e);
    return ve(e);
}

static void endPath(State& s) {
    S.paths++;
    S.maxDepth = std::max<uint64_t>(S.maxDepth, s.forks);
    for (auto& r : s.reached) {
        S.reach[r]++;
        if (!S.witness.count(r)) S.witness[r] = inputValues(s, s.model);
    }
    throw PathEnd();
}

static void loadTyped(State& s, uint64_t a, Type* t, Val& out) {
    if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) fatal("load wider than 64 bits"); out = loadInt(s, a, t->getIntegerBitWidth()); return; }
    if (t->isPointerTy()) { out = loadInt(s, a, 64); return; }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        out = Val(); out.agg = new std::vector<Val>(st->getNumElements());
        for (unsigned i = 0; i < st->getNumElements(); ++i) loadTyped(s, a + sl->getElementOffset(i), st->getElementType(i), (*out.agg)[i]);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        out = Val(); out.agg = new std::vector<Val>(at->getNumElements());
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) loadTyped(s, a + i * es, at->getElementType(), (*out.agg)[i]);
        return;
    }
    fatal("load of unsupported type");
}
static void storeTyped(State& s, uint64_t a, Type* t, const Val& v) {
    if (v.agg) {
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) storeTyped(s, a + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]);
        } else {
            auto* at = cast<ArrayType>(t);
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i) storeTyped(s, a + i * es, at->getElementType(), (*v.agg)[i]);
        }
        return;
    }
    storeInt(s, a, v);
}

static void freePtr(State& s, uint64_t a) {
    if (a == 0) return;
    ObjP* p = findObj(s, a, false);
    if (!p) {
        for (auto& f : s.freed) if (a == f.first) violate(s, "memory", "double free");
        violate(s, "memory", "free of an invalid pointer");
    }
    if ((*p)->kind != K_Heap || (*p)->base != a) violate(s, "memory", "free of a pointer that was not allocated");
    s.freed.push_back({a, (*p)->size});
    s.mem.erase(a);
}

static void pushFrame(State& s, const Function* f, const std::vector<Val>& args) {
    if (s.stack.size() > 400) violate(s, "limit", "call depth limit exceeded (unbounded recursion)");
    s.stack.emplace_back();
    Frame& fr = s.stack.back();
    fr.f = f; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); bbexec.insert(fr.bb);
    fr.regs.resize(nregs[f]);
    unsigned i = 0;
    for (auto& a : f->args()) { (void)a; fr.regs[i] = args[i]; ++i; }
    if (f->isVarArg()) {
        // all variadic arguments live in one overflow area
        uint64_t n = args.size() - i;
        uint64_t base = allocObj(s, n * 8 + 8, K_Stack, nullptr, true);
        s.stack.back().allocas.push_back(base);
        s.stack.back().varargBase = base;
        for (uint64_t k = 0; k < n; ++k) {
            Val v = args[i + k];
            if (v.agg || v.w > 64) fatal("variadic aggregate");
            if (v.w < 64) v = v.e ? ve(mkzext(v.e, 64)) : vc(v.c, 64);
            storeInt(s, base + 8 * k, v);
        }
    }
}

static std::map<std::string, int> intr;
enum { I_U8 = 1, I_U16, I_U32, I_U64, I_BOOL, I_BELOW, I_ASSUME, I_ASSERT, I_REACH, I_MALLOC, I_CALLOC, I_FREE, I_REALLOC,
       I_MEMCPY, I_MEMSET, I_ASSERTFAIL, I_ABORT, I_CORO_MAKE, I_CORO_SWITCH, I_ISVALID, I_NOTE, I_COMMON, I_OTHER, I_KNOWN, I_FAR };

static bool callIntrinsic(State& s, const CallBase* ci, const Function* f, bool& handled);

static void doCall(State& s, const CallBase* ci) {
    const Function* f = nullptr;
    const Value* callee = ci->getCalledOperand()->stripPointerCasts();
    if (isa<InlineAsm>(callee)) {
        const InlineAsm* ia = cast<InlineAsm>(callee);
        if (ia->getAsmString().empty()) { s.stack.back().it++; return; }
        fatal("inline asm");
    }
    if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliasee();
    f = dyn_cast<Function>(callee);
    if (!f) {
        Val v = op(s, ci->getCalledOperand());
        uint64_t a = concretize(s, v, "function pointer");
        auto it = faddr.find(a);
        if (it == faddr.end()) violate(s, "memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
        f = it->second;
    }
    if (f->isDeclaration()) {
        bool handled = false;
        callIntrinsic(s, ci, f, handled);
        if (!handled) fatal("call of external function " + f->getName().str());
        return;
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < ci->arg_size(); ++i) {
        Val v = op(s, ci->getArgOperand(i));
        if (ci->isByValArgument(i)) {
            uint64_t n = DL->getTypeAllocSize(ci->getParamByValType(i));
            uint64_t a = allocObj(s, n, K_Stack, nullptr, false);
            copyMem(s, a, concretize(s, v, "pointer"), n);
            v = vc(a, 64);
        }
        args.push_back(v);
    }
    if (args.size() < f->arg_size()) {
        // a variadic libc function called through its fixed-arity stand-in
        if (f->getName().starts_with("vf_sys_")) {
            while (args.size() < f->arg_size()) {
                Type* t = (f->arg_begin() + args.size())->getType();
                args.push_back(vc(0, t->isPointerTy() ? 64 : t->getIntegerBitWidth()));
            }
        } else violate(s, "memory", "call with too few arguments");
    }
    for (auto& a : f->args()) {
        unsigned k = a.getArgNo();
        if (!a.getType()->isIntegerTy() || args[k].agg) continue;
        unsigned w = a.getType()->getIntegerBitWidth();
        if (args[k].w < w) args[k] = args[k].e ? ve(mkzext(args[k].e, w)) : vc(args[k].c, w);
        else if (args[k].w > w) args[k] = args[k].e ? ve(mkextract(args[k].e, 0, w)) : vc(args[k].c, w);
    }
    s.stack.back().it++;
    pushFrame(s, f, args);
}

static bool callIntrinsic(State& s, const CallBase* ci, const Function* f, bool& handled) {
    handled = true;
    Frame* fr = &s.stack.back();
    auto A = [&](unsigned i) { return op(s, ci->getArgOperand(i)); };
    auto retv = [&](const Val& v) { if (!ci->getType()->isVoidTy()) setReg(s, ci, v); s.stack.back().it++; };
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::vaend:
            fr->it++; return true;
        case Intrinsic::stacksave: retv(vc(1, 64)); return true;
        case Intrinsic::stackrestore: fr->it++; return true;
        case Intrinsic::expect: retv(A(0)); return true;
        case Intrinsic::is_constant: retv(vc(0, 1)); return true;
        case Intrinsic::objectsize: retv(vc(~0ULL, ci->getType()->getIntegerBitWidth())); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: {
            uint64_t n = concretize(s, A(2), "copy length"), d = concretize(s, A(0), "pointer"), r = concretize(s, A(1), "pointer");
            if (f->getIntrinsicID() == Intrinsic::memcpy) noOverlap(s, d, r, n);
            copyMem(s, d, r, n); fr->it++; return true; }
        case Intrinsic::memset: {
            uint64_t n = concretize(s, A(2), "fill length"), d = concretize(s, A(0), "pointer");
            Val v = A(1);
            if (n) { uint64_t off; Obj* o = access(s, d, n, true, off);
                if (!v.e) { memset(&o->data[off], (int)v.c, n);
                    if (!o->st.empty()) { memset(&o->st[off], 0, n); o->sym.erase(o->sym.lower_bound((uint32_t)off), o->sym.lower_bound((uint32_t)(off + n))); } }
                else for (uint64_t i = 0; i < n; ++i) storeInt(s, d + i, v); }
            fr->it++; return true; }
        case Intrinsic::vastart: {
            uint64_t a = concretize(s, A(0), "pointer");
            storeInt(s, a, vc(48, 32)); storeInt(s, a + 4, vc(304, 32));
            storeInt(s, a + 8, vc(fr->varargBase, 64)); storeInt(s, a + 16, vc(0, 64));
            fr->it++; return true; }
        case Intrinsic::vacopy: {
            copyMem(s, concretize(s, A(0), "pointer"), concretize(s, A(1), "pointer"), 24); fr->it++; return true; }
        case Intrinsic::bswap: {
            Val v = A(0); E e = toE(v); E r = nullptr;
            for (int i = v.w - 8; i >= 0; i -= 8) { E b = mkextract(e, i, 8); r = r ? mkconcat(b, r) : b; }
            retv(ve(r)); return true; }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bitreverse: {
            E e = toE(A(0)); unsigned w = e->w; auto id = f->getIntrinsicID();
            if (id == Intrinsic::ctpop) { E r = mkc(0, w); for (unsigned i = 0; i < w; ++i) r = mkbin(O_Add, r, mkzext(mkextract(e, i, 1), w)); retv(ve(r)); return true; }
            if (id == Intrinsic::bitreverse) { E r = nullptr; for (unsigned i = 0; i < w; ++i) { E b = mkextract(e, i, 1); r = r ? mkconcat(r, b) : b; } retv(ve(r)); return true; }
            // a zero argument yields w here (the source may speculate it; using that value is outside the model)
            E r = mkc(w, w);
            for (unsigned i = 0; i < w; ++i) { unsigned b = id == Intrinsic::ctlz ? i : w - 1 - i;
                r = mkite(mkextract(e, b, 1), mkc(id == Intrinsic::ctlz ? w - 1 - b : b, w), r); }
            retv(ve(r)); return true; }
        case Intrinsic::abs: { E a = toE(A(0)); E z = mkc(0, a->w); retv(ve(mkite(mkbin(O_Slt, a, z), mkbin(O_Sub, z, a), a))); return true; }
        case Intrinsic::uadd_sat: { E a = toE(A(0)), b = toE(A(1)), r = mkbin(O_Add, a, b); retv(ve(mkite(mkbin(O_Ult, r, a), mkc(~0ULL >> (64 - a->w), a->w), r))); return true; }
        case Intrinsic::usub_sat: { E a = toE(A(0)), b = toE(A(1)); retv(ve(mkite(mkbin(O_Ult, a, b), mkc(0, a->w), mkbin(O_Sub, a, b)))); return true; }
        case Intrinsic::umax: { E a = toE(A(0)), b = toE(A(1)); retv(ve(mkite(mkbin(O_Ult, a, b), b, a))); return true; }
        case Intrinsic::umin: { E a = toE(A(0)), b = toE(A(1)); retv(ve(mkite(mkbin(O_Ult, a, b), a, b))); return true; }
        case Intrinsic::smax: { E a = toE(A(0)), b = toE(A(1)); retv(ve(mkite(mkbin(O_Slt, a, b), b, a))); return true; }
        case Intrinsic::smin: { E a = toE(A(0)), b = toE(A(1)); retv(ve(mkite(mkbin(O_Slt, a, b), a, b))); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E a = toE(A(0)), b = toE(A(1)), c = toE(A(2)); unsigned w = a->w;
            if (!isc(c)) fatal("funnel shift by a symbolic amount");
            unsigned k = (unsigned)(c->c % w);
            bool l = f->getIntrinsicID() == Intrinsic::fshl;
            E r = k == 0 ? (l ? a : b) : l ? mkbin(O_Or, mkbin(O_Shl, a, mkc(k, w)), mkbin(O_LShr, b, mkc(w - k, w)))
                                           : mkbin(O_Or, mkbin(O_Shl, a, mkc(w - k, w)), mkbin(O_LShr, b, mkc(k, w)));
            retv(ve(r)); return true; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            E a = toE(A(0)), b = toE(A(1)); unsigned w = a->w; E r, o; E z = mkc(0, w);
            switch (f->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: r = mkbin(O_Add, a, b); o = mkbin(O_Ult, r, a); break;
            case Intrinsic::usub_with_overflow: r = mkbin(O_Sub, a, b); o = mkbin(O_Ult, a, b); break;
            case Intrinsic::umul_with_overflow: r = mkbin(O_Mul, a, b);
                o = mkite(mkbin(O_Eq, b, z), mkc(0, 1), mknot(mkbin(O_Eq, mkbin(O_UDiv, r, b), a))); break;
            case Intrinsic::sadd_with_overflow: r = mkbin(O_Add, a, b);
                o = mkbin(O_Slt, mkbin(O_And, mkbin(O_Xor, a, r), mkbin(O_Xor, b, r)), z); break;
            case Intrinsic::ssub_with_overflow: r = mkbin(O_Sub, a, b);
                o = mkbin(O_Slt, mkbin(O_And, mkbin(O_Xor, a, b), mkbin(O_Xor, a, r)), z); break;
            default: { if (w > 32) fatal("smul.with.overflow i64");
                E x = mkbin(O_Mul, mksext(a, 64), mksext(b, 64)); r = mkextract(x, 0, w); o = mknot(mkbin(O_Eq, mksext(r, 64), x)); } }
            Val v; v.agg = new std::vector<Val>{ve(r), ve(o)}; retv(v); return true; }
        case Intrinsic::ubsantrap: case Intrinsic::trap: violate(s, "ub", "undefined behaviour (sanitizer trap)");
        default: handled = false; return false;
        }
    }
    auto it = intr.find(f->getName().str());
    if (it == intr.end()) { handled = false; return false; }
    switch (it->second) {
    case I_U8: retv(freshInput(s, 8)); break;
    case I_U16: retv(freshInput(s, 16)); break;
    case I_U32: retv(freshInput(s, 32)); break;
    case I_U64: retv(freshInput(s, 64)); break;
    case I_BOOL: { Val v = freshInput(s, 1); s.dom[(uint32_t)v.e->c] = 3; retv(v); break; }
    case I_BELOW: {
        Val n = A(0);
        Val v = freshInput(s, 32);
        E c = mkbin(O_Ult, toE(v), toE(n));
        std::vector<uint64_t> m;
        if (!feasible(s, c, &m)) { S.pathsAssumed++; throw PathEnd(); }
        s.model = m;
        if (!n.e && n.c <= 64) s.dom[(uint32_t)v.e->c] = n.c == 64 ? ~0ULL : (1ULL << n.c) - 1;
        addPc(s, c);
        retv(v); break; }
    case I_ASSUME: {
        Val c = A(0);
        E b = mknot(mkbin(O_Eq, toE(c), mkc(0, c.w)));
        std::vector<uint64_t> m;
        if (!feasible(s, b, &m)) { S.pathsAssumed++; throw PathEnd(); }
        s.model = m; addPc(s, b);
        fr->it++; break; }
    case I_ASSERT: {
        Val c = A(0);
        std::string msg = cstr(s, A(1).c);
        S.asserts++; S.assertSites[msg + " @" + locOf(ci)]++;
        E b = mknot(mkbin(O_Eq, toE(c), mkc(0, c.w)));
        std::vector<uint64_t> m;
        if (!isc(b)) S.assertsSym++;
        if (feasible(s, mknot(b), &m)) {
            report(s, "assert", msg, m);
            if (!feasible(s, b, &m)) throw PathEnd();
            s.model = m; addPc(s, b);
        }
        fr->it++; break; }
    case I_REACH: s.reached.insert(cstr(s, A(0).c)); fr->it++; break;
    case I_NOTE: fr->it++; break;
    case I_FAR: {
        uint64_t n = concretize(s, A(0), "allocation size"), at = 0x612800000000ULL + (concretize(s, A(1), "place") << 32);
        if (s.mem.count(at)) fatal("vf_sym_far: the place is in use");
        retv(vc(allocObj(s, n, K_Heap, ci, false, at), 64)); break; }
    case I_MALLOC: { uint64_t n = concretize(s, A(0), "allocation size"); retv(vc(allocObj(s, n, K_Heap, ci, false), 64)); break; }
    case I_CALLOC: { uint64_t a = concretize(s, A(0), "allocation size"), b = concretize(s, A(1), "allocation size");
        retv(vc(allocObj(s, a * b, K_Heap, ci, true), 64)); break; }
    case I_FREE: { uint64_t a = concretize(s, A(0), "pointer"); freePtr(s, a); fr->it++; break; }
    case I_REALLOC: {
        uint64_t p = concretize(s, A(0), "pointer"), n = concretize(s, A(1), "allocation size");
        uint64_t na = allocObj(s, n, K_Heap, ci, false);
        if (p) {
            ObjP* o = findObj(s, p, false);
            if (!o || (*o)->kind != K_Heap || (*o)->base != p) violate(s, "memory", "realloc of an invalid pointer");
            copyMem(s, na, p, std::min(n, (*o)->size));
            freePtr(s, p);
        }
        retv(vc(na, 64)); break; }
    case I_MEMCPY: {
        uint64_t n = concretize(s, A(2), "copy length"), d = concretize(s, A(0), "pointer"), r = concretize(s, A(1), "pointer");
        if (f->getName() == "memcpy") noOverlap(s, d, r, n);
        copyMem(s, d, r, n); retv(vc(d, 64)); break; }
    case I_MEMSET: {
        uint64_t n = concretize(s, A(2), "fill length"), d = concretize(s, A(0), "pointer");
        Val v = A(1); v = v.e ? ve(mkextract(v.e, 0, 8)) : vc(v.c, 8);
        if (n && !v.e) fillMem(s, d, (uint8_t)v.c, n);
        else if (n) { uint64_t off; access(s, d, n, true, off); for (uint64_t i = 0; i < n; ++i) storeInt(s, d + i, v); }
        retv(vc(d, 64)); break; }
    case I_COMMON: {
        Val a = A(0), b = A(1), n = A(2);
        retv(vc(a.e || b.e || n.e ? 0 : commonBytes(s, a.c, b.c, n.c), 64)); break; }
    case I_OTHER: {
        Val a = A(0), c = A(1), n = A(2);
        retv(vc(a.e || c.e || n.e ? 0 : otherBytes(s, a.c, (uint8_t)c.c, n.c), 64)); break; }
    case I_KNOWN: {
        Val a = A(0), n = A(1);
        retv(vc(a.e || n.e ? 0 : knownBytes(s, a.c, n.c), 64)); break; }
    case I_ASSERTFAIL: violate(s, "assert", "assert() failed: " + cstr(s, A(0).c));
    case I_ABORT: violate(s, "abort", "abort/exit called");
    case I_CORO_MAKE: { // key, fn, arg0, arg1
        uint64_t key = concretize(s, A(0), "pointer"), fn = concretize(s, A(1), "function pointer");
        Val a0 = A(2), a1 = A(3);
        auto fi = faddr.find(fn);
        if (fi == faddr.end()) violate(s, "memory", "coroutine entry is not a function");
        fr->it++;
        std::vector<Frame> save; save.swap(s.stack);
        pushFrame(s, fi->second, {a0, a1});
        s.coros[key].swap(s.stack);
        s.stack.swap(save);
        break; }
    case I_CORO_SWITCH: { // from key, to key
        uint64_t from = concretize(s, A(0), "pointer"), to = concretize(s, A(1), "pointer");
        fr->it++;
        if (from == to) break;
        auto ti = s.coros.find(to);
        if (ti == s.coros.end() || ti->second.empty()) violate(s, "memory", "switch to a fiber that has no saved context");
        s.coros[from].swap(s.stack);
        s.stack.swap(s.coros[to]);
        s.coros.erase(to);
        break; }
    default: handled = false;
    }
    return true;
}

static void gotoBlock(State& s, const BasicBlock* bb) {
    Frame& f = s.stack.back();
    f.prev = f.bb; f.bb = bb; f.it = bb->begin(); bbexec.insert(bb);
    // evaluate the phis in parallel
    std::vector<std::pair<const Value*, Val>> ph;
    for (auto& p : bb->phis()) { ph.push_back({&p, op(s, p.getIncomingValueForBlock(f.prev))}); f.it++; }
    for (auto& x : ph) setReg(s, x.first, x.second);
}

static std::unordered_map<const Function*, uint64_t> fexec;

static bool mergeRegion(State& s, const Instruction* i);
static void branch(State& s, const Instruction* i);

// A load at a symbolic offset of a constant table (a read-only global, or bytes
// of a local array that are all concrete) becomes an if-then-else tree over the
// offset instead of one path per entry.  Whether the offset lies inside the table
// is decided first; outside it the ordinary path (one per address) goes on.
static bool tableLoad(State& s, const Val& av0, Type* t, Val& out) {
    if (!t->isIntegerTy()) return false;
    unsigned w = t->getIntegerBitWidth(), n = (w + 7) / 8;
    Val av = ve(simp(s, av0.e));
    if (!av.e || s.concr.count(av.e)) return false;
    uint64_t a = evalE(av.e, s.model);
    ObjP* op_ = findObj(s, a, false);
    if (!op_) return false;
    Obj* o = op_->p; uint64_t base = o->base;
    if (o->size < n || o->size > 4096 || o->size < 2) return false;
    if (!(o->ro && o->kind == K_Global) && !((o->kind == K_Stack || o->kind == K_Global) && w == 8)) return false;
    for (uint8_t x : o->st) if (x) return false;
    E off = mkbin(O_Sub, av.e, mkc(base, 64));
    uint64_t last = o->size - n;
    if (a - base > last) return false;
    if (!decide(s, ve(mkbin(O_Ule, off, mkc(last, 64))))) return false;
    unsigned bits = 0; while ((1ULL << bits) <= last) ++bits;
    std::vector<E> bit(bits);
    for (unsigned k = 0; k < bits; ++k) bit[k] = mkextract(off, k, 1);
    std::function<E(uint64_t, unsigned)> tree = [&](uint64_t lo, unsigned k) -> E {
        if (lo > last) return nullptr;
        if (k == 0) { uint64_t v = 0; memcpy(&v, &o->data[lo], n); return mkc(w < 64 ? v & ((1ULL << w) - 1) : v, w); }
        E b = bit[k - 1];
        if (isc(b)) return tree(b->c ? lo + (1ULL << (k - 1)) : lo, k - 1);
        E l = tree(lo, k - 1), h = tree(lo + (1ULL << (k - 1)), k - 1);
        if (!h) return l;
        if (!l) return h;
        return l == h ? l : mkite(b, h, l);
    };
    E r = tree(0, bits);
    if (!r) return false;
    out = ve(r);
    return true;
}

static void step(State& s) {
    Frame& fr = s.stack.back();
    const Instruction* i = &*fr.it;
    s.steps++; S.steps++;
    fexec[fr.f]++;
    if (s.steps > maxSteps) violate(s, "limit", "step limit exceeded (no termination within the bound)");
    switch (i->getOpcode()) {
    case Instruction::Ret: {
        Val rv; bool has = false;
        if (i->getNumOperands()) { rv = op(s, i->getOperand(0)); has = true; }
        for (auto a : fr.allocas) { auto it = s.mem.find(a); s.freed.push_back({a, it->second->size}); s.mem.erase(it); }
        const Function* done = fr.f;
        s.stack.pop_back();
        if (s.stack.empty()) {
            if (done == entryFn) endPath(s);
            violate(s, "memory", "a fiber entry function returned");
        }
        Frame& c = s.stack.back();
        const Instruction* call = &*std::prev(c.it);
        if (has && !call->getType()->isVoidTy()) setReg(s, call, rv);
        return; }
    case Instruction::Br: case Instruction::Switch:
        if (!mergeOn || !mergeRegion(s, i)) branch(s, i);
        return;
    case Instruction::Unreachable: violate(s, "ub", "unreachable code reached");
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(i);
        uint64_t n = 1;
        if (a->isArrayAllocation()) n = concretize(s, op(s, a->getArraySize()), "array size");
        uint64_t ad = allocObj(s, n * DL->getTypeAllocSize(a->getAllocatedType()), K_Stack, a, false);
        s.stack.back().allocas.push_back(ad);
        setReg(s, i, vc(ad, 64)); break; }
    case Instruction::Load: {
        Val av = op(s, i->getOperand(0));
        Val tv;
        if (av.e && tableLoad(s, av, i->getType(), tv)) { setReg(s, i, tv); break; }
        uint64_t a = concretize(s, av, "address");
        Val v; loadTyped(s, a, i->getType(), v); setReg(s, i, v); break; }
    case Instruction::Store: {
        uint64_t a = concretize(s, op(s, i->getOperand(1)), "address");
        storeTyped(s, a, i->getOperand(0)->getType(), op(s, i->getOperand(0))); break; }
    case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(i);
        Val base = op(s, g->getPointerOperand());
        uint64_t c = base.e ? 0 : base.c; E e = base.e;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (auto* st = gi.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            Val ix = op(s, gi.getOperand());
            if (!ix.e) c += (uint64_t)sextw(ix.c, ix.w) * es;
            else {
                E t = mkbin(O_Mul, mksext(ix.e, 64), mkc(es, 64));
                e = e ? mkbin(O_Add, e, t) : t;
            }
        }
        setReg(s, i, e ? ve(mkbin(O_Add, e, mkc(c, 64))) : vc(c, 64)); break; }
    case Instruction::ICmp: {
        auto* ic = cast<ICmpInst>(i);
        E a, b; Val x = op(s, ic->getOperand(0)), y = op(s, ic->getOperand(1));
        if (!x.e && !y.e) {
            uint64_t p = x.c, q = y.c; int64_t sp = sextw(p, x.w), sq = sextw(q, x.w); bool r = false;
            switch (ic->getPredicate()) {
            case CmpInst::ICMP_EQ: r = p == q; break; case CmpInst::ICMP_NE: r = p != q; break;
            case CmpInst::ICMP_ULT: r = p < q; break; case CmpInst::ICMP_ULE: r = p <= q; break;
            case CmpInst::ICMP_UGT: r = p > q; break; case CmpInst::ICMP_UGE: r = p >= q; break;
            case CmpInst::ICMP_SLT: r = sp < sq; break; case CmpInst::ICMP_SLE: r = sp <= sq; break;
            case CmpInst::ICMP_SGT: r = sp > sq; break; case CmpInst::ICMP_SGE: r = sp >= sq; break;
            default: fatal("icmp"); }
            setReg(s, i, vc(r, 1)); break;
        }
        a = toE(x); b = toE(y); E r = nullptr;
        switch (ic->getPredicate()) {
        case CmpInst::ICMP_EQ: r = mkbin(O_Eq, a, b); break;
        case CmpInst::ICMP_NE: r = mknot(mkbin(O_Eq, a, b)); break;
        case CmpInst::ICMP_ULT: r = mkbin(O_Ult, a, b); break;
        case CmpInst::ICMP_ULE: r = mkbin(O_Ule, a, b); break;
        case CmpInst::ICMP_UGT: r = mkbin(O_Ult, b, a); break;
        case CmpInst::ICMP_UGE: r = mkbin(O_Ule, b, a); break;
        case CmpInst::ICMP_SLT: r = mkbin(O_Slt, a, b); break;
        case CmpInst::ICMP_SLE: r = mkbin(O_Sle, a, b); break;
        case CmpInst::ICMP_SGT: r = mkbin(O_Slt, b, a); break;
        case CmpInst::ICMP_SGE: r = mkbin(O_Sle, b, a); break;
        default: fatal("icmp"); }
        setReg(s, i, ve(r)); break; }
    case Instruction::Select: {
        Val c = op(s, i->getOperand(0)), a = op(s, i->getOperand(1)), b = op(s, i->getOperand(2));
        if (!c.e) setReg(s, i, c.c ? a : b);
        else if (a.agg || b.agg || i->getType()->isPointerTy()) setReg(s, i, decide(s, c) ? a : b);
        else setReg(s, i, ve(mkite(c.e, toE(a), toE(b))));
        break; }
    case Instruction::Trunc: { Val v = op(s, i->getOperand(0)); unsigned w = i->getType()->getIntegerBitWidth(); setReg(s, i, v.e ? ve(mkextract(v.e, 0, w)) : vc(v.c, w)); break; }
    case Instruction::ZExt: { Val v = op(s, i->getOperand(0)); unsigned w = i->getType()->getIntegerBitWidth(); if (w > 64) fatal("integer wider than 64 bits"); setReg(s, i, v.e ? ve(mkzext(v.e, w)) : vc(v.c, w)); break; }
    case Instruction::SExt: { Val v = op(s, i->getOperand(0)); unsigned w = i->getType()->getIntegerBitWidth(); if (w > 64) fatal("integer wider than 64 bits"); setReg(s, i, v.e ? ve(mksext(v.e, w)) : vc((uint64_t)sextw(v.c, v.w), w)); break; }
    case Instruction::PtrToInt: { Val v = op(s, i->getOperand(0)); unsigned w = i->getType()->getIntegerBitWidth(); setReg(s, i, v.e ? ve(mkextract(v.e, 0, w)) : vc(v.c, w)); break; }
    case Instruction::IntToPtr: { Val v = op(s, i->getOperand(0)); setReg(s, i, v.e ? ve(mkzext(v.e, 64)) : vc(v.c, 64)); break; }
    case Instruction::BitCast: case Instruction::Freeze: setReg(s, i, op(s, i->getOperand(0))); break;
    case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(i); Val v = op(s, x->getAggregateOperand());
        for (unsigned k : x->indices()) { Val t = (*v.agg)[k]; v = t; }
        setReg(s, i, v); break; }
    case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(i); Val v = op(s, x->getAggregateOperand());
        if (x->getNumIndices() != 1) fatal("nested insertvalue");
        Val n; n.agg = new std::vector<Val>(*v.agg); (*n.agg)[x->getIndices()[0]] = op(s, x->getInsertedValueOperand());
        setReg(s, i, n); break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        Op o;
        switch (i->getOpcode()) {
        case Instruction::Add: o = O_Add; break; case Instruction::Sub: o = O_Sub; break; case Instruction::Mul: o = O_Mul; break;
        case Instruction::And: o = O_And; break; case Instruction::Or: o = O_Or; break; case Instruction::Xor: o = O_Xor; break;
        case Instruction::Shl: o = O_Shl; break; case Instruction::LShr: o = O_LShr; break; case Instruction::AShr: o = O_AShr; break;
        case Instruction::UDiv: o = O_UDiv; break; case Instruction::SDiv: o = O_SDiv; break; case Instruction::URem: o = O_URem; break; default: o = O_SRem; }
        Val x = op(s, i->getOperand(0)), y = op(s, i->getOperand(1));
        if (!i->getType()->isIntegerTy()) fatal("vector or float arithmetic");
        if (o >= O_UDiv && o <= O_SRem) {
            E z = mkbin(O_Eq, toE(y), mkc(0, y.w));
            std::vector<uint64_t> m;
            if (feasible(s, z, &m)) { report(s, "ub", "division by zero", m); if (!feasible(s, mknot(z), &m)) throw PathEnd(); s.model = m; addPc(s, mknot(z)); }
        }
        if (!x.e && !y.e) { bool ok; setReg(s, i, vc(fold(o, x.w, x.c, y.c, ok), x.w)); }
        else setReg(s, i, ve(mkbin(o, toE(x), toE(y))));
        break; }
    case Instruction::Call: doCall(s, cast<CallBase>(i)); return;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg:
    default: {
        std::string t; raw_string_ostream os(t); i->print(os);
        fatal("unsupported instruction " + os.str()); }
    }
    s.stack.back().it++;
}

static void branch(State& s, const Instruction* i) {
    if (auto* b = dyn_cast<BranchInst>(i)) {
        if (b->isUnconditional()) { gotoBlock(s, b->getSuccessor(0)); return; }
        bool t = decide(s, op(s, b->getCondition()));
        gotoBlock(s, b->getSuccessor(t ? 0 : 1));
        return;
    }
    auto* sw = cast<SwitchInst>(i);
    Val v = op(s, sw->getCondition());
    if (!v.e) {
        for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == v.c) { gotoBlock(s, c.getCaseSuccessor()); return; }
        gotoBlock(s, sw->getDefaultDest()); return;
    }
    // one decision per distinct successor
    std::vector<std::pair<const BasicBlock*, E>> by;
    for (auto& c : sw->cases()) {
        E e = mkbin(O_Eq, v.e, mkc(c.getCaseValue()->getZExtValue(), v.w));
        size_t k = 0;
        while (k < by.size() && by[k].first != c.getCaseSuccessor()) ++k;
        if (k == by.size()) by.push_back({c.getCaseSuccessor(), e}); else by[k].second = mkbin(O_Or, by[k].second, e);
    }
    for (auto& p : by) if (decide(s, ve(p.second))) { gotoBlock(s, p.first); return; }
    gotoBlock(s, sw->getDefaultDest());
}

// ------------------------------------------------------------------ merging
// Paths that part at a branch and meet again at its immediate postdominator
// (or at the function's return) are joined when they agree on everything
// concrete: values that differ become if-then-else terms over the path
// conditions.  Purely a reduction of the number of paths; nothing is dropped.
static std::unordered_map<const BasicBlock*, const BasicBlock*> ipdom;
static std::unordered_set<const Function*> ipdomDone;
static const BasicBlock* ipdomOf(const BasicBlock* b) {
    const Function* f = b->getParent();
    if (ipdomDone.insert(f).second) {
        PostDominatorTree t(*const_cast<Function*>(f));
        for (auto& x : *f) { auto* n = t.getNode(const_cast<BasicBlock*>(&x)); ipdom[&x] = n && n->getIDom() ? n->getIDom()->getBlock() : nullptr; }
    }
    return ipdom[b];
}
static bool sameVal(const Val& a, const Val& b) { return !a.agg && !b.agg && a.e == b.e && a.w == b.w && (a.e || a.c == b.c); }
// merge b into a; false (a unchanged) when they do not agree
static bool mergeInto(State& a, State& b) {
    if (a.stack.size() != b.stack.size() || a.inputs != b.inputs || a.reached != b.reached || !a.coros.empty() || !b.coros.empty()) return false;
    if (a.mem.size() != b.mem.size()) return false;
    for (size_t k = 0; k < a.stack.size(); ++k) {
        Frame &x = a.stack[k], &y = b.stack[k];
        if (x.f != y.f || x.bb != y.bb || x.it != y.it || x.allocas != y.allocas || x.varargBase != y.varargBase) return false;
    }
    size_t k = 0;
    while (k < a.pc.size() && k < b.pc.size() && a.pc[k] == b.pc[k]) ++k;
    E ca = mkc(1, 1), cb = mkc(1, 1);
    for (size_t i = k; i < a.pc.size(); ++i) ca = mkbin(O_And, ca, a.pc[i]);
    for (size_t i = k; i < b.pc.size(); ++i) cb = mkbin(O_And, cb, b.pc[i]);
    // registers
    struct RegCh { size_t f, r; Val v; };
    std::vector<RegCh> rc;
    for (size_t f = 0; f < a.stack.size(); ++f) for (size_t r = 0; r < a.stack[f].regs.size(); ++r) {
        Val &x = a.stack[f].regs[r], &y = b.stack[f].regs[r];
        if (sameVal(x, y)) continue;
        if (x.agg || y.agg) { if (x.agg == y.agg) continue; rc.push_back({f, r, Val()}); continue; }
        if (x.w != y.w) { rc.push_back({f, r, Val()}); continue; }     // set on one side only
        if (!x.e && !y.e) {
            // results used only inside the region may differ freely
            rc.push_back({f, r, ve(mkite(ca, mkc(x.c, x.w), mkc(y.c, y.w)))});
            continue;
        }
        rc.push_back({f, r, ve(mkite(ca, toE(x), toE(y)))});
    }
    // memory
    struct ByteCh { uint64_t base; uint32_t off; uint8_t st; E e; uint16_t idx; };
    std::vector<ByteCh> bc;
    for (auto ia = a.mem.begin(), ib = b.mem.begin(); ia != a.mem.end(); ++ia, ++ib) {
        if (ia->first != ib->first) return false;
        Obj *x = ia->second.p, *y = ib->second.p;
        if (x == y) continue;
        if (x->size != y->size || x->kind != y->kind) return false;
        for (uint32_t o = 0; o < x->size; ++o) {
            uint8_t sx = x->st.empty() ? 0 : x->st[o], sy = y->st.empty() ? 0 : y->st[o];
            if (sx == 0 && sy == 0) { if (x->data[o] != y->data[o]) return false; continue; }
            if (sx == 2 && sy == 2) continue;
            if (sx == 2 || sy == 2) { bc.push_back({x->base, o, 1, mkvar(8), 0}); continue; }
            if (sx == 1 && sy == 1) {
                SymByte &p = x->sym[o], &q = y->sym[o];
                if (p.e == q.e && p.idx == q.idx) continue;
                if (p.e->w == q.e->w && p.idx == q.idx) { bc.push_back({x->base, o, 1, mkite(ca, p.e, q.e), p.idx}); continue; }
            }
            E p = sx ? mkextract(x->sym[o].e, x->sym[o].idx * 8, 8) : mkc(x->data[o], 8);
            E q = sy ? mkextract(y->sym[o].e, y->sym[o].idx * 8, 8) : mkc(y->data[o], 8);
            bc.push_back({x->base, o, 1, mkite(ca, p, q), 0});
        }
    }
    for (auto& c : rc) a.stack[c.f].regs[c.r] = c.v;
    for (auto& c : bc) {
        ObjP* p = findObj(a, c.base, true);
        Obj* o = p->p;
        if (o->st.empty()) o->st.assign(o->size, 0);
        if (isc(c.e)) { if (o->st[c.off] == 1) o->sym.erase(c.off); o->st[c.off] = 0; o->data[c.off] = (uint8_t)(c.e->c >> (8 * c.idx)); }
        else { o->st[c.off] = 1; o->sym[c.off] = SymByte{c.e, c.idx}; }
    }
    a.pc.resize(k);
    E dis = mkbin(O_Or, ca, cb);
    if (!isc(dis)) a.pc.push_back(dis);
    for (auto it = a.concr.begin(); it != a.concr.end();) {
        auto j = b.concr.find(it->first);
        if (j == b.concr.end() || j->second != it->second) it = a.concr.erase(it); else ++it;
    }
    for (size_t v = 0; v < a.pin.size(); ++v) if (a.pin[v] && !(v < b.pin.size() && b.pin[v] && a.model[v] == b.model[v])) { a.pin[v] = 0; a.npin--; }
    for (auto it = a.dom.begin(); it != a.dom.end();) {
        auto j = b.dom.find(it->first);
        if (j == b.dom.end()) it = a.dom.erase(it); else { it->second |= j->second; ++it; }
    }
    a.nextAddr = std::max(a.nextAddr, b.nextAddr);
    a.steps = std::max(a.steps, b.steps);
    a.forks = std::max(a.forks, b.forks);
    ++mergedStates;
    return true;
}
static int mergeDepth = 0;
static bool mergeRegion(State& s, const Instruction* i) {
    const Value* c = nullptr;
    if (auto* b = dyn_cast<BranchInst>(i)) { if (b->isUnconditional()) return false; c = b->getCondition(); }
    else c = cast<SwitchInst>(i)->getCondition();
    if (!op(s, c).e || mergeDepth > 150) return false;
    const BasicBlock* P = ipdomOf(i->getParent());
    size_t depth = s.stack.size();
    std::deque<State*> outer;
    outer.swap(work);
    branch(s, i);
    if (work.empty()) { work.swap(outer); return true; }        // one way only
    ++mergeDepth;
    auto arrived = [&](State& t) { return t.stack.size() < depth || (P && t.stack.size() == depth && t.stack.back().bb == P); };
    std::vector<State*> done;
    State* cur = new State(std::move(s));
    size_t total = 1; uint64_t st0 = S.steps;
    bool give = false;
    try {
        while (true) {
            running = cur;
            try { while (!give && !arrived(*cur)) { step(*cur); if (S.steps - st0 > 2000000 || done.size() > 400 || work.size() > 400) give = true; }
                  if (now_s() > timeLimit) { S.incomplete = true; give = true; giveUp(cur); }
                  done.push_back(cur); }
            catch (PathEnd&) { delete cur; }
            if (work.empty()) break;
            cur = work.back(); work.pop_back(); ++total;
        }
    } catch (...) { --mergeDepth; work.swap(outer); throw; }
    --mergeDepth;
    work.swap(outer);
    std::vector<State*> res;
    for (State* t : done) {
        bool m = false;
        if (!give) for (State* r : res) if (mergeInto(*r, *t)) { m = true; break; }
        if (m) delete t; else res.push_back(t);
    }
    running = &s;
    if (res.empty()) throw PathEnd();
    s = std::move(*res[0]); delete res[0];
    for (size_t k = 1; k < res.size(); ++k) work.push_back(res[k]);
    return true;
}

// run one state to the end of its path (forks go to the work list)
static void runState(State* s) {
    fnc = FnCache();
    running = s;
    try { while (true) { fnc = FnCache(); for (int k = 0; k < 2000; ++k) step(*s);
            if (now_s() > timeLimit) {
                S.incomplete = true;
                const State* far = s;
                for (State* o : work) if (o->steps > far->steps) far = o;
                giveUp(far);
                if (far != s) giveUp(s);
                break; } } }
    catch (PathEnd&) {}
    running = nullptr;
    delete s;
}

// ------------------------------------------------------------------ output
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static std::string jv(const std::vector<uint64_t>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
// SYMX_COV=FILE: append every source line of the module with whether a block starting there was entered
static void writeCoverage(const char* path) {
    std::ofstream o(path, std::ios::app);
    for (auto& fn : *mod) for (auto& bb : fn) {
        auto* sp = fn.getSubprogram();
        if (!sp) continue;
        for (auto& in : bb) if (const DebugLoc& d = in.getDebugLoc()) {
            if (d.getLine()) o << sp->getFilename().str() << ":" << d.getLine() << ":" << bbexec.count(&bb) << "\n";
        }
    }
}
static void writeResult(const std::string& path) {
    if (const char* c = getenv("SYMX_COV")) writeCoverage(c);
    for (auto& p : forkAt) fprintf(stderr, "forks %8lu %s\n", (unsigned long)p.second, p.first.c_str());
    for (auto& p : fexec) {
        std::string file;
        if (auto* sp = p.first->getSubprogram()) file = sp->getFilename().str();
        auto& x = S.funcs[p.first->getName().str()]; x.first = file; x.second += p.second;
    }
    std::ofstream o(path);
    o << "{\"paths\":" << S.paths << ",\"paths_assumed_away\":" << S.pathsAssumed << ",\"instructions\":" << S.steps << ",\"forks\":" << S.forks
      << ",\"queries\":" << S.queries << ",\"query_cache_hits\":" << S.cacheHits << ",\"model_hits\":" << S.modelHits << ",\"sat\":" << S.sat
      << ",\"unsat\":" << S.unsat << ",\"unknown\":" << S.unknown << ",\"asserts\":" << S.asserts << ",\"asserts_symbolic\":" << S.assertsSym
      << ",\"uninit_reads\":" << S.uninit << ",\"max_fork_depth\":" << S.maxDepth << ",\"solver_s\":" << S.solver << ",\"wall_s\":" << now_s()
      << ",\"order_refuted\":" << ordRefuted << ",\"domain_refuted\":" << domRefuted << ",\"merged\":" << mergedStates << ",\"vars\":" << g_nvars << ",\"exprs\":" << g_nexpr
      << ",\"incomplete\":" << (S.incomplete ? "true" : "false") << ",\"error\":" << js(S.error);
    o << ",\"reach\":{"; bool f = true;
    for (auto& p : S.reach) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
    o << "},\"witness\":{"; f = true;
    for (auto& p : S.witness) { o << (f ? "" : ",") << js(p.first) << ":" << jv(p.second); f = false; }
    o << "},\"assert_sites\":{"; f = true;
    for (auto& p : S.assertSites) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
    o << "},\"functions\":{"; f = true;
    for (auto& p : S.funcs) { o << (f ? "" : ",") << js(p.first) << ":[" << js(p.second.first) << "," << p.second.second << "]"; f = false; }
    o << "},\"violations\":["; f = true;
    for (auto& v : S.viols) { o << (f ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"stack\":" << js(v.stack) << ",\"inputs\":" << jv(v.inputs) << "}"; f = false; }
    o << "],\"candidates\":["; f = true;
    for (auto& v : S.candidates) { o << (f ? "" : ",") << jv(v); f = false; }
    o << "]}\n";
}

static void explore() {
    while (!work.empty()) {
        if (S.viols.size() >= maxViol) { S.incomplete = true; break; }
        if (now_s() > timeLimit) { S.incomplete = true; break; }
        State* s = work.back(); work.pop_back();
        runState(s);
    }
}

int main(int argc, char** argv) {
    std::string in, out = "/dev/stdout", entry = "vf_main";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-o") out = argv[++i];
        else if (a == "-e") entry = argv[++i];
        else if (a == "-t") timeLimit = atof(argv[++i]);
        else if (a == "-j") workers = atoi(argv[++i]);
        else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 10);
        else if (a == "--max-enum") maxEnum = strtoull(argv[++i], 0, 10);
        else if (a == "--merge") mergeOn = true;
        else if (a == "--max-viol") maxViol = atoi(argv[++i]);
        else in = a;
    }
    t_start = Clock::now();
    SMDiagnostic err;
    mod = parseIRFile(in, err, ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    const char* names[] = {"vf_u8", "vf_u16", "vf_u32", "vf_u64", "vf_bool", "vf_below", "vf_sym_assume", "vf_sym_assert", "vf_sym_reach",
        "malloc", "calloc", "free", "realloc", "memcpy", "memmove", "memset", "__assert_fail", "abort", "_exit", "exit", "vf_coro_make", "vf_coro_switch", "vf_sym_common", "vf_sym_other", "vf_sym_known", "vf_sym_far"};
    int ids[] = {I_U8, I_U16, I_U32, I_U64, I_BOOL, I_BELOW, I_ASSUME, I_ASSERT, I_REACH, I_MALLOC, I_CALLOC, I_FREE, I_REALLOC, I_MEMCPY, I_MEMCPY, I_MEMSET, I_ASSERTFAIL, I_ABORT, I_ABORT, I_ABORT, I_CORO_MAKE, I_CORO_SWITCH, I_COMMON, I_OTHER, I_KNOWN, I_FAR};
    for (size_t i = 0; i < sizeof(ids) / sizeof(*ids); ++i) if (ids[i]) intr[names[i]] = ids[i];
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context(cfg);
    solver = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, solver);
    Z3_params ps = Z3_mk_params(zc); Z3_params_inc_ref(zc, ps);
    Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "timeout"), solverTimeoutMs);
    Z3_solver_set_params(zc, solver, ps);
    try {
        setupModule();
        const Function* f = mod->getFunction(entry);
        if (!f || f->isDeclaration()) { errs() << "symx: no entry " << entry << "\n"; return 3; }
        entryFn = f;
        State* s = new State();
        pushFrame(*s, f, {});
        work.push_back(s);
        if (workers > 1) {
            // breadth first until there is enough to share
            size_t want = (size_t)workers * 24;
            while (!work.empty() && work.size() < want && now_s() < timeLimit && S.viols.size() < maxViol) {
                State* x = work.front(); work.pop_front();
                runState(x);
            }
            if (work.size() >= want) {
                std::vector<State*> all(work.begin(), work.end());
                work.clear();
                std::vector<pid_t> kids;
                for (int k = 0; k < workers; ++k) {
                    pid_t p = fork();
                    if (p == 0) {
                        S = Stats(); fexec.clear();
                        for (size_t i = k; i < all.size(); i += workers) work.push_back(all[i]);
                        try { explore(); } catch (std::string&) {}
                        writeResult(out + "." + std::to_string(k));
                        _exit(0);
                    }
                    kids.push_back(p);
                }
                for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) S.error = "worker died"; }
            }
        }
        explore();
    } catch (std::string& m) {}
    writeResult(out);
    return 0;
}
