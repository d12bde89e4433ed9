#include <array>
#include <atomic>
#include <sys/mman.h>
// symex: a symbolic executor for LLVM-18 bitcode (KLEE style), used to decide properties of the
// real securefs sources.  One path = one State; branches on symbolic conditions ask the solver which
// sides are feasible; memory is a set of bounds-checked byte objects; every load/store/free is checked.
#include "expr.h"
#include "solver.h"

#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <list>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef uint8_t u8;

static const unsigned ID_SHIFT = 24;
static const u64 MAX_OBJ = (1ull << ID_SHIFT) - 64;

// ---------------------------------------------------------------- values
struct Agg;
struct V
{
    u64 c = 0;
    E e = nullptr;
    std::shared_ptr<Agg> agg;
    V() {}
    V(u64 x) : c(x) {}
};
struct Agg
{
    std::vector<V> el;
};

static inline V vE(E e)
{
    V v;
    if (isC(e) && e->w <= 64)
        v.c = (u64)e->cv;
    else
        v.e = e;
    return v;
}
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : u8
{
    K_GLOBAL,
    K_STACK,
    K_HEAP,
    K_NEW,
    K_NEWARR,
    K_FUNC,
    K_EXC
};
static const char* kindName[] = {"global", "stack", "malloc", "new", "new[]", "function", "exception"};

static const unsigned RACE_T = 4;    // threads, 0 being the one that starts the others
struct RaceCell    // last accesses of each thread: its clock and the bytes
{
    u32 clk[2][RACE_T] = {};
    u8 bytes[2][RACE_T] = {};
};
using Clock = std::array<u32, RACE_T>;
struct MemObj
{
    int rc = 0;
    u64 size = 0;
    Kind kind = K_GLOBAL;
    bool ro = false;
    const Value* site = nullptr;
    std::vector<u8> d;
    std::vector<E> s;     // empty or size
    std::vector<u8> un;    // uninitialised flags: empty or size
    std::vector<RaceCell> race;    // empty or one for every 8 bytes
};
struct ObjP
{
    MemObj* p = nullptr;
    ObjP() {}
    ObjP(MemObj* q) : p(q)
    {
        if (p)
            p->rc++;
    }
    ObjP(const ObjP& o) : p(o.p)
    {
        if (p)
            p->rc++;
    }
    ObjP(ObjP&& o) : p(o.p) { o.p = nullptr; }
    ObjP& operator=(ObjP o)
    {
        std::swap(p, o.p);
        return *this;
    }
    ~ObjP()
    {
        if (p && --p->rc == 0)
            delete p;
    }
};
struct MemPage
{
    ObjP o[64];
    u64 freed = 0;
};
struct Mem
{
    std::vector<std::shared_ptr<MemPage>> pages;
    u64 next = 64;
    MemObj* get(u64 id) const
    {
        u64 p = id >> 6;
        if (p >= pages.size() || !pages[p])
            return nullptr;
        return pages[p]->o[id & 63].p;
    }
    MemPage& pageMut(u64 p)
    {
        if (p >= pages.size())
            pages.resize(p + 1);
        auto& sp = pages[p];
        if (!sp)
            sp = std::make_shared<MemPage>();
        else if (sp.use_count() > 1)
            sp = std::make_shared<MemPage>(*sp);
        return *sp;
    }
    MemObj* getMut(u64 id)
    {
        auto& pg = pageMut(id >> 6);
        ObjP& o = pg.o[id & 63];
        if (o.p->rc > 1)
        {
            auto* n = new MemObj(*o.p);
            n->rc = 0;
            o = ObjP(n);
        }
        return o.p;
    }
    u64 alloc(u64 size, Kind k, bool uninit, const Value* site)
    {
        u64 id = next++;
        auto* o = new MemObj();
        o->size = size;
        o->kind = k;
        o->site = site;
        o->d.resize(size, 0);
        if (uninit && size)
            o->un.assign(size, 1);
        pageMut(id >> 6).o[id & 63] = ObjP(o);
        return id << ID_SHIFT;
    }
    void free(u64 id)
    {
        auto& pg = pageMut(id >> 6);
        pg.o[id & 63] = ObjP();
        pg.freed |= 1ull << (id & 63);
    }
    bool wasFreed(u64 id) const
    {
        u64 p = id >> 6;
        return p < pages.size() && pages[p] && (pages[p]->freed >> (id & 63) & 1);
    }
};

// ---------------------------------------------------------------- compiled functions
struct Opnd
{
    int reg = -1;
    V c;
};
struct CInst
{
    unsigned opc;
    int dst = -1;
    unsigned bits = 0;     // result width (scalars)
    unsigned obits = 0;    // operand width
    std::vector<Opnd> ops;
    const Instruction* I = nullptr;
    Type* ty = nullptr;
    u64 imm = 0;
    std::vector<std::pair<Opnd, u64>> gep;    // index operand (64-bit sext) * scale
    std::vector<unsigned> gepw;
    int t0 = -1, t1 = -1;
    std::vector<std::pair<u128, int>> cases;
    Function* callee = nullptr;
    std::vector<unsigned> idx;
    int builtin = -2;
};
struct CPhi
{
    int dst;
    std::vector<std::pair<int, Opnd>> in;
};
struct CBlock
{
    std::vector<CPhi> phis;
    std::vector<CInst> ins;
    const BasicBlock* bb;
    bool covered = false;
};
struct CFunc
{
    Function* F;
    unsigned nregs = 0;
    std::vector<CBlock> blocks;
    std::string repoFile;
    bool inRepo = false;
    bool executed = false;
};

struct Frame
{
    CFunc* f;
    int bb = 0, prev = -1;
    unsigned pc = 0;
    std::vector<V> regs;
    std::vector<u64> allocas;
    std::vector<std::pair<V, unsigned>> varargs;
    const CInst* callInst = nullptr;    // instruction in the caller
};

struct ExcRec
{
    u64 ti = 0;
    u64 adjusted = 0;
    int handlers = 0;
};

struct SymRec
{
    std::string name;
    std::vector<u32> vars;    // var ids
};
template <class T> struct PList    // persistent list (newest first)
{
    struct N
    {
        T v;
        std::shared_ptr<N> next;
    };
    std::shared_ptr<N> head;
    void push(T v) { head = std::make_shared<N>(N{std::move(v), head}); }
};

struct ThreadCtx
{
    std::vector<Frame> stack;
    std::vector<u64> caught;
    int uncaught = 0;    // exceptions thrown and not yet caught
    int quiet = 0;
};
struct State
{
    u64 id;
    std::vector<Frame> stack;
    Mem mem;
    std::vector<E> cs;
    std::unordered_map<E, u128> known;
    std::set<u32> knownVars;
    ModelP model;
    std::map<u64, ExcRec> exc;
    std::vector<u64> caught;
    int uncaught = 0;    // exceptions thrown and not yet caught
    PList<SymRec> syms;
    u64 steps = 0;
    u64 forks = 0;
    u64 symCount = 0;
    u64 nInput = 0, nUninit = 0;    // variables of this state so far
    u64 trace = 1469598103934665603ull;
    u64 nonlocal = 0;
    std::map<u64, ThreadCtx> others;    // threads which are not running
    u64 tid = 0;    // current thread: selects the copy of thread-local variables
    // detection of data races: happens-before by vector clocks
    bool race = false;
    int quiet = 0;    // depth of regions of the current thread which are not watched
    Clock vc[RACE_T] = {};
    std::map<u64, Clock> sync;
};

struct Violation
{
    std::string kind, msg, loc;
    std::vector<std::string> stack;
    std::vector<std::pair<std::string, std::vector<u8>>> inputs;
};

struct PathEnd
{
};
struct EngineError
{
    std::string msg;
};

// ---------------------------------------------------------------- globals
static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static std::unordered_map<u64, Function*> g_faddr;
static std::unordered_map<u64, const GlobalValue*> g_byaddr;
static std::unordered_map<Function*, std::unique_ptr<CFunc>> g_cf;
static const u64 TLS_THREADS = 3;
static std::unordered_map<u64, std::vector<u64>> g_tls;    // address for thread 0 -> addresses for the others
static Mem g_baseMem;
static std::map<std::string, long long> g_params;
static std::string g_repoPrefix = "/repo/";
static u64 g_maxSteps = 50000000, g_totalSteps = 0, g_paths = 0, g_forks = 0, g_killed = 0, g_asserts = 0,
           g_memchecks = 0;
static u64 g_maxViol = 3, g_maxPaths = ~0ull;
static double g_maxTime = 600;
static std::vector<Violation> g_viol;
static std::map<std::string, u64> g_reach;
static std::map<std::string, u64> g_errors;
static std::map<std::string, u64> g_assertMsgs;
static u64 g_incomplete = 0;
static std::map<std::string, std::vector<u8>> g_pathsamples;
struct Shared
{
    std::atomic<int> active;
    std::atomic<unsigned> next;
};
static std::vector<State*> g_pending;
static u64 g_stateId = 0;
static std::chrono::steady_clock::time_point g_t0;
static bool g_verbose = false;
static std::set<std::string> g_vset;
static std::vector<std::string> g_samples;
static bool g_detSample = true;

static double elapsed()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count();
}

// ---------------------------------------------------------------- helpers
static unsigned width(Type* t)
{
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isPointerTy())
        return 64;
    if (t->isFloatTy())
        return 32;
    if (t->isDoubleTy())
        return 64;
    if (t->isX86_FP80Ty())
        return 80;
    return 0;
}
static bool isAggT(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t)
{
    if (auto* s = dyn_cast<StructType>(t))
        return s->getNumElements();
    if (auto* a = dyn_cast<ArrayType>(t))
        return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type* aggT(Type* t, unsigned i)
{
    if (auto* s = dyn_cast<StructType>(t))
        return s->getElementType(i);
    if (auto* a = dyn_cast<ArrayType>(t))
        return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 aggOff(Type* t, unsigned i)
{
    if (auto* s = dyn_cast<StructType>(t))
        return DL->getStructLayout(s)->getElementOffset(i);
    return i * DL->getTypeAllocSize(aggT(t, i)).getFixedValue();
}
static V mkAgg(std::vector<V> el)
{
    V v;
    v.agg = std::make_shared<Agg>();
    v.agg->el = std::move(el);
    return v;
}
static V zeroOf(Type* t)
{
    if (isAggT(t))
    {
        std::vector<V> el;
        for (unsigned i = 0; i < aggN(t); ++i)
            el.push_back(zeroOf(aggT(t, i)));
        return mkAgg(el);
    }
    unsigned w = width(t);
    if (w > 64)
    {
        V v;
        v.e = mkConst(0, w);
        return v;
    }
    return V(0);
}

static std::string locOf(const Instruction* I)
{
    if (!I)
        return "?";
    if (auto dl = I->getDebugLoc())
    {
        const DILocation* l = dl.get();
        std::string s = (l->getFilename() + ":" + Twine(l->getLine())).str();
        return s;
    }
    return I->getFunction()->getName().str();
}

static std::vector<std::string> stackOf(State& st)
{
    std::vector<std::string> r;
    for (int i = (int)st.stack.size() - 1; i >= 0 && r.size() < 24; --i)
    {
        auto& f = st.stack[i];
        const Instruction* I = nullptr;
        auto& b = f.f->blocks[f.bb];
        unsigned pc = f.pc;
        if (pc >= b.ins.size())
            pc = b.ins.size() - 1;
        I = b.ins[pc].I;
        std::string s = demangle(f.f->F->getName().str());
        if (s.size() > 120)
            s = s.substr(0, 120) + "...";
        if (I && I->getDebugLoc())
        {
            const DILocation* l = I->getDebugLoc().get();
            while (l)
            {
                std::string nm = l->getScope()->getSubprogram()
                    ? l->getScope()->getSubprogram()->getName().str()
                    : "";
                r.push_back(nm + " @ " + l->getFilename().str() + ":" + std::to_string(l->getLine()));
                l = l->getInlinedAt();
            }
        }
        else
            r.push_back(s);
    }
    return r;
}

static void addConstraint(State& st, E c)
{
    if (isC(c))
        return;
    if (c->op == AND)
    {
        addConstraint(st, c->a);
        addConstraint(st, c->b);
        return;
    }
    st.cs.push_back(c);
    auto learn = [&](E x, u128 v)
    {
        if (!st.known.count(x))
        {
            st.known[x] = v;
            for (u32 i : x->vars->v)
                st.knownVars.insert(i);
        }
    };
    if (c->op == EQ && isC(c->a))
        learn(c->b, c->a->cv);
    else if (c->op == EXTRACT || c->op == VAR)
        learn(c, 1);
    else if (c->op == XOR && isC(c->a) && c->a->cv == 1)
        learn(c->b, 0);
    if (c->op == ULT || c->op == ULE || c->op == SLT || c->op == SLE || c->op == OR)
    {
        learn(c, 1);
        E n = mkNot(c);
        if (n->op != XOR)
            learn(n, 0);
    }
}

static E simp(State& st, E e)
{
    if (isC(e) || st.known.empty())
        return e;
    auto k = st.known.find(e);
    if (k != st.known.end())
        return mkConst(k->second, e->w);
    bool hit = false;
    for (u32 v : e->vars->v)
        if (st.knownVars.count(v))
        {
            hit = true;
            break;
        }
    if (!hit)
        return e;
    std::unordered_map<E, E> memo;
    return substExpr(e, st.known, memo);
}

static State* cloneState(State& st)
{
    State* n = new State(st);
    n->id = ++g_stateId;
    n->forks++;
    st.forks++;
    g_forks++;
    return n;
}

static void recordViolation(State& st, const std::string& kind, const std::string& msg, const Model& m)
{
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.stack = stackOf(st);
    v.loc = v.stack.empty() ? "?" : v.stack[0];
    std::string key = kind + "|" + msg + "|" + v.loc;
    if (!g_vset.insert(key).second)
        return;
    std::vector<const SymRec*> recs;
    for (auto* n = st.syms.head.get(); n; n = n->next.get())
        recs.push_back(&n->v);
    for (auto it = recs.rbegin(); it != recs.rend(); ++it)
    {
        std::vector<u8> b;
        for (u32 id : (*it)->vars)
            b.push_back(m.get(id));
        v.inputs.push_back({(*it)->name, b});
    }
    if (g_verbose)
    {
        fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), msg.c_str());
        for (auto& s : v.stack)
            fprintf(stderr, "   %s\n", s.c_str());
    }
    g_viol.push_back(std::move(v));
}

[[noreturn]] static void fail(State& st, const std::string& kind, const std::string& msg)
{
    recordViolation(st, kind, msg, *st.model);
    throw PathEnd();
}

static bool g_hot = getenv("SYMEX_HOT") != nullptr;
static std::map<std::string, u64> g_hotSites;
static void hot(State& st, const char* kind)
{
    if (!g_hot)
        return;
    auto sk = stackOf(st);
    std::string s = kind;
    for (size_t i = 0; i < sk.size() && i < 3; ++i)
        s += " < " + sk[i];
    g_hotSites[s]++;
}
static void hotReport()
{
    std::vector<std::pair<u64, std::string>> v;
    for (auto& p : g_hotSites)
        v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 25; ++i)
        fprintf(stderr, "HOT %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
}
// Decide a condition on this path; forks if both sides are feasible. Returns the value taken by `st`.
// The other side is queued; when `redo`, it re-executes the current instruction.
static bool branchOn(State& st, E c, State** other)
{
    *other = nullptr;
    c = simp(st, c);
    if (isC(c))
        return c->cv != 0;
    bool mv = evalExpr(c, *st.model) != 0;
    E taken = mv ? c : mkNot(c);
    E neg = mv ? mkNot(c) : c;
    ModelP om;
    SatResult r = solve(st.cs, neg, st.model, om);
    if (r == UNSAT)
    {
        // implied: remember cheaply
        if (!st.known.count(c))
        {
            st.known[c] = mv;
            for (u32 i : c->vars->v)
                st.knownVars.insert(i);
        }
        return mv;
    }
    if (r == UNKNOWN)
        g_incomplete++;
    else
    {
        hot(st, "branch");
        State* n = cloneState(st);
        n->model = om;
        addConstraint(*n, neg);
        *other = n;
    }
    addConstraint(st, taken);
    return mv;
}

static void queue(State* s) { g_pending.push_back(s); }

// Force `e` to a single value: forks the remaining values into a state that re-executes the current
// instruction.  `st` must have pc pointing AT the instruction (not incremented).
static u128 concretize(State& st, E e)
{
    e = simp(st, e);
    if (isC(e))
        return e->cv;
    u128 v = evalExpr(e, *st.model);
    E eq = mkEq(mkConst(v, e->w), e);
    ModelP om;
    SatResult r = solve(st.cs, mkNot(eq), st.model, om);
    if (r == SAT)
    {
        hot(st, "value");
        State* n = cloneState(st);
        n->model = om;
        addConstraint(*n, mkNot(eq));
        queue(n);
    }
    else if (r == UNKNOWN)
        g_incomplete++;
    if (r != UNSAT)
        addConstraint(st, eq);
    if (!st.known.count(e))
    {
        st.known[e] = v;
        for (u32 i : e->vars->v)
            st.knownVars.insert(i);
    }
    return v;
}
static u64 conc(State& st, const V& v, unsigned w = 64)
{
    if (!v.e)
        return v.c;
    return (u64)concretize(st, v.e);
}

// ---------------------------------------------------------------- memory access
static std::string objDesc(State& st, u64 addr)
{
    u64 id = addr >> ID_SHIFT;
    char buf[256];
    if (id < 64)
    {
        snprintf(buf, sizeof buf, "null/invalid pointer 0x%llx", (unsigned long long)addr);
        return buf;
    }
    MemObj* o = st.mem.get(id);
    if (!o)
    {
        if (st.mem.wasFreed(id))
            return "use after free";
        snprintf(buf, sizeof buf, "wild pointer 0x%llx", (unsigned long long)addr);
        return buf;
    }
    snprintf(buf, sizeof buf, "offset %lld of %s object of size %llu",
             (long long)(addr & ((1ull << ID_SHIFT) - 1)), kindName[o->kind],
             (unsigned long long)o->size);
    return buf;
}

static void raceCheck(State& st, u64 id, MemObj*& o, u64 off, u64 n, bool write);
static bool g_atomic;    // an atomic instruction is executed
static void raceAcquire(State& st, u64 p)
{
    if (!st.race || st.tid >= RACE_T)
        return;
    auto it = st.sync.find(p);
    if (it != st.sync.end())
        for (unsigned u = 0; u < RACE_T; ++u)
            st.vc[st.tid][u] = std::max(st.vc[st.tid][u], it->second[u]);
}
static void raceRelease(State& st, u64 p)
{
    if (!st.race || st.tid >= RACE_T)
        return;
    auto& r = st.sync[p];
    for (unsigned u = 0; u < RACE_T; ++u)
        r[u] = std::max(r[u], st.vc[st.tid][u]);
    ++st.vc[st.tid][st.tid];
}
struct AtomicInstr
{
    bool on;
    State& st;
    u64 p = 0;
    AtomicInstr(State& s, const V& addr, bool o = true) : on(o && s.race), st(s)
    {
        if (!on)
            return;
        g_atomic = true;
        p = addr.e ? 0 : addr.c;
        if (!st.quiet)
            raceAcquire(st, p);
    }
    void release()
    {
        if (on && !st.quiet)
            raceRelease(st, p);
    }
    ~AtomicInstr()
    {
        if (on)
            g_atomic = false;
    }
};
// Returns concrete base object and offset expression (nullptr offE if concrete).
static MemObj* resolve(State& st, const V& addr, u64 n, u64& id, u64& off, E& offE, bool write)
{
    g_memchecks++;
    offE = nullptr;
    u64 a;
    if (addr.e)
    {
        E e = simp(st, addr.e);
        if (!isC(e))
        {
            a = (u64)evalExpr(e, *st.model);
            id = a >> ID_SHIFT;
            MemObj* o = st.mem.get(id);
            if (!o || o->kind == K_FUNC || (a & (MAX_OBJ | 63)) + n > o->size)
                fail(st, "memory", "out of bounds " + std::string(write ? "write" : "read") + " of "
                         + std::to_string(n) + " bytes at " + objDesc(st, a) + " (symbolic address)");
            E oe = mkBin(SUB, e, mkConst(id << ID_SHIFT, 64));
            E in = mkBin(ULE, oe, mkConst(o->size - n, 64));
            ModelP om;
            if (!isC(in))
            {
                SatResult r = solve(st.cs, mkNot(in), st.model, om);
                if (r == SAT)
                {
                    State* s2 = cloneState(st);
                    s2->model = om;
                    addConstraint(*s2, mkNot(in));
                    queue(s2);
                    addConstraint(st, in);
                }
                else if (r == UNKNOWN)
                    g_incomplete++;
            }
            oe = simp(st, oe);
            if (isC(oe))
            {
                off = (u64)oe->cv;
                return o;
            }
            offE = oe;
            off = 0;
            return o;
        }
        a = (u64)e->cv;
    }
    else
        a = addr.c;
    id = a >> ID_SHIFT;
    off = a & ((1ull << ID_SHIFT) - 1);
    MemObj* o = st.mem.get(id);
    if (!o || o->kind == K_FUNC || off + n > o->size)
        fail(st, "memory", "out of bounds " + std::string(write ? "write" : "read") + " of "
                 + std::to_string(n) + " bytes at " + objDesc(st, a));
    if (st.race && !st.quiet && !g_atomic && n)
        raceCheck(st, id, o, off, n, write);
    return o;
}

static void raceCheck(State& st, u64 id, MemObj*& o, u64 off, u64 n, bool write)
{
    if (o->kind == K_STACK || o->kind == K_FUNC || st.tid >= RACE_T)
        return;
    const u64 t = st.tid;
    const u32 now = st.vc[t][t];
    u64 g0 = off / 8, g1 = (off + n - 1) / 8;
    bool fresh = !o->race.empty();
    for (u64 g = g0; g <= g1 && fresh; ++g)
    {
        u8 m = 0;
        for (u64 b = std::max(off, g * 8); b < std::min(off + n, g * 8 + 8); ++b)
            m |= 1 << (b & 7);
        auto& c = o->race[g];
        // a write covers a read of the same bytes
        bool w = c.clk[1][t] == now && (c.bytes[1][t] & m) == m, r = c.clk[0][t] == now && (c.bytes[0][t] & m) == m;
        fresh = w || (r && !write);
    }
    if (fresh)
        return;
    o = st.mem.getMut(id);
    if (o->race.empty())
        o->race.resize((o->size + 7) / 8);
    for (u64 g = g0; g <= g1; ++g)
    {
        u8 m = 0;
        for (u64 b = std::max(off, g * 8); b < std::min(off + n, g * 8 + 8); ++b)
            m |= 1 << (b & 7);
        auto& c = o->race[g];
        for (u64 u = 0; u < RACE_T; ++u)
            if (u != t)
                for (int k = write ? 0 : 1; k < 2; ++k)
                    if (c.clk[k][u] > st.vc[t][u] && (c.bytes[k][u] & m))
                        fail(st, "race", std::string("data race: ") + (write ? "write" : "read")
                                 + " not ordered after another thread's " + (k ? "write" : "read") + " of the same memory");
        auto& clk = c.clk[write][t];
        auto& by = c.bytes[write][t];
        by = clk == now ? by | m : m;
        clk = now;
    }
}

static E byteAt(State& st, u64 id, MemObj*& o, u64 i)
{
    if (!o->un.empty() && o->un[i])
    {
        o = st.mem.getMut(id);
        E v = mkVarAt(st.nUninit++, true);
        if (o->s.empty())
            o->s.assign(o->size, nullptr);
        o->s[i] = v;
        o->un[i] = 0;
        return v;
    }
    if (!o->s.empty() && o->s[i])
        return o->s[i];
    return mkConst(o->d[i], 8);
}

static V loadInt(State& st, u64 id, MemObj* o, u64 off, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    bool conc = true;
    if (!o->s.empty() || !o->un.empty())
    {
        for (unsigned i = 0; i < nb && conc; ++i)
        {
            if (!o->s.empty() && o->s[off + i])
                conc = false;
            else if (!o->un.empty() && o->un[off + i])
                conc = false;
        }
    }
    if (conc && w <= 64)
    {
        u64 v = 0;
        for (unsigned i = 0; i < nb; ++i)
            v |= (u64)o->d[off + i] << (8 * i);
        if (w < 64)
            v &= (1ull << w) - 1;
        return V(v);
    }
    if (nb > 16)
        throw EngineError{"load wider than 128 bits"};
    E acc = byteAt(st, id, o, off + nb - 1);
    for (int i = (int)nb - 2; i >= 0; --i)
        acc = mkConcat(acc, byteAt(st, id, o, off + i));
    if (acc->w != w)
        acc = mkExtract(acc, 0, w);
    V r = vE(acc);
    if (w > 64 && !r.e)
        r.e = acc;
    return r;
}

static V loadT(State& st, const V& addr, Type* ty);
static V loadAtT(State& st, u64 id, MemObj* o, u64 off, Type* ty)
{
    if (isAggT(ty))
    {
        std::vector<V> el;
        for (unsigned i = 0; i < aggN(ty); ++i)
        {
            el.push_back(loadAtT(st, id, o, off + aggOff(ty, i), aggT(ty, i)));
            o = st.mem.get(id);
        }
        return mkAgg(el);
    }
    return loadInt(st, id, o, off, width(ty));
}
static V loadT(State& st, const V& addr, Type* ty)
{
    u64 n = DL->getTypeStoreSize(ty).getFixedValue();
    u64 id, off;
    E offE;
    MemObj* o = resolve(st, addr, n, id, off, offE, false);
    if (!offE)
        return loadAtT(st, id, o, off, ty);
    if (!isAggT(ty) && width(ty) <= 64)
    {
        u64 lo = (u64)offE->umin, hi = (u64)std::min<u128>(offE->umax, o->size - n);
        if (hi >= lo && hi - lo <= 1024)
        {
            // ite over candidate offsets (stride-aware)
            u64 stride = 1;
            {
                E t = offE;
                if (t->op == ADD && isC(t->a))
                    t = t->b;
                if (t->op == CONCAT && isC(t->b) && t->b->cv == 0 && t->b->w < 12)
                    stride = 1ull << t->b->w;
                else if (t->op == ZEXT && t->a->op == CONCAT && isC(t->a->b) && t->a->b->cv == 0
                         && t->a->b->w < 12)
                    stride = 1ull << t->a->b->w;
            }
            u64 base = lo;
            E res = nullptr;
            unsigned w = width(ty);
            for (u64 i = base; i <= hi; i += stride)
            {
                E v = toE(loadInt(st, id, st.mem.get(id), i, w), w);
                res = res ? mkIte(mkEq(mkConst(i, 64), offE), v, res) : v;
            }
            return vE(res);
        }
    }
    off = (u64)concretize(st, offE);
    return loadAtT(st, id, st.mem.get(id), off, ty);
}

static void storeByte(MemObj* o, u64 i, E b)
{
    if (isC(b))
    {
        o->d[i] = (u8)b->cv;
        if (!o->s.empty())
            o->s[i] = nullptr;
    }
    else
    {
        if (o->s.empty())
            o->s.assign(o->size, nullptr);
        o->s[i] = b;
    }
    if (!o->un.empty())
        o->un[i] = 0;
}
static void storeInt(MemObj* o, u64 off, const V& v, unsigned w)
{
    unsigned nb = (w + 7) / 8;
    if (!v.e)
    {
        u64 x = v.c;
        for (unsigned i = 0; i < nb; ++i)
        {
            o->d[off + i] = (u8)(i < 8 ? x >> (8 * i) : 0);
            if (!o->s.empty())
                o->s[off + i] = nullptr;
            if (!o->un.empty())
                o->un[off + i] = 0;
        }
        return;
    }
    E e = v.e;
    if (e->w < nb * 8)
        e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; ++i)
        storeByte(o, off + i, mkExtract(e, 8 * i, 8));
}
static void storeAtT(MemObj* o, u64 off, const V& v, Type* ty)
{
    if (isAggT(ty))
    {
        for (unsigned i = 0; i < aggN(ty); ++i)
            storeAtT(o, off + aggOff(ty, i), v.agg->el[i], aggT(ty, i));
        return;
    }
    storeInt(o, off, v, width(ty));
}
static void storeT(State& st, const V& addr, const V& v, Type* ty)
{
    u64 n = DL->getTypeStoreSize(ty).getFixedValue();
    u64 id, off;
    E offE;
    MemObj* o = resolve(st, addr, n, id, off, offE, true);
    if (o->ro)
        fail(st, "memory", "write to read-only object");
    if (offE)
        off = (u64)concretize(st, offE);
    storeAtT(st.mem.getMut(id), off, v, ty);
}

// raw concrete helpers
static u64 loadU64(State& st, u64 addr)
{
    u64 id, off;
    E oe;
    MemObj* o = resolve(st, V(addr), 8, id, off, oe, false);
    V v = loadInt(st, id, o, off, 64);
    return conc(st, v);
}

static std::string readCStr(State& st, u64 addr)
{
    std::string s;
    for (int i = 0; i < 4096; ++i)
    {
        u64 id, off;
        E oe;
        MemObj* o = resolve(st, V(addr + i), 1, id, off, oe, false);
        V v = loadInt(st, id, o, off, 8);
        u8 c = v.e ? (u8)evalExpr(v.e, *st.model) : (u8)v.c;
        if (!c)
            break;
        s.push_back((char)c);
    }
    return s;
}

// ---------------------------------------------------------------- constants
static V constV(const Constant* C);
static void storeConst(MemObj* o, u64 off, const Constant* C)
{
    Type* ty = C->getType();
    if (isa<UndefValue>(C))
        return;
    if (isa<ConstantAggregateZero>(C))
        return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(C))
    {
        StringRef raw = cds->getRawDataValues();
        memcpy(o->d.data() + off, raw.data(), raw.size());
        return;
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C))
    {
        for (unsigned i = 0; i < C->getNumOperands(); ++i)
            storeConst(o, off + aggOff(ty, i), cast<Constant>(C->getOperand(i)));
        return;
    }
    storeAtT(o, off, constV(C), ty);
}

static u64 gaddr(const GlobalValue* g)
{
    if (auto* a = dyn_cast<GlobalAlias>(g))
        return constV(a->getAliasee()).c;
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end())
        return it->second;
    throw EngineError{"no address for global " + g->getName().str()};
}

static u64 gepConstOff(const GEPOperator* gep, bool& ok)
{
    APInt off(64, 0);
    ok = gep->accumulateConstantOffset(*DL, off);
    return off.getZExtValue();
}

static V constV(const Constant* C)
{
    Type* ty = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C))
    {
        unsigned w = ty->getIntegerBitWidth();
        if (w <= 64)
            return V(ci->getZExtValue());
        if (w > 128)
            throw EngineError{"constant wider than 128 bits"};
        APInt a = ci->getValue();
        u128 v = a.extractBitsAsZExtValue(64, 0);
        v |= (u128)a.extractBitsAsZExtValue(w - 64, 64) << 64;
        V r;
        r.e = mkConst(v, w);
        return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(C))
    {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() > 64)
        {
            V r;
            r.e = mkConst((u128)a.extractBitsAsZExtValue(64, 0)
                              | ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64),
                          a.getBitWidth());
            return r;
        }
        return V(a.getZExtValue());
    }
    if (isa<ConstantPointerNull>(C))
        return V(0);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C))
        return zeroOf(ty);
    if (auto* g = dyn_cast<GlobalValue>(C))
        return V(gaddr(g));
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C))
    {
        std::vector<V> el;
        for (unsigned i = 0; i < C->getNumOperands(); ++i)
            el.push_back(constV(cast<Constant>(C->getOperand(i))));
        return mkAgg(el);
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(C))
    {
        std::vector<V> el;
        for (unsigned i = 0; i < cds->getNumElements(); ++i)
            el.push_back(constV(cds->getElementAsConstant(i)));
        return mkAgg(el);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            bool ok;
            u64 off = gepConstOff(cast<GEPOperator>(ce), ok);
            if (!ok)
                throw EngineError{"non-constant gep constant"};
            return V(constV(ce->getOperand(0)).c + off);
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
        {
            V v = constV(ce->getOperand(0));
            unsigned w = width(ty);
            if (w < 64)
                v.c &= (1ull << w) - 1;
            return v;
        }
        case Instruction::Trunc:
        {
            V v = constV(ce->getOperand(0));
            v.c &= maskw(width(ty));
            return v;
        }
        case Instruction::Sub:
            return V((constV(ce->getOperand(0)).c - constV(ce->getOperand(1)).c)
                     & (u64)maskw(width(ty)));
        case Instruction::Add:
            return V((constV(ce->getOperand(0)).c + constV(ce->getOperand(1)).c)
                     & (u64)maskw(width(ty)));
        case Instruction::ICmp:
        {
            V a = constV(ce->getOperand(0)), b = constV(ce->getOperand(1));
            switch (ce->getPredicate())
            {
            case CmpInst::ICMP_EQ:
                return V(a.c == b.c);
            case CmpInst::ICMP_NE:
                return V(a.c != b.c);
            default:
                break;
            }
            break;
        }
        case Instruction::Select:
        {
            V c = constV(ce->getOperand(0));
            return constV(ce->getOperand(c.c ? 1 : 2));
        }
        default:
            break;
        }
        std::string s;
        raw_string_ostream os(s);
        ce->print(os);
        throw EngineError{"unsupported constant expr " + os.str()};
    }
    throw EngineError{"unsupported constant"};
}

// ---------------------------------------------------------------- compile functions
#include "builtins.inc"

static CFunc* getFunc(Function* F)
{
    auto it = g_cf.find(F);
    if (it != g_cf.end())
        return it->second.get();
    auto cf = std::make_unique<CFunc>();
    CFunc* r = cf.get();
    r->F = F;
    if (auto* sp = F->getSubprogram())
    {
        std::string p = sp->getFilename().str();
        if (!p.empty() && p[0] != '/')
            p = sp->getDirectory().str() + "/" + p;
        r->repoFile = p;
        r->inRepo = p.compare(0, g_repoPrefix.size(), g_repoPrefix) == 0;
    }
    std::unordered_map<const Value*, int> regs;
    std::unordered_map<const BasicBlock*, int> bbs;
    for (auto& a : F->args())
        regs[&a] = r->nregs++;
    int bi = 0;
    for (auto& bb : *F)
    {
        bbs[&bb] = bi++;
        for (auto& I : bb)
            if (!I.getType()->isVoidTy())
                regs[&I] = r->nregs++;
    }
    auto opnd = [&](const Value* v) -> Opnd
    {
        Opnd o;
        if (auto* c = dyn_cast<Constant>(v))
        {
            o.c = constV(c);
            return o;
        }
        auto i = regs.find(v);
        if (i == regs.end())
        {
            // metadata / basic block / inline asm
            return o;
        }
        o.reg = i->second;
        return o;
    };
    for (auto& bb : *F)
    {
        CBlock cb;
        cb.bb = &bb;
        for (auto& I : bb)
        {
            if (auto* phi = dyn_cast<PHINode>(&I))
            {
                CPhi p;
                p.dst = regs[&I];
                for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                    p.in.push_back({bbs[phi->getIncomingBlock(i)], opnd(phi->getIncomingValue(i))});
                cb.phis.push_back(std::move(p));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I))
                continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I))
            {
                switch (ii->getIntrinsicID())
                {
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::donothing:
                case Intrinsic::prefetch:
                case Intrinsic::invariant_start:
                case Intrinsic::invariant_end:
                    if (!I.getType()->isVoidTy())
                        break;
                    continue;
                default:
                    break;
                }
            }
            CInst ci;
            ci.opc = I.getOpcode();
            ci.I = &I;
            ci.ty = I.getType();
            ci.bits = width(I.getType());
            if (!I.getType()->isVoidTy())
                ci.dst = regs[&I];
            if (auto* cb2 = dyn_cast<CallBase>(&I))
            {
                for (unsigned i = 0; i < cb2->arg_size(); ++i)
                {
                    ci.ops.push_back(opnd(cb2->getArgOperand(i)));
                }
                Value* callee = cb2->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(callee))
                    callee = al->getAliaseeObject();
                ci.callee = dyn_cast<Function>(callee);
                if (!ci.callee)
                {
                    if (!isa<InlineAsm>(callee))
                        ci.ops.push_back(opnd(callee));    // last operand: function pointer
                }
                else
                    ci.builtin = findBuiltin(ci.callee);
                if (auto* inv = dyn_cast<InvokeInst>(&I))
                {
                    ci.t0 = bbs[inv->getNormalDest()];
                    ci.t1 = bbs[inv->getUnwindDest()];
                }
            }
            else
            {
                for (auto& o : I.operands())
                    if (!isa<BasicBlock>(o))
                        ci.ops.push_back(opnd(o));
                if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0)))
                    ci.obits = width(I.getOperand(0)->getType());
            }
            if (auto* br = dyn_cast<BranchInst>(&I))
            {
                ci.t0 = bbs[br->getSuccessor(0)];
                if (br->isConditional())
                    ci.t1 = bbs[br->getSuccessor(1)];
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&I))
            {
                ci.ops.resize(1);
                ci.t0 = bbs[sw->getDefaultDest()];
                for (auto& c : sw->cases())
                    ci.cases.push_back({c.getCaseValue()->getZExtValue(), bbs[c.getCaseSuccessor()]});
            }
            else if (auto* gep = dyn_cast<GetElementPtrInst>(&I))
            {
                ci.ops.resize(1);
                u64 off = 0;
                for (auto gti = gep_type_begin(gep), ge = gep_type_end(gep); gti != ge; ++gti)
                {
                    Value* idx = gti.getOperand();
                    if (StructType* sty = gti.getStructTypeOrNull())
                    {
                        off += DL->getStructLayout(sty)->getElementOffset(
                            cast<ConstantInt>(idx)->getZExtValue());
                        continue;
                    }
                    u64 sc = DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue();
                    if (auto* cidx = dyn_cast<ConstantInt>(idx))
                        off += (u64)cidx->getSExtValue() * sc;
                    else
                    {
                        ci.gep.push_back({opnd(idx), sc});
                        ci.gepw.push_back(width(idx->getType()));
                    }
                }
                ci.imm = off;
            }
            else if (auto* al = dyn_cast<AllocaInst>(&I))
                ci.imm = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                ci.idx.assign(ev->idx_begin(), ev->idx_end());
            else if (auto* iv = dyn_cast<InsertValueInst>(&I))
                ci.idx.assign(iv->idx_begin(), iv->idx_end());
            cb.ins.push_back(std::move(ci));
        }
        r->blocks.push_back(std::move(cb));
    }
    g_cf[F] = std::move(cf);
    return r;
}

// ---------------------------------------------------------------- execution
static inline const V& val(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }

static void jumpTo(State& st, int bb)
{
    Frame& f = st.stack.back();
    f.prev = f.bb;
    f.bb = bb;
    f.pc = 0;
    CBlock& b = f.f->blocks[bb];
    b.covered = true;
    st.trace = (st.trace ^ ((u64)(uintptr_t)b.bb)) * 1099511628211ull;
    if (!b.phis.empty())
    {
        if (b.phis.size() == 1)
        {
            auto& p = b.phis[0];
            for (auto& in : p.in)
                if (in.first == f.prev)
                {
                    V t = val(f, in.second);
                    f.regs[p.dst] = std::move(t);
                    break;
                }
        }
        else
        {
            std::vector<V> tmp;
            tmp.reserve(b.phis.size());
            for (auto& p : b.phis)
                for (auto& in : p.in)
                    if (in.first == f.prev)
                    {
                        tmp.push_back(val(f, in.second));
                        break;
                    }
            for (size_t i = 0; i < b.phis.size(); ++i)
                f.regs[b.phis[i].dst] = std::move(tmp[i]);
        }
    }
}

static void popFrame(State& st)
{
    for (u64 a : st.stack.back().allocas)
        if (st.mem.get(a >> ID_SHIFT))
            st.mem.free(a >> ID_SHIFT);
    st.stack.pop_back();
}

static void pushFrame(State& st, Function* F, const std::vector<V>& args, const CInst* callInst,
                      const CallBase* cb)
{
    if (st.stack.size() > 1500)
        fail(st, "stack", "recursion deeper than 1500 frames in " + demangle(F->getName().str()));
    CFunc* cf = getFunc(F);
    cf->executed = true;
    Frame f;
    f.f = cf;
    f.regs.resize(cf->nregs);
    f.callInst = callInst;
    unsigned i = 0;
    for (auto& a : F->args())
    {
        if (i >= args.size())
            break;
        f.regs[i] = args[i];
        if (a.hasByValAttr())
        {
            u64 sz = DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
            u64 addr = st.mem.alloc(sz, K_STACK, false, callInst ? callInst->I : nullptr);
            u64 id, off;
            E oe;
            MemObj* so = resolve(st, args[i], sz, id, off, oe, false);
            if (oe)
                throw EngineError{"symbolic byval"};
            MemObj* d = st.mem.getMut(addr >> ID_SHIFT);
            so = st.mem.get(id);
            for (u64 k = 0; k < sz; ++k)
            {
                d->d[k] = so->d[off + k];
                if (!so->s.empty() && so->s[off + k])
                    storeByte(d, k, so->s[off + k]);
                if (!so->un.empty() && so->un[off + k])
                {
                    if (d->un.empty())
                        d->un.assign(sz, 0);
                    d->un[k] = 1;
                }
            }
            f.regs[i] = V(addr);
            f.allocas.push_back(addr);
        }
        ++i;
    }
    for (; i < args.size(); ++i)
        f.varargs.push_back({args[i], cb ? width(cb->getArgOperand(i)->getType()) : 64});
    st.stack.push_back(std::move(f));
    cf->blocks[0].covered = true;
}

// --- RTTI
static std::string gname(u64 addr)
{
    auto it = g_byaddr.find(addr);
    return it == g_byaddr.end() ? "" : it->second->getName().str();
}
// visits (ti, offset) for every public base; returns true if found
static bool findBase(State& st, u64 ti, u64 target, i64 off, i64& out, int depth)
{
    if (ti == target)
    {
        out = off;
        return true;
    }
    if (depth > 30)
        return false;
    u64 vp = loadU64(st, ti);
    std::string vn = gname(vp - 16);
    if (vn.find("__si_class_type_info") != std::string::npos)
        return findBase(st, loadU64(st, ti + 16), target, off, out, depth + 1);
    if (vn.find("__vmi_class_type_info") != std::string::npos)
    {
        u64 x = loadU64(st, ti + 16);
        u32 n = (u32)(x >> 32);
        for (u32 i = 0; i < n; ++i)
        {
            u64 b = loadU64(st, ti + 24 + 16 * i);
            i64 of = (i64)loadU64(st, ti + 32 + 16 * i);
            if (of & 1)
                throw EngineError{"virtual base in RTTI"};
            if (findBase(st, b, target, off + (of >> 8), out, depth + 1))
                return true;
        }
    }
    return false;
}

static std::string tiName(State& st, u64 ti)
{
    std::string n = gname(ti);
    if (n.compare(0, 4, "_ZTI") == 0)
        return demangle("_ZTS" + n.substr(4));
    return n;
}

[[noreturn]] static void uncaught(State& st, u64 exc)
{
    fail(st, "uncaught", "uncaught exception: " + tiName(st, st.exc[exc].ti));
}

static u64 tiSelector(u64 ti) { return (ti >> ID_SHIFT) & 0x7fffffff; }

static void unwind(State& st, u64 exc, bool fromCall)
{
    // `fromCall`: the innermost frame is the one whose call instruction raised
    auto& rec = st.exc[exc];
    while (true)
    {
        if (st.stack.empty())
            throw PathEnd();
        Frame& f = st.stack.back();
        CBlock& b = f.f->blocks[f.bb];
        // the call instruction is at pc (we keep pc at the call while the callee runs)
        const CInst& ci = b.ins[f.pc];
        if (ci.opc == Instruction::Invoke)
        {
            auto* inv = cast<InvokeInst>(ci.I);
            const LandingPadInst* lp = inv->getLandingPadInst();
            bool take = lp->isCleanup();
            u64 sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses() && !sel; ++i)
            {
                if (lp->isCatch(i))
                {
                    const Constant* c = lp->getClause(i);
                    u64 ti = constV(c).c;
                    i64 off = 0;
                    if (ti == 0)
                    {
                        sel = 0x7fffff00;
                        rec.adjusted = exc;
                        take = true;
                    }
                    else if (findBase(st, rec.ti, ti, 0, off, 0))
                    {
                        sel = tiSelector(ti);
                        rec.adjusted = exc + off;
                        take = true;
                    }
                }
                else
                {
                    // filter
                    const Constant* c = lp->getClause(i);
                    bool ok = false;
                    if (auto* ca = dyn_cast<ConstantArray>(c))
                    {
                        for (unsigned k = 0; k < ca->getNumOperands(); ++k)
                        {
                            i64 off;
                            u64 ti = constV(ca->getOperand(k)).c;
                            if (ti == 0 || findBase(st, rec.ti, ti, 0, off, 0))
                                ok = true;
                        }
                    }
                    if (!ok)
                        fail(st, "terminate", "exception " + tiName(st, rec.ti)
                                 + " violates exception specification");
                }
            }
            if (take)
            {
                int target = ci.t1;
                jumpTo(st, target);
                Frame& f2 = st.stack.back();
                // landingpad is first non-phi instruction
                auto& b2 = f2.f->blocks[target];
                if (b2.ins.empty() || b2.ins[0].opc != Instruction::LandingPad)
                    throw EngineError{"no landingpad"};
                f2.regs[b2.ins[0].dst] = mkAgg({V(exc), V(sel)});
                f2.pc = 1;
                return;
            }
        }
        else if (ci.opc == Instruction::Call && !fromCall && 0)
        {
        }
        if (f.f->F->hasFnAttribute(Attribute::NoUnwind) && f.f->F->getName() != "__clang_call_terminate")
        {
            // exception escapes a noexcept function
            fail(st, "terminate",
                 "exception " + tiName(st, rec.ti) + " escapes noexcept function "
                     + demangle(f.f->F->getName().str()));
        }
        if (st.stack.size() == 1)
            uncaught(st, exc);
        popFrame(st);
    }
}

static void finishCall(State& st, const CInst& ci, const V& ret)
{
    Frame& f = st.stack.back();
    if (ci.dst >= 0)
        f.regs[ci.dst] = ret;
    if (ci.opc == Instruction::Invoke)
        jumpTo(st, ci.t0);
    else
        f.pc++;
}

static V icmp(State& st, CmpInst::Predicate p, const V& a, const V& b, unsigned w)
{
    if (!a.e && !b.e)
    {
        u64 x = a.c, y = b.c;
        i64 sx_ = (i64)sx(x, w), sy = (i64)sx(y, w);
        switch (p)
        {
        case CmpInst::ICMP_EQ:
            return V(x == y);
        case CmpInst::ICMP_NE:
            return V(x != y);
        case CmpInst::ICMP_UGT:
            return V(x > y);
        case CmpInst::ICMP_UGE:
            return V(x >= y);
        case CmpInst::ICMP_ULT:
            return V(x < y);
        case CmpInst::ICMP_ULE:
            return V(x <= y);
        case CmpInst::ICMP_SGT:
            return V(sx_ > sy);
        case CmpInst::ICMP_SGE:
            return V(sx_ >= sy);
        case CmpInst::ICMP_SLT:
            return V(sx_ < sy);
        case CmpInst::ICMP_SLE:
            return V(sx_ <= sy);
        default:
            throw EngineError{"icmp predicate"};
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p)
    {
    case CmpInst::ICMP_EQ:
        return vE(mkEq(x, y));
    case CmpInst::ICMP_NE:
        return vE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT:
        return vE(mkBin(ULT, y, x));
    case CmpInst::ICMP_UGE:
        return vE(mkBin(ULE, y, x));
    case CmpInst::ICMP_ULT:
        return vE(mkBin(ULT, x, y));
    case CmpInst::ICMP_ULE:
        return vE(mkBin(ULE, x, y));
    case CmpInst::ICMP_SGT:
        return vE(mkBin(SLT, y, x));
    case CmpInst::ICMP_SGE:
        return vE(mkBin(SLE, y, x));
    case CmpInst::ICMP_SLT:
        return vE(mkBin(SLT, x, y));
    case CmpInst::ICMP_SLE:
        return vE(mkBin(SLE, x, y));
    default:
        throw EngineError{"icmp predicate"};
    }
}

static V binop(State& st, unsigned opc, const V& a, const V& b, unsigned w, Type* ty)
{
    if (a.agg)
    {
        std::vector<V> el;
        unsigned ew = width(aggT(ty, 0));
        for (size_t i = 0; i < a.agg->el.size(); ++i)
            el.push_back(binop(st, opc, a.agg->el[i], b.agg->el[i], ew, aggT(ty, 0)));
        return mkAgg(el);
    }
    Op op;
    switch (opc)
    {
    case Instruction::Add:
        op = ADD;
        break;
    case Instruction::Sub:
        op = SUB;
        break;
    case Instruction::Mul:
        op = MUL;
        break;
    case Instruction::UDiv:
        op = UDIV;
        break;
    case Instruction::SDiv:
        op = SDIV;
        break;
    case Instruction::URem:
        op = UREM;
        break;
    case Instruction::SRem:
        op = SREM;
        break;
    case Instruction::And:
        op = AND;
        break;
    case Instruction::Or:
        op = OR;
        break;
    case Instruction::Xor:
        op = XOR;
        break;
    case Instruction::Shl:
        op = SHL;
        break;
    case Instruction::LShr:
        op = LSHR;
        break;
    case Instruction::AShr:
        op = ASHR;
        break;
    default:
        throw EngineError{"binop"};
    }
    if (op >= UDIV && op <= SREM)
    {
        if (!b.e)
        {
            if (b.c == 0)
                fail(st, "arith", "division by zero");
        }
        else
        {
            E z = simp(st, mkEq(mkConst(0, w), b.e));
            if (!isC(z) || z->cv)
            {
                State* other;
                bool isz = branchOn(st, z, &other);
                if (other)
                    queue(other);    // re-executes this instruction
                if (isz)
                    fail(st, "arith", "division by zero");
            }
        }
    }
    if (!a.e && !b.e && w <= 64)
    {
        bool ok;
        return V((u64)foldBin(op, a.c, b.c, w, ok));
    }
    E r = mkBin(op, toE(a, w), toE(b, w));
    V v = vE(r);
    if (w > 64)
        v.e = r;
    return v;
}

static double asF(const V& v, unsigned w)
{
    if (w == 32)
    {
        float f;
        u32 x = (u32)v.c;
        memcpy(&f, &x, 4);
        return f;
    }
    double d;
    memcpy(&d, &v.c, 8);
    return d;
}
static V fromF(double d, unsigned w)
{
    if (w == 32)
    {
        float f = (float)d;
        u32 x;
        memcpy(&x, &f, 4);
        return V(x);
    }
    u64 x;
    memcpy(&x, &d, 8);
    return V(x);
}

static V castOp(State& st, unsigned opc, const V& a, unsigned sw, unsigned dw, Type* sty, Type* dty)
{
    if (a.agg && opc != Instruction::BitCast)
    {
        std::vector<V> el;
        for (auto& x : a.agg->el)
            el.push_back(castOp(st, opc, x, width(aggT(sty, 0)), width(aggT(dty, 0)), aggT(sty, 0),
                                aggT(dty, 0)));
        return mkAgg(el);
    }
    switch (opc)
    {
    case Instruction::Trunc:
        if (!a.e)
            return V(a.c & (u64)maskw(dw));
        return vE(mkExtract(a.e, 0, dw));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
        if (dw == sw)
            return a;
        if (dw < sw)
        {
            if (!a.e)
                return V(a.c & (u64)maskw(dw));
            return vE(mkExtract(a.e, 0, dw));
        }
        // fallthrough
    case Instruction::ZExt:
    {
        if (!a.e && dw <= 64)
            return a;
        E r = mkZExt(toE(a, sw), dw);
        V v = vE(r);
        if (dw > 64)
            v.e = r;
        return v;
    }
    case Instruction::SExt:
    {
        if (!a.e && dw <= 64)
            return V((u64)((u128)sx(a.c, sw) & maskw(dw)));
        E r = mkSExt(toE(a, sw), dw);
        V v = vE(r);
        if (dw > 64)
            v.e = r;
        return v;
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    {
        if (!isAggT(sty) && !isAggT(dty))
            return a;
        // via memory
        u64 n = DL->getTypeStoreSize(sty).getFixedValue();
        MemObj tmp;
        tmp.size = n;
        tmp.d.resize(n);
        storeAtT(&tmp, 0, a, sty);
        return loadAtT(st, 0, &tmp, 0, dty);
    }
    case Instruction::UIToFP:
        return fromF((double)conc(st, a), dw);
    case Instruction::SIToFP:
        return fromF((double)(i64)sx(conc(st, a), sw), dw);
    case Instruction::FPToUI:
        return V((u64)asF(V(conc(st, a)), sw) & (u64)maskw(dw));
    case Instruction::FPToSI:
        return V((u64)(i64)asF(V(conc(st, a)), sw) & (u64)maskw(dw));
    case Instruction::FPExt:
    case Instruction::FPTrunc:
        return fromF(asF(V(conc(st, a)), sw), dw);
    }
    throw EngineError{"cast"};
}

static void doCall(State& st, const CInst& ci)
{
    Frame& f = st.stack.back();
    Function* callee = ci.callee;
    size_t nargs = ci.ops.size();
    if (!callee)
    {
        auto* cb = cast<CallBase>(ci.I);
        if (isa<InlineAsm>(cb->getCalledOperand()))
        {
            // compiler barriers only
            finishCall(st, ci, V(0));
            return;
        }
        nargs--;
        V fp = val(f, ci.ops.back());
        u64 a = conc(st, fp);
        auto it = g_faddr.find(a);
        if (it == g_faddr.end())
            fail(st, "memory", "call through invalid function pointer: " + objDesc(st, a));
        callee = it->second;
    }
    std::vector<V> args;
    args.reserve(nargs);
    for (size_t i = 0; i < nargs; ++i)
        args.push_back(val(f, ci.ops[i]));
    int b = ci.builtin;
    if (b == -2)
        b = findBuiltin(callee);
    if (b >= 0)
    {
        V ret;
        if (runBuiltin(st, b, ci, callee, args, ret))
            finishCall(st, ci, ret);
        return;
    }
    if (callee->isDeclaration())
        throw EngineError{"call to external function " + demangle(callee->getName().str())};
    pushFrame(st, callee, args, &ci, cast<CallBase>(ci.I));
}

static void step(State& st)
{
    Frame& f = st.stack.back();
    CBlock& b = f.f->blocks[f.bb];
    const CInst& ci = b.ins[f.pc];
    switch (ci.opc)
    {
    case Instruction::Ret:
    {
        V r;
        if (!ci.ops.empty())
            r = val(f, ci.ops[0]);
        popFrame(st);
        if (st.stack.empty())
            return;
        Frame& c = st.stack.back();
        const CInst& call = c.f->blocks[c.bb].ins[c.pc];
        finishCall(st, call, r);
        return;
    }
    case Instruction::Br:
    {
        if (ci.t1 < 0)
        {
            jumpTo(st, ci.t0);
            return;
        }
        const V& c = val(f, ci.ops[0]);
        if (!c.e)
        {
            jumpTo(st, c.c ? ci.t0 : ci.t1);
            return;
        }
        State* other;
        bool r = branchOn(st, c.e, &other);
        if (other)
        {
            jumpTo(*other, r ? ci.t1 : ci.t0);
            queue(other);
        }
        jumpTo(st, r ? ci.t0 : ci.t1);
        return;
    }
    case Instruction::Switch:
    {
        V c = val(f, ci.ops[0]);
        u128 v;
        if (!c.e)
            v = c.c;
        else
        {
            E e = simp(st, c.e);
            if (isC(e))
                v = e->cv;
            else
            {
                v = evalExpr(e, *st.model);
                int target = ci.t0;
                for (auto& cs : ci.cases)
                    if (cs.first == v)
                        target = cs.second;
                // condition: value goes to `target`
                E cond = mkFalse(), anycase = mkFalse();
                for (auto& cs : ci.cases)
                {
                    E q = mkEq(mkConst(cs.first, e->w), e);
                    anycase = mkBin(OR, anycase, q);
                    if (cs.second == target)
                        cond = mkBin(OR, cond, q);
                }
                if (target == ci.t0)
                    cond = mkBin(OR, cond, mkNot(anycase));
                State* other;
                bool r = branchOn(st, cond, &other);
                if (!r)
                    throw EngineError{"switch"};
                if (other)
                    queue(other);
                jumpTo(st, target);
                return;
            }
        }
        int target = ci.t0;
        for (auto& cs : ci.cases)
            if (cs.first == v)
            {
                target = cs.second;
                break;
            }
        jumpTo(st, target);
        return;
    }
    case Instruction::Unreachable:
        fail(st, "unreachable", "reached unreachable code in " + demangle(f.f->F->getName().str()));
    case Instruction::Call:
    case Instruction::Invoke:
        doCall(st, ci);
        return;
    case Instruction::Resume:
    {
        V a = val(f, ci.ops[0]);
        u64 exc = a.agg->el[0].c;
        if (st.stack.size() == 1)
            uncaught(st, exc);
        popFrame(st);
        unwind(st, exc, true);
        return;
    }
    case Instruction::LandingPad:
        throw EngineError{"stray landingpad"};
    case Instruction::Alloca:
    {
        u64 n = conc(st, val(f, ci.ops[0]));
        u64 addr = st.mem.alloc(ci.imm * n, K_STACK, true, ci.I);
        f.allocas.push_back(addr);
        f.regs[ci.dst] = V(addr);
        break;
    }
    case Instruction::Load:
    {
        AtomicInstr at(st, val(f, ci.ops[0]), st.race && ci.I->isAtomic());
        V r = loadT(st, val(f, ci.ops[0]), ci.ty);
        f.regs[ci.dst] = std::move(r);
        break;
    }
    case Instruction::Store:
    {
        AtomicInstr at(st, val(f, ci.ops[1]), st.race && ci.I->isAtomic());
        storeT(st, val(f, ci.ops[1]), val(f, ci.ops[0]), ci.I->getOperand(0)->getType());
        at.release();
        break;
    }
    case Instruction::GetElementPtr:
    {
        const V& base = val(f, ci.ops[0]);
        bool sym = base.e;
        for (auto& g : ci.gep)
            if (val(f, g.first).e)
                sym = true;
        if (base.agg)
            throw EngineError{"vector gep"};
        if (!sym)
        {
            u64 a = base.c + ci.imm;
            for (size_t i = 0; i < ci.gep.size(); ++i)
            {
                u64 x = val(f, ci.gep[i].first).c;
                a += (u64)(i64)sx(x, ci.gepw[i]) * ci.gep[i].second;
            }
            f.regs[ci.dst] = V(a);
        }
        else
        {
            E a = mkBin(ADD, toE(base, 64), mkConst(ci.imm, 64));
            for (size_t i = 0; i < ci.gep.size(); ++i)
            {
                E x = toE(val(f, ci.gep[i].first), ci.gepw[i]);
                x = ci.gepw[i] < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64);
                a = mkBin(ADD, a, mkBin(MUL, x, mkConst(ci.gep[i].second, 64)));
            }
            f.regs[ci.dst] = vE(a);
        }
        break;
    }
    case Instruction::ICmp:
    {
        auto p = cast<ICmpInst>(ci.I)->getPredicate();
        const V &a = val(f, ci.ops[0]), &c = val(f, ci.ops[1]);
        if (a.agg)
        {
            std::vector<V> el;
            unsigned ew = width(aggT(ci.I->getOperand(0)->getType(), 0));
            for (size_t i = 0; i < a.agg->el.size(); ++i)
                el.push_back(icmp(st, p, a.agg->el[i], c.agg->el[i], ew));
            f.regs[ci.dst] = mkAgg(el);
        }
        else
            f.regs[ci.dst] = icmp(st, p, a, c, ci.obits);
        break;
    }
    case Instruction::Select:
    {
        V c = val(f, ci.ops[0]);
        const V &a = val(f, ci.ops[1]), &d = val(f, ci.ops[2]);
        if (c.agg)
        {
            std::vector<V> el;
            unsigned ew = width(aggT(ci.ty, 0));
            for (size_t i = 0; i < a.agg->el.size(); ++i)
            {
                V& cc = c.agg->el[i];
                if (!cc.e)
                    el.push_back(cc.c ? a.agg->el[i] : d.agg->el[i]);
                else
                    el.push_back(vE(mkIte(cc.e, toE(a.agg->el[i], ew), toE(d.agg->el[i], ew))));
            }
            f.regs[ci.dst] = mkAgg(el);
            break;
        }
        if (c.e)
        {
            E s = simp(st, c.e);
            c = vE(s);
        }
        if (!c.e)
        {
            V r = c.c ? a : d;
            f.regs[ci.dst] = r;
            break;
        }
        if (a.agg || ci.ty->isPointerTy() || ci.bits > 128)
        {
            if (!a.agg && !a.e && !d.e && a.c == d.c)
            {
                f.regs[ci.dst] = a;
                break;
            }
            State* other;
            bool r = branchOn(st, c.e, &other);
            if (other)
                queue(other);
            Frame& f2 = st.stack.back();
            V t = val(f2, ci.ops[r ? 1 : 2]);
            f2.regs[ci.dst] = t;
            break;
        }
        {
            E r = mkIte(c.e, toE(a, ci.bits), toE(d, ci.bits));
            V v = vE(r);
            if (ci.bits > 64)
                v.e = r;
            f.regs[ci.dst] = v;
        }
        break;
    }
    case Instruction::ExtractValue:
    {
        const V* v = &val(f, ci.ops[0]);
        for (unsigned i : ci.idx)
            v = &v->agg->el[i];
        V t = *v;
        f.regs[ci.dst] = t;
        break;
    }
    case Instruction::InsertValue:
    {
        std::function<V(const V&, size_t)> ins = [&](const V& a, size_t k) -> V
        {
            if (k == ci.idx.size())
                return val(f, ci.ops[1]);
            V r = mkAgg(a.agg->el);
            r.agg->el[ci.idx[k]] = ins(a.agg->el[ci.idx[k]], k + 1);
            return r;
        };
        V t = ins(val(f, ci.ops[0]), 0);
        f.regs[ci.dst] = t;
        break;
    }
    case Instruction::ExtractElement:
    {
        u64 i = conc(st, val(f, ci.ops[1]));
        V t = val(f, ci.ops[0]).agg->el.at(i);
        f.regs[ci.dst] = t;
        break;
    }
    case Instruction::InsertElement:
    {
        u64 i = conc(st, val(f, ci.ops[2]));
        V r = mkAgg(val(f, ci.ops[0]).agg->el);
        r.agg->el.at(i) = val(f, ci.ops[1]);
        f.regs[ci.dst] = r;
        break;
    }
    case Instruction::ShuffleVector:
    {
        auto* sv = cast<ShuffleVectorInst>(ci.I);
        const V &a = val(f, ci.ops[0]), &c = val(f, ci.ops[1]);
        std::vector<V> el;
        int n = a.agg->el.size();
        for (int m : sv->getShuffleMask())
            el.push_back(m < 0 ? zeroOf(aggT(ci.ty, 0)) : m < n ? a.agg->el[m] : c.agg->el[m - n]);
        f.regs[ci.dst] = mkAgg(el);
        break;
    }
    case Instruction::Freeze:
    {
        V t = val(f, ci.ops[0]);
        f.regs[ci.dst] = t;
        break;
    }
    case Instruction::Fence:
        break;
    case Instruction::AtomicCmpXchg:
    {
        Type* ty = ci.I->getOperand(1)->getType();
        unsigned w = width(ty);
        AtomicInstr at(st, val(f, ci.ops[0]));
        V old = loadT(st, val(f, ci.ops[0]), ty);
        V eq = icmp(st, CmpInst::ICMP_EQ, old, val(f, ci.ops[1]), w);
        bool r;
        if (eq.e)
        {
            State* other;
            r = branchOn(st, eq.e, &other);
            if (other)
                queue(other);
        }
        else
            r = eq.c;
        Frame& f2 = st.stack.back();
        if (r)
            storeT(st, val(f2, ci.ops[0]), val(f2, ci.ops[2]), ty);
        at.release();
        f2.regs[ci.dst] = mkAgg({old, V(r)});
        break;
    }
    case Instruction::AtomicRMW:
    {
        auto* rmw = cast<AtomicRMWInst>(ci.I);
        Type* ty = ci.I->getOperand(1)->getType();
        unsigned w = width(ty);
        AtomicInstr at(st, val(f, ci.ops[0]));
        V old = loadT(st, val(f, ci.ops[0]), ty);
        V x = val(f, ci.ops[1]);
        V n;
        switch (rmw->getOperation())
        {
        case AtomicRMWInst::Xchg:
            n = x;
            break;
        case AtomicRMWInst::Add:
            n = binop(st, Instruction::Add, old, x, w, ty);
            break;
        case AtomicRMWInst::Sub:
            n = binop(st, Instruction::Sub, old, x, w, ty);
            break;
        case AtomicRMWInst::And:
            n = binop(st, Instruction::And, old, x, w, ty);
            break;
        case AtomicRMWInst::Or:
            n = binop(st, Instruction::Or, old, x, w, ty);
            break;
        default:
            throw EngineError{"atomicrmw"};
        }
        storeT(st, val(f, ci.ops[0]), n, ty);
        at.release();
        f.regs[ci.dst] = old;
        break;
    }
    case Instruction::FNeg:
        f.regs[ci.dst] = fromF(-asF(V(conc(st, val(f, ci.ops[0]))), ci.bits), ci.bits);
        break;
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    {
        double x = asF(V(conc(st, val(f, ci.ops[0]))), ci.bits),
               y = asF(V(conc(st, val(f, ci.ops[1]))), ci.bits), r;
        r = ci.opc == Instruction::FAdd ? x + y
            : ci.opc == Instruction::FSub ? x - y
            : ci.opc == Instruction::FMul ? x * y
                                          : x / y;
        f.regs[ci.dst] = fromF(r, ci.bits);
        break;
    }
    case Instruction::FCmp:
    {
        unsigned w = ci.obits;
        double x = asF(V(conc(st, val(f, ci.ops[0]))), w), y = asF(V(conc(st, val(f, ci.ops[1]))), w);
        f.regs[ci.dst] = V(FCmpInst::compare(APFloat(x), APFloat(y), cast<FCmpInst>(ci.I)->getPredicate()));
        break;
    }
    default:
        if (ci.opc >= Instruction::Add && ci.opc <= Instruction::Xor)
        {
            V r = binop(st, ci.opc, val(f, ci.ops[0]), val(f, ci.ops[1]), ci.bits, ci.ty);
            st.stack.back().regs[ci.dst] = r;
            break;
        }
        if (Instruction::isCast(ci.opc))
        {
            V r = castOp(st, ci.opc, val(f, ci.ops[0]), ci.obits, ci.bits,
                         ci.I->getOperand(0)->getType(), ci.ty);
            f.regs[ci.dst] = r;
            break;
        }
        throw EngineError{std::string("unsupported instruction ") + ci.I->getOpcodeName()};
    }
    st.stack.back().pc++;
}

static void sample(State& st)
{
    if (g_samples.size() >= 6)
        return;
    std::vector<const SymRec*> recs;
    for (auto* n = st.syms.head.get(); n; n = n->next.get())
        recs.push_back(&n->v);
    std::string s;
    for (auto it = recs.rbegin(); it != recs.rend(); ++it)
    {
        s += (*it)->name + "=";
        char b[4];
        for (u32 id : (*it)->vars)
        {
            snprintf(b, sizeof b, "%02x", st.model->get(id));
            s += b;
        }
        s += " ";
        if (s.size() > 60000)
            break;
    }
    g_samples.push_back(s);
}

// run one state to completion; forks go to g_pending
static void runState(State* st)
{
    try
    {
        while (!st->stack.empty())
        {
            step(*st);
            g_totalSteps++;
            if (++st->steps > g_maxSteps)
            {
                recordViolation(*st, "hang", "path exceeds the step bound", *st->model);
                g_incomplete++;
                break;
            }
            if ((g_totalSteps & 0xfff) == 0 && elapsed() > g_maxTime)
            {
                queue(st);
                st = nullptr;
                return;
            }
        }
        g_paths++;
        sample(*st);
    }
    catch (PathEnd&)
    {
        g_killed++;
    }
    catch (EngineError& e)
    {
        std::string k = e.msg;
        if (g_errors.size() < 20)
        {
            auto sk = stackOf(*st);
            for (size_t i = 0; i < sk.size() && i < 8; ++i)
                k += "\n      " + sk[i];
        }
        g_errors[k]++;
    }
    delete st;
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 32 || c >= 127)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}

static void output(const std::string& path, size_t pendingLeft)
{
    hotReport();
    std::ofstream o(path);
    o << "{\n";
    o << "\"paths\":" << g_paths << ",\"forks\":" << g_forks << ",\"killed\":" << g_killed
      << ",\"steps\":" << g_totalSteps << ",\"queries\":" << g_sstats.queries
      << ",\"z3_calls\":" << g_sstats.z3_calls << ",\"solver_time\":" << g_sstats.time
      << ",\"unknown\":" << g_sstats.unknown << ",\"incomplete\":" << g_incomplete
      << ",\"pending\":" << pendingLeft << ",\"asserts\":" << g_asserts
      << ",\"memchecks\":" << g_memchecks << ",\"exprs\":" << exprCount() << ",\"time\":" << elapsed()
      << ",\n\"reach\":{";
    bool first = true;
    for (auto& r : g_reach)
    {
        o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second;
        first = false;
    }
    o << "},\n\"errors\":{";
    first = true;
    for (auto& r : g_errors)
    {
        o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second;
        first = false;
    }
    o << "},\n\"assertions\":{";
    first = true;
    for (auto& r : g_assertMsgs)
    {
        o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second;
        first = false;
    }
    o << "},\n\"samples\":[";
    first = true;
    for (auto& r : g_samples)
    {
        o << (first ? "" : ",") << "\"" << jesc(r) << "\"";
        first = false;
    }
    o << "],\n\"functions\":{";
    first = true;
    for (auto& kv : g_cf)
    {
        auto* c = kv.second.get();
        if (!c->inRepo || !c->executed)
            continue;
        unsigned cov = 0;
        for (auto& b : c->blocks)
            cov += b.covered;
        std::string file = c->repoFile;
        o << (first ? "" : ",") << "\n \"" << jesc(demangle(c->F->getName().str())) << "\":[\""
          << jesc(file) << "\"," << cov << "," << c->blocks.size() << "]";
        first = false;
    }
    o << "},\n\"violations\":[";
    first = true;
    for (auto& v : g_viol)
    {
        o << (first ? "" : ",") << "\n{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg)
          << "\",\"stack\":[";
        for (size_t i = 0; i < v.stack.size(); ++i)
            o << (i ? "," : "") << "\"" << jesc(v.stack[i]) << "\"";
        o << "],\"inputs\":[";
        for (size_t i = 0; i < v.inputs.size(); ++i)
        {
            o << (i ? "," : "") << "[\"" << jesc(v.inputs[i].first) << "\",\"";
            char b[4];
            for (u8 x : v.inputs[i].second)
            {
                snprintf(b, sizeof b, "%02x", x);
                o << b;
            }
            o << "\"]";
        }
        o << "]}";
        first = false;
    }
    o << "]\n}\n";
}

int main(int argc, char** argv)
{
    std::string bc, entry = "harness", out = "/dev/stdout";
    unsigned jobs = 1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "-e")
            entry = next();
        else if (a == "-o")
            out = next();
        else if (a == "-t")
            g_maxTime = atof(next().c_str());
        else if (a == "-s")
            g_maxSteps = strtoull(next().c_str(), 0, 10);
        else if (a == "-v")
            g_verbose = true;
        else if (a == "-m")
            g_maxViol = strtoull(next().c_str(), 0, 10);
        else if (a == "-q")
            g_query_timeout_ms = atoi(next().c_str());
        else if (a == "-j")
            jobs = atoi(next().c_str());
        else if (a == "-r")
            g_repoPrefix = next();
        else if (a == "-p")
        {
            std::string kv = next();
            auto p = kv.find('=');
            g_params[kv.substr(0, p)] = atoll(kv.c_str() + p + 1);
        }
        else
            bc = a;
    }
    struct rlimit rl = {1ull << 30, 1ull << 30};
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur < (1ull << 29) && !getenv("SYMEX_RE"))
    {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max;
        setrlimit(RLIMIT_STACK, &rl);
        setenv("SYMEX_RE", "1", 1);
        execv("/proc/self/exe", argv);
    }
    g_t0 = std::chrono::steady_clock::now();
    SMDiagnostic err;
    g_mod = parseIRFile(bc, err, g_ctx);
    if (!g_mod)
    {
        err.print("symex", errs());
        return 2;
    }
    DL = &g_mod->getDataLayout();
    State* st = new State();
    st->id = 0;
    st->model = newModel(nullptr);
    // addresses
    for (auto& F : *g_mod)
    {
        u64 a;
        if (F.hasExternalWeakLinkage() && F.isDeclaration())
            a = 0;
        else
        {
            a = st->mem.alloc(0, K_FUNC, false, &F);
            g_faddr[a] = &F;
        }
        g_gaddr[&F] = a;
        g_byaddr[a] = &F;
    }
    // every direct use of a thread-local variable goes through the intrinsic that yields the current thread's copy
    for (auto& G : g_mod->globals())
    {
        if (!G.isThreadLocal())
            continue;
        convertUsersOfConstantsToInstructions({&G});
        std::vector<Use*> uses;
        for (auto& u : G.uses())
            uses.push_back(&u);
        for (Use* u : uses)
        {
            auto* in = dyn_cast<Instruction>(u->getUser());
            if (!in)
                continue;
            if (auto* c = dyn_cast<IntrinsicInst>(in))
                if (c->getIntrinsicID() == Intrinsic::threadlocal_address)
                    continue;
            Instruction* at = in;
            if (auto* phi = dyn_cast<PHINode>(in))
                at = phi->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> b(at);
            u->set(b.CreateThreadLocalAddress(&G));
        }
    }
    for (auto& G : g_mod->globals())
    {
        u64 a = 0;
        if (!(G.hasExternalWeakLinkage() && G.isDeclaration()))
        {
            u64 sz = DL->getTypeAllocSize(G.getValueType()).getFixedValue();
            if (G.isDeclaration() && sz < 64)
                sz = 64;
            a = st->mem.alloc(sz, K_GLOBAL, false, &G);
            g_byaddr[a] = &G;
            if (G.isThreadLocal())
                for (u64 t = 0; t < TLS_THREADS; ++t)
                    g_tls[a].push_back(st->mem.alloc(sz, K_GLOBAL, false, &G));
        }
        g_gaddr[&G] = a;
    }
    try
    {
        for (auto& G : g_mod->globals())
        {
            if (G.hasInitializer() && !G.getName().starts_with("llvm."))
            {
                u64 id = g_gaddr[&G] >> ID_SHIFT;
                MemObj* o = st->mem.getMut(id);
                storeConst(o, 0, G.getInitializer());
                if (G.isThreadLocal())
                    for (u64 c : g_tls[g_gaddr[&G]])
                        storeConst(st->mem.getMut(c >> ID_SHIFT), 0, G.getInitializer());
                if (G.isConstant())
                    o->ro = true;
            }
        }
    }
    catch (EngineError& e)
    {
        fprintf(stderr, "symex: %s\n", e.msg.c_str());
        return 2;
    }
    if (!g_tls.empty())
        g_baseMem = st->mem;
    // entry thunk: run global ctors, then the harness. Build a small function in the module.
    {
        FunctionType* ft = FunctionType::get(Type::getVoidTy(g_ctx), false);
        Function* thunk = Function::Create(ft, GlobalValue::InternalLinkage, "__symex_entry", *g_mod);
        BasicBlock* bb = BasicBlock::Create(g_ctx, "e", thunk);
        if (auto* gc = g_mod->getNamedGlobal("llvm.global_ctors"))
        {
            std::vector<std::pair<u64, Function*>> v;
            if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (unsigned i = 0; i < arr->getNumOperands(); ++i)
                {
                    auto* cs = cast<ConstantStruct>(arr->getOperand(i));
                    if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                        v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
                }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v)
                CallInst::Create(p.second->getFunctionType(), p.second, "", bb);
        }
        Function* h = g_mod->getFunction(entry);
        if (!h || h->isDeclaration())
        {
            fprintf(stderr, "symex: no entry function %s\n", entry.c_str());
            return 2;
        }
        CallInst::Create(h->getFunctionType(), h, "", bb);
        ReturnInst::Create(g_ctx, bb);
        pushFrame(*st, thunk, {}, nullptr, nullptr);
    }
    g_pending.push_back(st);
    auto done = [&]() { return g_pending.empty() || elapsed() > g_maxTime || g_viol.size() >= g_maxViol; };
    if (jobs > 1)
    {
        // breadth first until there is enough work
        std::deque<State*> q;
        while (!done() && g_pending.size() < 3)
        {
            // oldest first
            State* s = g_pending.front();
            g_pending.erase(g_pending.begin());
            runState(s);
        }
        if (!done())
        {
            // Workers split: whenever a slot is free, a worker with several pending states forks a child that takes
            // every other one of them.
            auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            sh->active = 1;
            sh->next = 1;
            unsigned me = 0;
            std::vector<pid_t> kids;
            for (;;)
            {
                while (g_pending.size() >= 2 && !done())
                {
                    if (sh->active.fetch_add(1) >= (int)jobs)
                    {
                        sh->active--;
                        break;
                    }
                    unsigned id = sh->next++;
                    fflush(stdout);
                    pid_t p = fork();
                    if (p < 0)
                    {
                        sh->active--;
                        break;
                    }
                    std::vector<State*> keep;
                    for (size_t i = 0; i < g_pending.size(); ++i)
                        if ((i % 2 == 0) == (p == 0))
                            keep.push_back(g_pending[i]);
                    g_pending.swap(keep);
                    if (p == 0)
                    {
                        me = id;
                        kids.clear();
                        g_sstats = SolverStats();
                        g_paths = g_forks = g_killed = g_totalSteps = g_incomplete = g_asserts = g_memchecks = 0;
                        g_viol.clear();
                        g_reach.clear();
                        g_errors.clear();
                        g_assertMsgs.clear();
                        g_samples.clear();
                    }
                    else
                        kids.push_back(p);
                }
                if (done())
                    break;
                State* s = g_pending.back();
                g_pending.pop_back();
                runState(s);
            }
            output(out + "." + std::to_string(me), g_viol.size() >= g_maxViol ? 0 : g_pending.size());
            sh->active--;
            fflush(stdout);
            for (pid_t p : kids)
                waitpid(p, nullptr, 0);
            if (me == 0)
            {
                std::ofstream f(out + "-workers");
                f << sh->next.load() << "\n";
            }
            _exit(0);
        }
    }
    while (!done())
    {
        State* s = g_pending.back();
        g_pending.pop_back();
        runState(s);
    }
    output(out, g_pending.size());
    fflush(stdout);
    _exit(0);
}
