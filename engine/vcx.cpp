// vcx - a deductive verification-condition engine for LLVM IR.
//
// It takes the LLVM bitcode that clang produces from the *real* boostorg/cobalt sources (plus a
// specification TU) and, for each contract function (extern "C" void vp_C_<name>()), computes the strongest
// postcondition path by path over full-domain symbolic inputs; every vp_check()/implicit safety condition
// becomes a verification condition discharged either by constant propagation or by z3 (QF_ABV).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t;
using Clock = std::chrono::steady_clock;

static double now_s() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

//---------------------------------------------------------------------------------------------- values
static z3::context *Z;
static std::vector<z3::expr> EXPRS;                       // interned, never freed
static std::unordered_map<unsigned, u32> EXPR_IDX;        // z3 ast id -> index
struct Val { u32 bits = 0; u32 e = 0; u64 c = 0; };       // bits==0: aggregate, c = index into AGG
static std::vector<std::vector<Val>> AGG;

static inline u64 maskw(u32 b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static inline Val C(u32 bits, u64 c) { Val v; v.bits = bits; v.c = c & maskw(bits); return v; }
static inline Val P(u64 c) { return C(64, c); }
static u32 intern(const z3::expr &e)
{
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = EXPR_IDX.find(id);
  if (it != EXPR_IDX.end()) return it->second;
  EXPRS.push_back(e);
  u32 i = (u32)EXPRS.size() - 1;
  EXPR_IDX[id] = i;
  return i;
}
static Val mkagg(std::vector<Val> v) { Val r; r.bits = 0; AGG.push_back(std::move(v)); r.c = AGG.size() - 1; return r; }

// make a Val of given width from an expression (BV or Bool for width 1)
static Val S(u32 bits, z3::expr e)
{
  e = e.simplify();
  if (bits == 1)
  {
    if (e.is_true()) return C(1, 1);
    if (e.is_false()) return C(1, 0);
  }
  else if (e.is_numeral() && bits <= 64)
  {
    uint64_t n = 0;
    if (Z3_get_numeral_uint64(*Z, e, &n)) return C(bits, n);
  }
  Val v; v.bits = bits; v.e = intern(e); return v;
}
static z3::expr X(const Val &v)          // as expression; Bool for 1 bit
{
  if (v.e) return EXPRS[v.e];
  if (v.bits == 1) return Z->bool_val(v.c != 0);
  return Z->bv_val((uint64_t)v.c, v.bits);
}
static z3::expr XB(const Val &v)         // always as BV
{
  if (v.bits == 1)
  {
    if (!v.e) return Z->bv_val((uint64_t)v.c, 1);
    return z3::ite(EXPRS[v.e], Z->bv_val(1, 1), Z->bv_val(0, 1));
  }
  return X(v);
}
static inline int64_t sx(const Val &v) { u32 b = v.bits; return b >= 64 ? (int64_t)v.c : (int64_t)(v.c << (64 - b)) >> (64 - b); }

//---------------------------------------------------------------------------------------------- memory
struct Cell { u8 kind = 0; u8 b = 0; u32 e = 0; };       // 0 uninit, 1 concrete byte b, 2 symbolic: byte b of expr e
struct LogEnt { Val off; unsigned n; Val v; };
struct Content { std::vector<Cell> cells; u32 arr = 0; std::vector<LogEnt> log; };
enum Kind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_EXC, K_ARENA };
struct Obj
{
  u64 base = 0; Val size; Kind kind = K_HEAP; bool alive = true; bool ro = false; u64 align = 16; u8 how = 0; bool leak_ok = false;
  u32 site = 0;
  std::shared_ptr<Content> data;
  std::shared_ptr<std::vector<struct Sh>> sh;
};
// per byte: the last write (thread << 24 | clock) and the last read of every thread (its clock)
struct Sh { u32 w = 0; u32 r[3] = {0, 0, 0}; };
using ObjP = std::shared_ptr<Obj>;
static std::vector<std::string> SITES{"?"};

struct Input { std::string name; u32 bits; Val v; };
struct Exc { u64 obj; u64 ti; u64 dtor; int refs; bool dead; };

struct FnInfo
{
  Function *F; unsigned n = 0; DenseMap<const Value *, unsigned> idx;
};
struct Frame
{
  FnInfo *fn = nullptr; BasicBlock::iterator pc; BasicBlock *bb = nullptr, *prev = nullptr;
  std::vector<Val> regs; unsigned nstack = 0; CallBase *call = nullptr, *cur = nullptr; int post = 0; u64 postarg = 0;
  std::vector<Val> varargs;
};
// a thread that is not running; the members of the running one are in the State itself
struct Thr
{
  std::vector<Frame> st; std::vector<ObjP> stack; u64 stack_bump = 0; std::vector<u64> caught; u64 inflight = 0; int uncaught = 0;
  bool fin = false, sched = false, woken = false; u8 wait = 0; u64 waddr = 0, wmtx = 0; u64 pend = 0; bool pload = false, hot = false;    // pend: what it is about to synchronise on; hot: another thread did so since
      // wait: 1 mutex, 2 condition variable, 3 end of thread waddr, 4 end of all
  std::vector<u32> vc; std::vector<std::pair<u64, u64>> atexit;
};
struct State
{
  std::vector<Thr> thr; unsigned cur = 0; int preempt = 0;
  std::map<u64, u64> tls; std::map<u64, std::vector<u32>> hb;
  std::vector<Frame> st;
  std::vector<ObjP> heap;      // sorted by base (bump allocated)
  std::vector<ObjP> stack;
  u64 heap_bump = 0x200000000000ull, stack_bump = 0x600000000000ull, arena_bump = 0x1000000000000ull;
  std::vector<ObjP> arenas;
  std::vector<u32> pc;         // path condition (Bool exprs)
  std::vector<Input> inputs;
  std::map<u64, Exc> excs;
  std::vector<u64> caught;     // stack of exception objects
  u64 inflight = 0;
  int uncaught = 0;
  u64 mark = 0;                // heap mark for leak detection
  u64 steps = 0;
  std::shared_ptr<z3::model> model; size_t model_upto = 0;
  bool done = false;
  std::map<std::pair<const void*,u64>, unsigned> loopcnt;
  std::shared_ptr<std::set<u32>> unsat;   // formulas known to be unsatisfiable under (a prefix of) pc
};

//---------------------------------------------------------------------------------------------- engine
struct ObInfo { u64 vcs = 0, trivial = 0, solver = 0, failed = 0, unknown = 0; };
struct Violation { std::string contract, ob, detail, where; std::vector<std::pair<std::string, std::pair<u32, u64>>> inputs; std::vector<std::string> stack; };

struct Abort { std::string why; };       // engine limitation -> path undecided
struct PathEnd {};                       // path infeasible / finished

static Module *M; static const DataLayout *DL;
static std::vector<ObjP> GLOBALS;        // prototype objects (sorted)
static std::unordered_map<const GlobalValue *, u64> GADDR;
static std::unordered_map<u64, Function *> FADDR;
static std::unordered_map<u64, std::string> FNAMES_EXT;
static std::unordered_map<const Constant *, Val> CCACHE;
static std::unordered_map<Function *, std::unique_ptr<FnInfo>> FNS;
static std::unordered_map<std::string, Function *> OVERRIDE;
static std::unordered_map<u64, GlobalVariable *> TI_AT;
static std::unordered_map<u64, unsigned> TYPEID;

static std::map<std::string, ObInfo> OBS;
static std::map<std::string, u64> COVERS;
static std::vector<Violation> VIOLS;
static std::map<std::string, u64> UNDECIDED;
static std::set<std::string> FUNCS_EXECUTED, EXTERNS_USED;
static u64 N_PATHS, N_QUERIES, N_STEPS, N_FORKS; static double T_SOLVER;
static std::string CUR_CONTRACT;
static u64 MAX_STEPS = 3000000, MAX_PATHS = 200000, BASE_PATHS = 0; static double TIME_LIMIT = 600, T_START;
static unsigned Z3_TIMEOUT = 60000;
static bool ARRAYS = false;
static bool VERBOSE = false, TRACE_CALLS = false;
static unsigned MAX_VIOL = 6;
static std::vector<State> WORK;

static FnInfo *info(Function *F)
{
  auto &p = FNS[F];
  if (!p)
  {
    p = std::make_unique<FnInfo>(); p->F = F;
    for (auto &a : F->args()) p->idx[&a] = p->n++;
    for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
  }
  return p.get();
}

static u32 bitsOf(Type *t)
{
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  throw Abort{"type without width"};
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static std::string where(State &s)
{
  std::string r;
  for (int i = (int)s.st.size() - 1; i >= 0; i--)
  {
    auto &f = s.st[i];
    if (!f.fn) continue;
    const Instruction *I = nullptr;
    I = i == (int)s.st.size() - 1 ? &*f.pc : f.cur;
    if (I) if (auto &dl = I->getDebugLoc())
    {
      auto *sc = dl->getScope();
      std::string fn = sc->getFilename().str();
      if (fn.find("/repo/") != std::string::npos || fn.find("cobalt") != std::string::npos)
      { r = fn + ":" + std::to_string(dl.getLine()); break; }
    }
  }
  return r;
}
static std::vector<std::string> backtrace(State &s)
{
  std::vector<std::string> r;
  for (int i = (int)s.st.size() - 1; i >= 0 && r.size() < 14; i--)
  {
    auto &f = s.st[i]; if (!f.fn) continue;
    std::string n = demangle(f.fn->F->getName().str());
    if (n.size() > 160) n = n.substr(0, 160) + "...";
    const Instruction *I = nullptr;
    I = i == (int)s.st.size() - 1 ? &*f.pc : f.cur;
    if (I) if (auto &dl = I->getDebugLoc()) n += " @" + dl->getScope()->getFilename().str() + ":" + std::to_string(dl.getLine());
    r.push_back(n);
  }
  return r;
}

//------------------------------------------------------------------------ solver
static std::vector<std::shared_ptr<std::vector<unsigned>>> EVARS;   // per interned expr: sorted ids of the constants in it
static std::unordered_map<unsigned, std::shared_ptr<std::vector<unsigned>>> AVARS;
static std::shared_ptr<std::vector<unsigned>> vars_of(const z3::expr &e)
{
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = AVARS.find(id); if (it != AVARS.end()) return it->second;
  std::set<unsigned> seen, vs; std::vector<z3::expr> todo{e};
  while (!todo.empty())
  {
    z3::expr x = todo.back(); todo.pop_back();
    if (!seen.insert(Z3_get_ast_id(*Z, x)).second) continue;
    if (!x.is_app()) continue;
    if (x.num_args() == 0) { if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vs.insert(Z3_get_ast_id(*Z, x)); }
    else for (unsigned i = 0; i < x.num_args(); i++) todo.push_back(x.arg(i));
  }
  auto r = std::make_shared<std::vector<unsigned>>(vs.begin(), vs.end());
  intern(e);                     // keep alive, so that the id stays valid
  AVARS[id] = r; return r;
}
static z3::check_result solve(const std::vector<u32> &pc, const z3::expr *extra, z3::model *out)
{
  N_QUERIES++;
  double t0 = now_s();
  z3::solver sol(*Z, ARRAYS ? "QF_ABV" : "QF_BV");
  z3::params p(*Z); p.set("timeout", Z3_TIMEOUT); sol.set(p);
  for (u32 e : pc) sol.add(EXPRS[e]);
  if (extra) sol.add(*extra);
  auto r = sol.check();
  if (r == z3::sat && out) *out = sol.get_model();
  double dt = now_s() - t0; T_SOLVER += dt;
  if (const char *d = getenv("VCX_DUMP")) if (dt > 0.3) { static int k = 0; std::ofstream o(std::string(d) + "/q" + std::to_string(k++) + ".smt2"); o << "; " << dt << " " << r << "\n(set-logic QF_ABV)\n" << sol.to_smt2(); }
  return r;
}
static z3::check_result query(State &s, const z3::expr *extra, z3::model *out)
{
  if (!extra) return solve(s.pc, nullptr, out);
  z3::expr ex = extra->simplify();
  if (ex.is_false()) return z3::unsat;
  u32 id = intern(ex);
  if (s.unsat && s.unsat->count(id)) return z3::unsat;
  // slice: only the constraints that (transitively) share variables with the query
  std::vector<u32> sl; std::vector<char> in(s.pc.size(), 0); std::set<unsigned> vs;
  { auto v = vars_of(ex); vs.insert(v->begin(), v->end()); }
  for (bool ch = true; ch;)
  {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!in[i])
    {
      auto v = vars_of(EXPRS[s.pc[i]]);
      for (unsigned x : *v) if (vs.count(x)) { in[i] = 1; ch = true; vs.insert(v->begin(), v->end()); break; }
    }
  }
  for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) sl.push_back(s.pc[i]);
  auto r = solve(sl, &ex, sl.size() == s.pc.size() ? out : nullptr);
  if (r == z3::unsat) { if (!s.unsat) s.unsat = std::make_shared<std::set<u32>>(); else if (s.unsat.use_count() > 1) s.unsat = std::make_shared<std::set<u32>>(*s.unsat); s.unsat->insert(id); return r; }
  if (r == z3::sat && sl.size() != s.pc.size() && out) return solve(s.pc, &ex, out);
  return r;
}
static bool model_says(State &s, const z3::expr &c, bool &val)
{
  if (!s.model) return false;
  if (s.model_upto < s.pc.size())
  {
    for (size_t i = s.model_upto; i < s.pc.size(); i++)
      if (!s.model->eval(EXPRS[s.pc[i]], true).is_true()) { s.model.reset(); return false; }
    s.model_upto = s.pc.size();
  }
  z3::expr r = s.model->eval(c, true);
  if (r.is_true()) { val = true; return true; }
  if (r.is_false()) { val = false; return true; }
  return false;
}
enum Tri { T_NO, T_YES, T_UNK };
static Tri feasible(State &s, const z3::expr &c)
{
  bool v;
  if (model_says(s, c, v) && v) return T_YES;
  z3::model m(*Z);
  auto r = query(s, &c, &m);
  if (r == z3::sat) { s.model = std::make_shared<z3::model>(m); s.model_upto = s.pc.size(); return T_YES; }
  return r == z3::unsat ? T_NO : T_UNK;
}
static void add_pc(State &s, const z3::expr &c)
{
  z3::expr e = c.simplify();
  if (e.is_true()) return;
  s.pc.push_back(intern(e));
}

static void record_violation(State &s, const std::string &ob, const std::string &detail, const z3::expr *neg)
{
  OBS[ob].failed++;
  unsigned same = 0;
  for (auto &v : VIOLS) if (v.ob == ob && v.contract == CUR_CONTRACT) same++;
  if (same >= 3) return;
  Violation v; v.contract = CUR_CONTRACT; v.ob = ob; v.detail = detail; v.where = where(s); v.stack = backtrace(s);
  // look for a small counterexample first
  z3::model m(*Z); bool have = false;
  u64 lims[] = {64, 1024, 65536, 0};
  for (u64 lim : lims)
  {
    z3::expr c = neg ? *neg : Z->bool_val(true);
    if (lim)
      for (auto &in : s.inputs) if (in.v.e && in.bits > 8) c = c && z3::ule(XB(in.v), Z->bv_val((uint64_t)lim, in.v.bits));
    if (query(s, &c, &m) == z3::sat) { have = true; break; }
  }
  for (auto &in : s.inputs)
  {
    u64 val = in.v.c;
    if (in.v.e)
    {
      val = 0;
      if (have) { z3::expr r = m.eval(XB(in.v), true); uint64_t n = 0; if (Z3_get_numeral_uint64(*Z, r, &n)) val = n; }
    }
    v.inputs.push_back({in.name, {in.bits, val}});
  }
  VIOLS.push_back(v);
}
[[noreturn]] static void fail_path(State &s, const std::string &ob, const std::string &detail)
{
  OBS[ob].vcs++;
  z3::model m(*Z);
  auto r = s.pc.empty() ? z3::sat : query(s, nullptr, &m);
  if (r == z3::unsat) throw PathEnd{};
  if (r == z3::unknown) { OBS[ob].unknown++; throw Abort{"solver unknown at " + ob}; }
  record_violation(s, ob, detail, nullptr);
  throw PathEnd{};
}

//------------------------------------------------------------------------ object lookup
static ObjP *find_in(std::vector<ObjP> &v, u64 a)
{
  size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid]->base <= a) lo = mid + 1; else hi = mid; }
  if (!lo) return nullptr;
  return &v[lo - 1];
}
static ObjP *find_obj(State &s, u64 a)
{
  if (a >= 0x1000000000000ull) return find_in(s.arenas, a);
  if (a >= 0x600000000000ull)
  {
    u64 t = (a - 0x600000000000ull) >> 40;
    return t == s.cur ? find_in(s.stack, a) : t < s.thr.size() ? find_in(s.thr[t].stack, a) : nullptr;
  }
  return find_in(s.heap, a);
}
static u64 obj_span(const Obj &o)  // region reserved for the object (pointer arithmetic beyond it leaves the object)
{
  return o.size.e ? (1ull << 44) : o.size.c;
}
static ObjP alloc_obj(State &s, Val size, Kind k, u64 align, const std::string &site = "")
{
  auto o = std::make_shared<Obj>();
  o->size = size; o->kind = k; o->align = align;
  o->data = std::make_shared<Content>();
  if (align < 16) align = 16;
  u64 *bump = k == K_STACK ? &s.stack_bump : (size.e || k == K_ARENA) ? &s.arena_bump : &s.heap_bump;
  auto &vec = k == K_STACK ? s.stack : (size.e || k == K_ARENA) ? s.arenas : s.heap;
  if (size.e || k == K_ARENA) { o->base = *bump; *bump += 1ull << 45; }
  else
  {
    u64 b = (*bump + align - 1) / align * align;
    // do not hand out accidentally over-aligned memory: real allocators only promise `align`
    if (k == K_HEAP && (b % (align * 2)) == 0) b += align;
    o->base = b; *bump = b + size.c + 48;
  }
  if (!size.e && size.c <= (1u << 22)) o->data->cells.resize(size.c);
  else if (size.e || true)
  {
    static int cnt = 0;
    if (size.e || size.c > (1u << 22))
      o->data->arr = intern(Z->constant(("mem" + std::to_string(cnt++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8))));
  }
  if (!site.empty()) { SITES.push_back(site); o->site = SITES.size() - 1; }
  vec.push_back(o);
  return o;
}
static Obj &mut(ObjP &p)
{
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
static Content &mutc(ObjP &p)
{
  Obj &o = mut(p);
  if (o.data.use_count() > 1) o.data = std::make_shared<Content>(*o.data);
  return *o.data;
}
static z3::expr byte_expr(const Cell &c)
{
  if (c.kind == 1) return Z->bv_val((uint64_t)c.b, 8);
  if (c.kind == 2)
  {
    z3::expr e = EXPRS[c.e];
    if (e.is_bool()) e = z3::ite(e, Z->bv_val(1, 8), Z->bv_val(0, 8));
    unsigned w = e.get_sort().bv_size();
    if (w == 8) return e;
    return e.extract(c.b * 8 + 7, c.b * 8);
  }
  static int n = 0;
  return Z->bv_const(("uninit" + std::to_string(n++)).c_str(), 8);
}
static void to_array(ObjP &p)
{
  Content &c = mutc(p);
  if (c.arr) return;
  static int cnt = 0;
  z3::expr a = Z->constant(("arr" + std::to_string(cnt++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8)));
  for (size_t i = 0; i < c.cells.size(); i++)
    if (c.cells[i].kind) a = z3::store(a, Z->bv_val((uint64_t)i, 64), byte_expr(c.cells[i]));
  c.arr = intern(a); c.cells.clear();
}
static z3::check_result query(State &s, const z3::expr *extra, z3::model *out);
static Val read_bytes(State &s, ObjP &p, Val off, unsigned n, u32 bits)
{
  Content &c = *p->data;
  if (!off.e && !c.arr)
  {
    u64 o = off.c;
    Cell *cl = &c.cells[o];
    bool allc = true;
    for (unsigned i = 0; i < n; i++) if (cl[i].kind != 1) { allc = false; break; }
    if (allc && n <= 8)
    {
      u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)cl[i].b << (8 * i);
      return C(bits, v);
    }
    // same symbolic expression?
    if (cl[0].kind == 2 && cl[0].b == 0)
    {
      bool same = true;
      for (unsigned i = 1; i < n; i++) if (cl[i].kind != 2 || cl[i].e != cl[0].e || cl[i].b != i) { same = false; break; }
      if (same)
      {
        z3::expr e = EXPRS[cl[0].e];
        if (e.is_bool()) { if (n == 1) return S(bits, bits == 1 ? e : z3::ite(e, Z->bv_val(1, bits), Z->bv_val(0, bits))); }
        else
        {
          unsigned w = e.get_sort().bv_size();
          if (w == bits && bits != 1) return S(bits, e);
          if (w >= n * 8) { z3::expr q = w == n * 8 ? e : e.extract(n * 8 - 1, 0);
            if (bits < n * 8) q = q.extract(bits - 1, 0);
            if (bits == 1) return S(1, q == Z->bv_val(1, 1));
            return S(bits, q); }
        }
      }
    }
    // uninitialised bytes become arbitrary (and stay so)
    for (unsigned i = 0; i < n; i++) if (!c.cells[o + i].kind)
    {
      Content &m = mutc(p);
      z3::expr b = byte_expr(m.cells[o + i]);
      m.cells[o + i].kind = 2; m.cells[o + i].b = 0; m.cells[o + i].e = intern(b);
    }
    Content &c2 = *p->data;
    z3::expr e = byte_expr(c2.cells[o + n - 1]);
    for (int i = (int)n - 2; i >= 0; i--) e = z3::concat(e, byte_expr(c2.cells[o + i]));
    if (bits < n * 8) e = e.extract(bits - 1, 0);
    if (bits == 1) return S(1, e == Z->bv_val(1, 1));
    return S(bits, e);
  }
  to_array(p);
  {
    // newest to oldest: decide overlap with each recorded write
    auto &log = p->data->log;
    z3::expr o = X(off);
    for (size_t i = log.size(); i-- > 0;)
    {
      LogEnt &e = log[i];
      Val d = S(64, o - X(e.off));
      if (!d.e)
      {
        int64_t dd = (int64_t)d.c;
        if (dd >= (int64_t)e.n || dd + (int64_t)n <= 0) continue;       // disjoint
        if (dd >= 0 && dd + n <= e.n)
        {
          z3::expr x = XB(e.v); unsigned w = e.n * 8;
          if (e.v.bits < w) x = z3::zext(x, w - e.v.bits);
          x = x.extract((dd + n) * 8 - 1, dd * 8);
          if (bits < n * 8) x = x.extract(bits - 1, 0);
          if (bits == 1) return S(1, x == Z->bv_val(1, 1));
          return S(bits, x);
        }
        break;
      }
      // symbolic distance: disjoint for sure?
      z3::expr dx = X(d);
      z3::expr overlap = z3::ult(dx, Z->bv_val((uint64_t)e.n, 64)) || z3::ult(-dx, Z->bv_val((uint64_t)n, 64));
      z3::model mm(*Z);
      if (query(s, &overlap, &mm) == z3::unsat) continue;
      z3::expr differ = dx != Z->bv_val(0, 64);
      if (n <= e.n && query(s, &differ, &mm) == z3::unsat)
      {
        z3::expr x = XB(e.v); unsigned w = e.n * 8;
        if (e.v.bits < w) x = z3::zext(x, w - e.v.bits);
        x = x.extract(n * 8 - 1, 0);
        if (bits < n * 8) x = x.extract(bits - 1, 0);
        if (bits == 1) return S(1, x == Z->bv_val(1, 1));
        return S(bits, x);
      }
      break;
    }
  }
  ARRAYS = true;
  z3::expr a = EXPRS[p->data->arr];
  for (auto &le : p->data->log)
  {
    z3::expr x = XB(le.v); if (le.v.bits < le.n * 8) x = z3::zext(x, le.n * 8 - le.v.bits);
    for (unsigned i = 0; i < le.n; i++) a = z3::store(a, X(le.off) + Z->bv_val((uint64_t)i, 64), le.n == 1 ? x : x.extract(i * 8 + 7, i * 8));
  }
  z3::expr o = X(off);
  z3::expr e = z3::select(a, o + Z->bv_val((uint64_t)(n - 1), 64));
  for (int i = (int)n - 2; i >= 0; i--) e = z3::concat(e, z3::select(a, o + Z->bv_val((uint64_t)i, 64)));
  if (bits < n * 8) e = e.extract(bits - 1, 0);
  if (bits == 1) return S(1, e == Z->bv_val(1, 1));
  return S(bits, e);
}
static void write_bytes(State &s, ObjP &p, Val off, unsigned n, Val v)
{
  Content &c = mutc(p);
  if (!off.e && !c.arr)
  {
    u64 o = off.c;
    if (!v.e)
      for (unsigned i = 0; i < n; i++) { Cell &cl = c.cells[o + i]; cl.kind = 1; cl.b = i < 8 ? (u8)(v.c >> (8 * i)) : 0; cl.e = 0; }
    else
    {
      u32 e = v.e;
      if (v.bits != 1 && v.bits != n * 8) e = intern(z3::zext(X(v), n * 8 - v.bits));
      if (v.bits == 1 && n > 1) e = intern(z3::zext(XB(v), n * 8 - 1));
      for (unsigned i = 0; i < n; i++) { Cell &cl = c.cells[o + i]; cl.kind = 2; cl.b = (u8)i; cl.e = e; }
    }
    return;
  }
  to_array(p);
  mutc(p).log.push_back({off, n, v});
}

//------------------------------------------------------------------------ pointer resolution
static std::string hex(u64 a) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a); return b; }
static void note_ob(const char *n, bool solver) { auto &o = OBS[n]; o.vcs++; if (solver) o.solver++; else o.trivial++; }

// Resolve address; returns object slot + offset. Forks when a symbolic address may refer to several objects.
struct Loc { ObjP *o; Val off; };
struct Transfer {};                      // a builtin transferred control itself
struct Fork {};                          // re-execute current instruction in pushed states
static void fork_on(State &s, const z3::expr &c)
{ // push a copy with c, continue (re-executing the current instruction) with not c
  State t = s; add_pc(t, c); t.model.reset(); N_FORKS++;
  WORK.push_back(std::move(t));
  add_pc(s, !c); s.model.reset();
}
static Loc resolve(State &s, Val addr, Val n, const char *what)
{
  if (!addr.e)
  {
    u64 a = addr.c;
    ObjP *p = a ? find_obj(s, a) : nullptr;
    if (!p || a < (*p)->base || a - (*p)->base > obj_span(**p))
      fail_path(s, "memory-safety", std::string(what) + " outside any object at " + hex(a));
    Obj &o = **p;
    if (!o.alive) fail_path(s, "memory-safety", std::string(what) + " of freed object (" + SITES[o.site] + ") at " + hex(a));
    if (o.kind == K_FUNC) fail_path(s, "memory-safety", std::string(what) + " of code");
    u64 off = a - o.base;
    if (!o.size.e && !n.e)
    {
      if (n.c > o.size.c || off > o.size.c - n.c)
        fail_path(s, "memory-safety", std::string(what) + " of " + std::to_string(n.c) + " bytes at offset " + std::to_string(off) +
                  " outside object of size " + std::to_string(o.size.c) + " (" + SITES[o.site] + ")");
      note_ob("memory-safety", false);
      return {p, P(off)};
    }
    z3::expr ok = z3::ule(X(P(off)), X(o.size)) && z3::ule(X(n), X(o.size) - X(P(off)));
    z3::expr bad = !ok;
    z3::model m(*Z);
    auto r = query(s, &bad, &m);
    if (r == z3::sat) { State t = s; add_pc(t, bad); OBS["memory-safety"].vcs++;
      record_violation(t, "memory-safety", std::string(what) + " outside object of symbolic size", nullptr);
      if (feasible(s, ok) != T_YES) throw PathEnd{}; add_pc(s, ok); return {p, P(off)}; }
    if (r == z3::unknown) throw Abort{"solver unknown (bounds)"};
    note_ob("memory-safety", true);
    return {p, P(off)};
  }
  // symbolic address
  z3::expr a = X(addr);
  z3::model m(*Z);
  u64 cand = 0;
  bool have = false;
  if (s.model) { bool v; if (model_says(s, Z->bool_val(true), v) && s.model) { z3::expr r = s.model->eval(a, true); uint64_t k; if (Z3_get_numeral_uint64(*Z, r, &k)) { cand = k; have = true; } } }
  if (!have)
  {
    auto r = query(s, nullptr, &m);
    if (r == z3::unsat) throw PathEnd{};
    if (r == z3::unknown) throw Abort{"solver unknown (resolve)"};
    s.model = std::make_shared<z3::model>(m); s.model_upto = s.pc.size();
    uint64_t k; if (!Z3_get_numeral_uint64(*Z, m.eval(a, true), &k)) throw Abort{"resolve: no value"};
    cand = k;
  }
  ObjP *p = cand ? find_obj(s, cand) : nullptr;
  bool inside = p && cand >= (*p)->base && cand - (*p)->base <= obj_span(**p);
  z3::expr sz = inside ? X((*p)->size) : Z->bv_val(0, 64);
  if (inside && (*p)->alive && (*p)->kind != K_FUNC)
  {
    z3::expr b = Z->bv_val((uint64_t)(*p)->base, 64);
    z3::expr off = (a - b).simplify();
    z3::expr ok = z3::ule(off, sz) && z3::ule(X(n), sz - off);
    z3::expr bad = !ok;
    auto r = query(s, &bad, &m);
    if (r == z3::unsat) { note_ob("memory-safety", true); return {p, S(64, off)}; }
    if (r == z3::unknown) throw Abort{"solver unknown (resolve2)"};
    // maybe other objects
    uint64_t k = 0; Z3_get_numeral_uint64(*Z, m.eval(a, true), &k);
    if (feasible(s, ok) == T_YES) { fork_on(s, ok); throw Fork{}; }
    ObjP *q = k ? find_obj(s, k) : nullptr; (void)q;
  }
  OBS["memory-safety"].vcs++;
  record_violation(s, "memory-safety", std::string(what) + " through symbolic pointer outside its object (e.g. " + hex(cand) + ")", nullptr);
  throw PathEnd{};
}

// happens-before checked accesses (vector clocks; only once there is a second thread)
static bool ATOMIC_ACC = false;
static void track(State &s, ObjP &p, u64 off, u64 n, bool write)
{
  if (s.thr.size() < 2 || ATOMIC_ACC || p->ro || p->size.e || p->kind == K_FUNC || p->kind == K_ARENA) return;
  if (p->kind == K_STACK && !p->sh && ((p->base - 0x600000000000ull) >> 40) == s.cur) return;
  if (p->sh && p->sh->size() < p->size.c) p->sh.reset();
  auto &vc = s.thr[s.cur].vc; u32 clk = vc[s.cur], me = s.cur << 24 | clk;
  bool dirty = !p->sh;
  if (p->sh)
    for (u64 i = off; i < off + n && i < p->sh->size(); i++)
    {
      Sh &h = (*p->sh)[i];
      bool race = h.w && (h.w >> 24) != s.cur && (h.w & 0xffffff) > vc[h.w >> 24];
      if (write) for (u32 t = 0; t < s.thr.size() && t < 3; t++) if (t != s.cur && h.r[t] > vc[t]) race = true;
      if (race) fail_path(s, "no-data-race", std::string(write ? "write" : "read") + " of byte " + std::to_string(i) + " of " + SITES[p->site] + " without synchronisation with the other thread");
      if (write ? h.w != me : h.r[s.cur] != clk) dirty = true;
    }
  note_ob("no-data-race", false);
  if (!dirty) return;
  Obj &o = mut(p);
  if (!o.sh) o.sh = std::make_shared<std::vector<Sh>>(o.size.c);
  else if (o.sh.use_count() > 1) o.sh = std::make_shared<std::vector<Sh>>(*o.sh);
  for (u64 i = off; i < off + n && i < o.sh->size(); i++) { Sh &h = (*o.sh)[i]; if (write) h.w = me; else h.r[s.cur] = clk; }
}
static void track(State &s, Loc &l, u64 n, bool write) { if (s.thr.size() > 1 && !l.off.e) track(s, *l.o, l.off.c, n, write); }
static void vc_join(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void hb_acquire(State &s, u64 a) { if (s.thr.size() > 1) { auto it = s.hb.find(a); if (it != s.hb.end()) vc_join(s.thr[s.cur].vc, it->second); } }
static void hb_release(State &s, u64 a) { if (s.thr.size() > 1) { vc_join(s.hb[a], s.thr[s.cur].vc); s.thr[s.cur].vc[s.cur]++; } }

static u64 concretize(State &s, Val v, const char *what, unsigned limit = 4096)
{
  if (!v.e) return v.c;
  z3::expr e = XB(v);
  z3::model m(*Z);
  auto r = query(s, nullptr, &m);
  if (r == z3::unsat) throw PathEnd{};
  if (r == z3::unknown) throw Abort{std::string("solver unknown: ") + what};
  uint64_t k; if (!Z3_get_numeral_uint64(*Z, m.eval(e, true), &k)) throw Abort{"concretize"};
  z3::expr ne = e != Z->bv_val(k, v.bits);
  if (query(s, &ne, &m) == z3::unsat) return k;
  auto &cnt = s.loopcnt[{(const void *)what, 0}];
  if (++cnt > limit) throw Abort{std::string("too many values for ") + what};
  fork_on(s, e == Z->bv_val(k, v.bits));
  throw Fork{};
}

static Val load_mem(State &s, Val addr, Type *t);
static void store_mem(State &s, Val addr, Type *t, Val v);
static Val load_mem(State &s, Val addr, Type *t)
{
  if (isAgg(t))
  {
    std::vector<Val> vs;
    if (auto *st = dyn_cast<StructType>(t))
    {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
      {
        Val a = addr.e ? S(64, X(addr) + Z->bv_val((uint64_t)sl->getElementOffset(i), 64)) : P(addr.c + sl->getElementOffset(i));
        vs.push_back(load_mem(s, a, st->getElementType(i)));
      }
    }
    else
    {
      u64 n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
      Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
      u64 es = DL->getTypeAllocSize(et);
      for (u64 i = 0; i < n; i++)
      {
        Val a = addr.e ? S(64, X(addr) + Z->bv_val((uint64_t)(i * es), 64)) : P(addr.c + i * es);
        vs.push_back(load_mem(s, a, et));
      }
    }
    return mkagg(vs);
  }
  unsigned n = DL->getTypeStoreSize(t);
  Loc l = resolve(s, addr, P(n), "load");
  track(s, l, n, false);
  return read_bytes(s, *l.o, l.off, n, bitsOf(t));
}
static void store_mem(State &s, Val addr, Type *t, Val v)
{
  if (isAgg(t))
  {
    auto vs = AGG[v.c];
    if (auto *st = dyn_cast<StructType>(t))
    {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
        store_mem(s, addr.e ? S(64, X(addr) + Z->bv_val((uint64_t)sl->getElementOffset(i), 64)) : P(addr.c + sl->getElementOffset(i)), st->getElementType(i), vs[i]);
    }
    else
    {
      Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
      u64 es = DL->getTypeAllocSize(et);
      for (u64 i = 0; i < vs.size(); i++)
        store_mem(s, addr.e ? S(64, X(addr) + Z->bv_val((uint64_t)(i * es), 64)) : P(addr.c + i * es), et, vs[i]);
    }
    return;
  }
  unsigned n = DL->getTypeStoreSize(t);
  Loc l = resolve(s, addr, P(n), "store");
  if ((*l.o)->ro) fail_path(s, "memory-safety", "store to constant");
  track(s, l, n, true);
  write_bytes(s, *l.o, l.off, n, v);
}
static Cell read_cell(State &s, u64 addr)
{
  Loc l = resolve(s, P(addr), P(1), "read");
  track(s, l, 1, false);
  if ((*l.o)->data->arr) { Val v = read_bytes(s, *l.o, l.off, 1, 8); Cell c; if (v.e) { c.kind = 2; c.e = v.e; } else { c.kind = 1; c.b = v.c; } return c; }
  return (*l.o)->data->cells[l.off.c];
}
static void copy_mem(State &s, Val dst, Val src, Val len, const char *what)
{
  u64 n = concretize(s, len, "memcpy length");
  if (!n) return;
  // validate & resolve both
  Loc ls = resolve(s, src, P(n), what);
  track(s, ls, n, false);
  Val lsoff = ls.off; ObjP srcp = *ls.o;           // keep alive copy
  std::vector<Cell> tmp(n);
  if (!lsoff.e && !srcp->data->arr) { for (u64 i = 0; i < n; i++) tmp[i] = srcp->data->cells[lsoff.c + i]; }
  else
    for (u64 i = 0; i < n; i++)
    {
      Val o = lsoff.e ? S(64, X(lsoff) + Z->bv_val((uint64_t)i, 64)) : P(lsoff.c + i);
      Val v = read_bytes(s, *ls.o, o, 1, 8);
      if (v.e) { tmp[i].kind = 2; tmp[i].b = 0; tmp[i].e = v.e; } else { tmp[i].kind = 1; tmp[i].b = v.c; }
    }
  Loc ld = resolve(s, dst, P(n), what);
  if ((*ld.o)->ro) fail_path(s, "memory-safety", "write to constant");
  track(s, ld, n, true);
  if (!ld.off.e && !(*ld.o)->data->arr)
  {
    Content &c = mutc(*ld.o);
    for (u64 i = 0; i < n; i++) c.cells[ld.off.c + i] = tmp[i];
  }
  else
    for (u64 i = 0; i < n; i++)
    {
      if (!tmp[i].kind) continue;
      Val o = ld.off.e ? S(64, X(ld.off) + Z->bv_val((uint64_t)i, 64)) : P(ld.off.c + i);
      write_bytes(s, *ld.o, o, 1, tmp[i].kind == 1 ? C(8, tmp[i].b) : S(8, byte_expr(tmp[i])));
    }
}
static std::string cstr(State &s, Val p)
{
  if (p.e) return "<sym>";
  std::string r;
  for (u64 a = p.c; r.size() < 400; a++) { Cell c = read_cell(s, a); if (c.kind != 1 || !c.b) break; r += (char)c.b; }
  return r;
}

//------------------------------------------------------------------------ arithmetic
static Val binop(State &s, unsigned op, Val a, Val b)
{
  u32 w = a.bits;
  if (!a.e && !b.e && w <= 64)
  {
    u64 x = a.c, y = b.c;
    switch (op)
    {
    case Instruction::Add: return C(w, x + y);
    case Instruction::Sub: return C(w, x - y);
    case Instruction::Mul: return C(w, x * y);
    case Instruction::UDiv: if (!y) fail_path(s, "arithmetic", "division by zero"); return C(w, x / y);
    case Instruction::URem: if (!y) fail_path(s, "arithmetic", "division by zero"); return C(w, x % y);
    case Instruction::SDiv: if (!y) fail_path(s, "arithmetic", "division by zero"); if (sx(b) == -1) return C(w, -x); return C(w, (u64)(sx(a) / sx(b)));
    case Instruction::SRem: if (!y) fail_path(s, "arithmetic", "division by zero"); if (sx(b) == -1) return C(w, 0); return C(w, (u64)(sx(a) % sx(b)));
    case Instruction::And: return C(w, x & y);
    case Instruction::Or: return C(w, x | y);
    case Instruction::Xor: return C(w, x ^ y);
    case Instruction::Shl: return C(w, y >= w ? 0 : x << y);
    case Instruction::LShr: return C(w, y >= w ? 0 : x >> y);
    case Instruction::AShr: return C(w, (u64)(sx(a) >> (y >= w ? w - 1 : y)));
    }
    throw Abort{"binop"};
  }
  if (w == 1)
  {
    z3::expr x = X(a), y = X(b);
    switch (op)
    {
    case Instruction::And: return S(1, x && y);
    case Instruction::Or: return S(1, x || y);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return S(1, x != y);
    }
    throw Abort{"i1 binop"};
  }
  z3::expr x = X(a), y = X(b);
  switch (op)
  {
  case Instruction::Add: return S(w, x + y);
  case Instruction::Sub: return S(w, x - y);
  case Instruction::Mul: return S(w, x * y);
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
  {
    z3::expr z = y == Z->bv_val(0, w);
    if (b.e) { if (feasible(s, z) != T_NO) { State t = s; add_pc(t, z); OBS["arithmetic"].vcs++; record_violation(t, "arithmetic", "division by zero", nullptr); } else note_ob("arithmetic", true); }
    if (op == Instruction::UDiv) return S(w, z3::udiv(x, y));
    if (op == Instruction::URem) return S(w, z3::urem(x, y));
    if (op == Instruction::SDiv) return S(w, x / y);
    return S(w, z3::srem(x, y));
  }
  case Instruction::And: return S(w, x & y);
  case Instruction::Or: return S(w, x | y);
  case Instruction::Xor: return S(w, x ^ y);
  case Instruction::Shl: return S(w, z3::shl(x, y));
  case Instruction::LShr: return S(w, z3::lshr(x, y));
  case Instruction::AShr: return S(w, z3::ashr(x, y));
  }
  throw Abort{"binop"};
}
static Val icmp(CmpInst::Predicate p, Val a, Val b)
{
  if (!a.e && !b.e && a.bits <= 64)
  {
    bool r;
    switch (p)
    {
    case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
    case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
    case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
    case CmpInst::ICMP_SGT: r = sx(a) > sx(b); break; case CmpInst::ICMP_SGE: r = sx(a) >= sx(b); break;
    case CmpInst::ICMP_SLT: r = sx(a) < sx(b); break; case CmpInst::ICMP_SLE: r = sx(a) <= sx(b); break;
    default: throw Abort{"icmp"};
    }
    return C(1, r);
  }
  if (a.bits == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return S(1, p == CmpInst::ICMP_EQ ? X(a) == X(b) : X(a) != X(b));
  z3::expr x = XB(a), y = XB(b);
  switch (p)
  {
  case CmpInst::ICMP_EQ: return S(1, x == y); case CmpInst::ICMP_NE: return S(1, x != y);
  case CmpInst::ICMP_UGT: return S(1, z3::ugt(x, y)); case CmpInst::ICMP_UGE: return S(1, z3::uge(x, y));
  case CmpInst::ICMP_ULT: return S(1, z3::ult(x, y)); case CmpInst::ICMP_ULE: return S(1, z3::ule(x, y));
  case CmpInst::ICMP_SGT: return S(1, x > y); case CmpInst::ICMP_SGE: return S(1, x >= y);
  case CmpInst::ICMP_SLT: return S(1, x < y); case CmpInst::ICMP_SLE: return S(1, x <= y);
  default: throw Abort{"icmp"};
  }
}
static Val castop(unsigned op, Val v, Type *from, Type *to)
{
  u32 w = bitsOf(to);
  switch (op)
  {
  case Instruction::Trunc:
    if (!v.e) return C(w, v.c);
    if (w == 1) return S(1, XB(v).extract(0, 0) == Z->bv_val(1, 1));
    return S(w, XB(v).extract(w - 1, 0));
  case Instruction::ZExt:
    if (!v.e && w <= 64) return C(w, v.c);
    if (v.bits == 1) return S(w, z3::ite(X(v), Z->bv_val(1, w), Z->bv_val(0, w)));
    return S(w, z3::zext(XB(v), w - v.bits));
  case Instruction::SExt:
    if (!v.e && w <= 64) return C(w, (u64)sx(v));
    return S(w, z3::sext(XB(v), w - v.bits));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (w == v.bits) return v;
    if (w < v.bits) { if (!v.e) return C(w, v.c); return S(w, XB(v).extract(w - 1, 0)); }
    if (!v.e) return C(w, v.c);
    return S(w, z3::zext(XB(v), w - v.bits));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  }
  if (!v.e)
  {
    auto f = [&](Val q, Type *t) -> double { if (t->isFloatTy()) { float x; u32 b = q.c; memcpy(&x, &b, 4); return x; } double x; memcpy(&x, &q.c, 8); return x; };
    auto g = [&](double d) -> Val { if (to->isFloatTy()) { float x = d; u32 b; memcpy(&b, &x, 4); return C(32, b); } u64 b; memcpy(&b, &d, 8); return C(64, b); };
    switch (op)
    {
    case Instruction::FPToUI: return C(w, (u64)f(v, from));
    case Instruction::FPToSI: return C(w, (u64)(int64_t)f(v, from));
    case Instruction::UIToFP: return g((double)v.c);
    case Instruction::SIToFP: return g((double)sx(v));
    case Instruction::FPExt: case Instruction::FPTrunc: return g(f(v, from));
    }
  }
  throw Abort{"cast"};
}

//------------------------------------------------------------------------ constants
static Val cval(State *s, const Constant *c);
static Val gep_off(u64 base, const GEPOperator *g)
{
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) throw Abort{"const gep"};
  return P(base + off.getZExtValue());
}
static Val zeroOf(Type *t)
{
  if (auto *st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto *e : st->elements()) v.push_back(zeroOf(e)); return mkagg(v); }
  if (auto *at = dyn_cast<ArrayType>(t)) { std::vector<Val> v(at->getNumElements(), Val{}); for (auto &e : v) e = zeroOf(at->getElementType()); return mkagg(v); }
  if (auto *at = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v(at->getNumElements(), Val{}); for (auto &e : v) e = zeroOf(at->getElementType()); return mkagg(v); }
  return C(bitsOf(t), 0);
}
static Val cval_(State *s, const Constant *c)
{
  if (auto *i = dyn_cast<ConstantInt>(c))
  {
    if (i->getBitWidth() > 64)
    {
      SmallString<64> str; i->getValue().toString(str, 10, false);
      Val v; v.bits = i->getBitWidth(); v.e = intern(Z->bv_val(str.c_str(), i->getBitWidth())); return v;
    }
    return C(i->getBitWidth(), i->getZExtValue());
  }
  if (auto *f = dyn_cast<ConstantFP>(c))
  {
    APInt b = f->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() > 64) return C(80, 0);
    return C(b.getBitWidth(), b.getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return P(0);
  if (auto *g = dyn_cast<GlobalValue>(c))
  {
    if (auto *ga = dyn_cast<GlobalAlias>(g)) return cval(s, ga->getAliasee());
    auto it = GADDR.find(g);
    if (it == GADDR.end()) throw Abort{"no address for " + g->getName().str()};
    return P(it->second);
  }
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return zeroOf(c->getType());
  if (isa<ConstantTokenNone>(c)) return C(32, 0);
  if (auto *cs = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cs->getNumOperands(); i++) v.push_back(cval(s, cast<Constant>(cs->getOperand(i)))); return mkagg(v); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(cval(s, cd->getElementAsConstant(i))); return mkagg(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c))
  {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gep_off(cval(s, cast<Constant>(ce->getOperand(0))).c, g);
    if (Instruction::isCast(ce->getOpcode())) return castop(ce->getOpcode(), cval(s, cast<Constant>(ce->getOperand(0))), ce->getOperand(0)->getType(), ce->getType());
    if (ce->getOpcode() == Instruction::ICmp) return icmp((CmpInst::Predicate)ce->getPredicate(), cval(s, cast<Constant>(ce->getOperand(0))), cval(s, cast<Constant>(ce->getOperand(1))));
    if (Instruction::isBinaryOp(ce->getOpcode()))
    { State dummy; return binop(s ? *s : dummy, ce->getOpcode(), cval(s, cast<Constant>(ce->getOperand(0))), cval(s, cast<Constant>(ce->getOperand(1)))); }
  }
  if (auto *dl = dyn_cast<DSOLocalEquivalent>(c)) return cval(s, dl->getGlobalValue());
  std::string str; raw_string_ostream os(str); c->print(os);
  throw Abort{"constant " + str};
}
static Val cval(State *s, const Constant *c)
{
  auto it = CCACHE.find(c);
  if (it != CCACHE.end()) return it->second;
  Val v = cval_(s, c); CCACHE[c] = v; return v;
}
static Val get(State &s, Frame &f, const Value *v)
{
  if (auto *c = dyn_cast<Constant>(v)) return cval(&s, c);
  auto it = f.fn->idx.find(v);
  if (it != f.fn->idx.end()) return f.regs[it->second];
  if (isa<MetadataAsValue>(v)) return C(1, 0);
  throw Abort{"operand"};
}
static void setr(Frame &f, const Instruction *i, Val v)
{
  if (i->getType()->isVoidTy()) return;
  f.regs[f.fn->idx[i]] = v;
}

//------------------------------------------------------------------------ control
static void enter_bb(State &s, Frame &f, BasicBlock *to)
{
  f.prev = f.bb; f.bb = to; f.pc = to->begin();
  // phis simultaneously
  std::vector<std::pair<PHINode *, Val>> vals;
  while (auto *ph = dyn_cast<PHINode>(&*f.pc)) { vals.push_back({ph, get(s, f, ph->getIncomingValueForBlock(f.prev))}); ++f.pc; }
  for (auto &p : vals) setr(f, p.first, p.second);
}
static void pop_frame_mem(State &s, Frame &f)
{
  if (s.thr.size() > 1)
    for (auto &t : s.thr) if (t.sched && !t.hot)
      for (unsigned i = 0; i < f.nstack; i++) { Obj &o = *s.stack[s.stack.size() - 1 - i]; if (t.pend >= o.base && t.pend - o.base < o.size.c) t.hot = true; }
  for (unsigned i = 0; i < f.nstack; i++) s.stack.pop_back();
}
static void push_call(State &s, Function *F, std::vector<Val> args, CallBase *cb, int post = 0, u64 postarg = 0)
{
  if (s.st.size() > 1500) throw Abort{"recursion depth"};
  FUNCS_EXECUTED.insert(F->getName().str());
  FnInfo *fi = info(F);
  Frame f; f.fn = fi; f.regs.resize(fi->n); f.call = cb; f.post = post; f.postarg = postarg;
  unsigned i = 0;
  for (auto &a : F->args())
  {
    if (i >= args.size()) break;
    Val v = args[i];
    if (a.hasByValAttr())
    {
      u64 sz = DL->getTypeAllocSize(a.getParamByValType());
      ObjP o = alloc_obj(s, P(sz), K_STACK, 16, "byval argument of " + F->getName().str());
      u64 base = o->base; o.reset(); f.nstack++;
      copy_mem(s, P(base), v, P(sz), "byval copy");
      v = P(base);
    }
    f.regs[i++] = v;
  }
  for (; i < args.size(); i++) f.varargs.push_back(args[i]);
  f.bb = &F->getEntryBlock(); f.pc = f.bb->begin();
  s.st.push_back(std::move(f));
  if (TRACE_CALLS) fprintf(stderr, "%*s> %s\n", (int)s.st.size(), "", demangle(F->getName().str()).substr(0, 140).c_str());
}
// finish a call instruction in the (now top) frame with a result
static void finish_call(State &s, CallBase *cb, Val ret)
{
  Frame &f = s.st.back();
  setr(f, cb, ret);
  if (auto *iv = dyn_cast<InvokeInst>(cb)) enter_bb(s, f, iv->getNormalDest());
  // for plain calls pc was advanced before executing
}

//------------------------------------------------------------------------ exceptions
static GlobalVariable *ti_var(u64 a) { auto it = TI_AT.find(a); return it == TI_AT.end() ? nullptr : it->second; }
static bool ti_derives(u64 t, u64 want, int64_t &adj, int depth = 0)
{
  if (t == want) return true;
  if (depth > 20) return false;
  GlobalVariable *g = ti_var(t);
  if (!g || !g->hasInitializer()) return false;
  auto *ca = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!ca || ca->getNumOperands() < 3) return false;
  if (ca->getOperand(2)->getType()->isPointerTy())
  { // __si_class_type_info
    Val b = cval(nullptr, ca->getOperand(2));
    return ti_derives(b.c, want, adj, depth + 1);
  }
  // __vmi_class_type_info: {vtbl, name, i32 flags, i32 count, (ptr base, i64 offset_flags)*}
  for (unsigned i = 4; i + 1 < ca->getNumOperands(); i += 2)
  {
    Val b = cval(nullptr, ca->getOperand(i)); int64_t of = (int64_t)cval(nullptr, ca->getOperand(i + 1)).c;
    if (!(of & 2)) continue;
    if (of & 1) continue;
    int64_t a2 = 0;
    if (ti_derives(b.c, want, a2, depth + 1)) { adj += (of >> 8) + a2; return true; }
  }
  return false;
}
static unsigned type_id(u64 ti) { auto &x = TYPEID[ti]; if (!x) x = TYPEID.size(); return x; }
static std::string ti_name(u64 ti) { auto *g = ti_var(ti); return g ? demangle(g->getName().str()) : "?"; }

static void unref_exc(State &s, u64 obj);
static void do_unwind(State &s)
{ // s.inflight set; top frame is the one whose current call threw
  while (true)
  {
    if (s.st.empty())
    {
      std::string n = ti_name(s.excs[s.inflight].ti);
      Frame dummy;
      fail_path(s, "no-uncaught-exception", "uncaught exception of " + n);
    }
    Frame &f = s.st.back();
    // find the call instruction that is being executed in this frame
    CallBase *cb = f.cur;
    if (auto *iv = dyn_cast_or_null<InvokeInst>(cb))
    {
      BasicBlock *ub = iv->getUnwindDest();
      auto *lp = ub->getLandingPadInst();
      if (lp)
      {
        Exc &e = s.excs[s.inflight];
        bool hit = false; unsigned sel = 0; int64_t adj = 0;
        for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++)
        {
          if (lp->isCatch(i))
          {
            Val c = cval(&s, lp->getClause(i));
            if (c.c == 0) { hit = true; sel = type_id(0); }
            else { adj = 0; if (ti_derives(e.ti, c.c, adj)) { hit = true; sel = type_id(c.c); } }
          }
          else { // filter: exception specification; treat non-listed as violation of spec
            auto *arr = lp->getClause(i); bool listed = false;
            if (auto *ca = dyn_cast<ConstantArray>(arr)) for (auto &op : ca->operands()) { int64_t a2 = 0; if (ti_derives(e.ti, cval(&s, cast<Constant>(op)).c, a2)) listed = true; }
            if (!listed) { hit = true; sel = (unsigned)-1; }
          }
        }
        if (hit || lp->isCleanup())
        {
          enter_bb(s, f, ub);
          std::vector<Val> v{P(s.inflight + adj), C(32, sel)};
          // the landingpad is the first non-phi
          setr(f, lp, mkagg(v));
          f.pc = std::next(lp->getIterator());
          return;
        }
      }
    }
    // no handler here: leave frame
    pop_frame_mem(s, f);
    int post = f.post; (void)post;
    s.st.pop_back();
    if (TRACE_CALLS) fprintf(stderr, "%*s< unwound\n", (int)s.st.size(), "");
  }
}
static void throw_exc(State &s, u64 obj)
{
  s.inflight = obj; s.uncaught++;
  do_unwind(s);
}
static Function *fn_at(u64 a) { auto it = FADDR.find(a); return it == FADDR.end() ? nullptr : it->second; }
static void free_exc_obj(State &s, u64 obj)
{
  if (ObjP *p = find_obj(s, obj)) { Obj &o = mut(*p); o.alive = false; }
}
static void unref_exc(State &s, u64 obj)
{
  auto it = s.excs.find(obj);
  if (it == s.excs.end()) throw Abort{"unknown exception object"};
  if (--it->second.refs == 0)
  {
    if (it->second.dtor)
    {
      Function *d = fn_at(it->second.dtor);
      if (d && !d->isDeclaration()) { push_call(s, d, {P(obj)}, nullptr, 1, obj); return; }
    }
    free_exc_obj(s, obj);
  }
}

//------------------------------------------------------------------------ checks
static void do_check(State &s, Val c, const std::string &name)
{
  auto &o = OBS[name]; o.vcs++;
  if (!c.e)
  {
    if (c.c) { o.trivial++; return; }
    o.vcs--; fail_path(s, name, "condition is false on this path");
  }
  z3::expr e = c.bits == 1 ? X(c) : (XB(c) != Z->bv_val(0, c.bits));
  z3::expr ne = !e;
  bool mv;
  bool quick = model_says(s, e, mv) && !mv;
  z3::model m(*Z);
  auto r = quick ? z3::sat : query(s, &ne, &m);
  if (r == z3::unsat) { o.solver++; return; }
  if (r == z3::unknown) { o.unknown++; UNDECIDED["obligation " + name + ": solver unknown"]++; return; }
  record_violation(s, name, "negation is satisfiable", &ne);
  if (feasible(s, e) != T_YES) throw PathEnd{};
  add_pc(s, e);
}

//------------------------------------------------------------------------ external functions
using Ext = std::function<void(State &, CallBase *, std::vector<Val> &, Val &ret, bool &handled)>;
static Val getByte(State &s, u64 a) { Cell c = read_cell(s, a); if (c.kind == 1) return C(8, c.b); return S(8, byte_expr(c)); }

static u64 do_new(State &s, Val size, u64 align, u8 how, const std::string &site)
{
  if (!size.e && size.c > (1ull << 40)) return 0;
  ObjP o = alloc_obj(s, size, K_HEAP, align, site);
  o->how = how; o->align = align;
  return o->base;
}
static std::string caller_name(State &s)
{
  for (int i = (int)s.st.size() - 1; i >= 0; i--)
  {
    std::string n = s.st[i].fn->F->getName().str();
    std::string d = demangle(n);
    if (d.find("cobalt") != std::string::npos || n.rfind("vp_", 0) == 0) return d.substr(0, 120);
  }
  return "?";
}
static void do_delete(State &s, Val pv, const Val *size, u64 align, u8 how)
{
  u64 a = concretize(s, pv, "delete pointer");
  if (!a) return;
  ObjP *p = find_obj(s, a);
  if (!p || (*p)->base != a || ((*p)->kind != K_HEAP)) fail_path(s, "memory-safety", "free of pointer that was not returned by the allocator: " + hex(a));
  if (!(*p)->alive) fail_path(s, "memory-safety", "double free of object allocated in " + SITES[(*p)->site]);
  if ((*p)->how != how) fail_path(s, "memory-safety", "allocation/deallocation function mismatch for object allocated in " + SITES[(*p)->site]);
  if ((*p)->align != align) fail_path(s, "memory-safety", "deallocation alignment differs from allocation alignment (" + SITES[(*p)->site] + ")");
  if (size)
  {
    Val eq = icmp(CmpInst::ICMP_EQ, *size, (*p)->size);
    do_check(s, eq, "sized-delete-matches-allocation");
  }
  else note_ob("memory-safety", false);
  if (!(*p)->size.e) track(s, *p, 0, (*p)->size.c, true);
  for (auto &t : s.thr) if (t.sched && t.pend >= a && !(*p)->size.e && t.pend - a < (*p)->size.c) t.hot = true;
  Obj &o = mut(*p); o.alive = false; o.data = std::make_shared<Content>(); o.sh.reset();
}

//------------------------------------------------------------------------ threads
static void write_const(State &s, ObjP &o, u64 off, const Constant *c);
static void switch_to(State &s, unsigned t)
{
  if (t == s.cur) return;
  auto io = [&](Thr &x) { std::swap(s.st, x.st); std::swap(s.stack, x.stack); std::swap(s.stack_bump, x.stack_bump); std::swap(s.caught, x.caught); std::swap(s.inflight, x.inflight); std::swap(s.uncaught, x.uncaught); };
  io(s.thr[s.cur]); s.cur = t; io(s.thr[t]);
}
static u64 mutex_word(State &s, u64 a)
{
  ATOMIC_ACC = true; Loc l = resolve(s, P(a), P(4), "mutex operation"); ATOMIC_ACC = false;
  auto &d = *(*l.o)->data; u64 r = 0;
  if (d.arr) throw Abort{"mutex in an array object"};
  for (int i = 0; i < 4; i++) { Cell &c = d.cells[l.off.c + i]; if (c.kind == 1) r |= (u64)c.b << (8 * i); else if (c.kind == 2) throw Abort{"symbolic mutex"}; else return 0; }
  return r;
}
static void mutex_set(State &s, u64 a, u64 v) { ATOMIC_ACC = true; store_mem(s, P(a), Type::getInt32Ty(M->getContext()), C(32, v)); ATOMIC_ACC = false; }
static bool runnable(State &s, unsigned t)
{
  Thr &x = s.thr[t];
  if (x.fin) return false;
  switch (x.wait)
  {
  case 1: return mutex_word(s, x.waddr) == 0;
  case 2: return false;
  case 3: return s.thr[x.waddr].fin;
  case 4: for (unsigned i = 0; i < s.thr.size(); i++) if (i != t && !s.thr[i].fin) return false; return true;
  }
  return true;
}
static u64 N_SLEPT;
// the running thread cannot go on: some other one does
static void block_switch(State &s, const char *what)
{
  std::vector<unsigned> r;
  bool asleep = false;
  for (unsigned t = 0; t < s.thr.size(); t++) if (t != s.cur && runnable(s, t)) { if (s.thr[t].sched && !s.thr[t].hot) asleep = true; else r.push_back(t); }
  if (r.empty() && asleep) { N_SLEPT++; throw PathEnd{}; }      // the schedule without that preemption is the same
  if (r.empty()) fail_path(s, "no-hang", std::string("no thread can go on; the last one waits in ") + what);
  for (size_t i = 1; i < r.size(); i++) { State n = s; switch_to(n, r[i]); N_FORKS++; WORK.push_back(std::move(n)); }
  switch_to(s, r[0]);
}
// a point at which another thread may go on; the current instruction has not been executed
static void sched_point(State &s, u64 a, bool load = false)
{
  if (s.thr.size() < 2) return;
  Thr &c = s.thr[s.cur];
  for (auto &x : s.thr) if (x.sched && x.pend == a && !(x.pload && load) && &x != &c) x.hot = true;
  if (c.sched) { c.sched = false; return; }
  if (s.preempt <= 0) return;
  for (unsigned t = 0; t < s.thr.size(); t++)
    if (t != s.cur && runnable(s, t) && !(s.thr[t].sched && !s.thr[t].hot))
    {
      State n = s; n.preempt--; auto &q = n.thr[n.cur]; q.sched = true; q.hot = false; q.pend = a; q.pload = load; switch_to(n, t);
      n.inputs.push_back({"switch to thread " + std::to_string(t), 32, C(32, t)});
      N_FORKS++; WORK.push_back(std::move(n));
    }
}
static bool is_thread_op(const std::string &n)
{
  return n.rfind("pthread_mutex_", 0) == 0 || n.rfind("pthread_cond_", 0) == 0 || n.rfind("vp_thread", 0) == 0;
}
// true: done, the result is in ret; false: the state now runs another thread, the call is executed again later
static bool thread_op(State &s, const std::string &n, std::vector<Val> &a, Val &ret)
{
  ret = C(32, 0);
  bool multi = s.thr.size() > 1;
  auto addr = [&](int i) { return concretize(s, a[i], "thread operation"); };
  auto lock = [&](u64 m) -> bool
  {
    u64 v = mutex_word(s, m);
    if (v == 0) { for (auto &x : s.thr) if (x.sched && x.pend == m) x.hot = true; mutex_set(s, m, s.cur + 1); hb_acquire(s, m); if (multi) s.thr[s.cur].wait = 0; return true; }
    if (v == s.cur + 1) fail_path(s, "no-hang", "the thread locks a mutex that it holds already");
    if (v > s.thr.size()) fail_path(s, "memory-safety", "lock of a corrupt mutex");
    if (!multi) fail_path(s, "no-hang", "the only thread waits for a mutex");
    s.thr[s.cur].wait = 1; s.thr[s.cur].waddr = m;
    block_switch(s, "pthread_mutex_lock"); return false;
  };
  auto unlock = [&](u64 m) { if (mutex_word(s, m) != s.cur + 1) fail_path(s, "memory-safety", "unlock of a mutex that the thread does not hold"); hb_release(s, m); mutex_set(s, m, 0); };
  if (n == "pthread_mutex_init") { mutex_set(s, addr(0), 0); return true; }
  if (n == "pthread_mutex_lock") { u64 m = addr(0); if (multi && s.thr[s.cur].wait != 1 && (mutex_word(s, m) == 0 || s.thr[s.cur].sched)) sched_point(s, m); return lock(m); }
  if (n == "pthread_mutex_trylock") { u64 m = addr(0); sched_point(s, m); if (mutex_word(s, m)) ret = C(32, 16); else lock(m); return true; }
  if (n == "pthread_mutex_unlock") { unlock(addr(0)); return true; }
  if (n == "pthread_cond_wait" || n == "pthread_cond_timedwait" || n == "pthread_cond_clockwait")
  {
    if (!multi) fail_path(s, "no-hang", "the only thread blocks in " + n);
    u64 c = addr(0), m = addr(1); Thr &t = s.thr[s.cur];
    if (t.woken) { if (!lock(m)) return false; s.thr[s.cur].woken = false; s.thr[s.cur].wait = 0; return true; }
    for (auto &x : s.thr) if (x.sched && x.pend == c) x.hot = true;
    unlock(m); t.wait = 2; t.waddr = c; t.wmtx = m; block_switch(s, n.c_str()); return false;
  }
  if (n == "pthread_cond_signal" || n == "pthread_cond_broadcast")
  {
    u64 c = addr(0);
    if (multi) { sched_point(s, c); s.thr[s.cur].wait = 0; }
    for (auto &t : s.thr) if (t.wait == 2 && t.waddr == c) { t.wait = 1; t.waddr = t.wmtx; t.woken = true; if (n == "pthread_cond_signal") break; }
    return true;
  }
  if (n == "vp_thread_start")
  { // (function, argument) -> number of the thread
    Function *F = FADDR.count(addr(0)) ? FADDR[addr(0)] : nullptr;
    if (!F || F->isDeclaration()) throw Abort{"thread function"};
    if (s.thr.empty()) { s.thr.emplace_back(); s.thr[0].vc = {1}; }
    unsigned k = s.thr.size(); if (k >= 3) throw Abort{"more than three threads"};
    s.thr.emplace_back();
    s.thr[k].vc = s.thr[s.cur].vc; s.thr[k].vc.resize(k + 1); s.thr[k].vc[k] = 1; s.thr[s.cur].vc[s.cur]++;
    for (auto &t : s.thr) t.vc.resize(k + 1);
    s.thr[k].stack_bump = 0x600000000000ull + ((u64)k << 40);
    for (auto &g : M->globals()) if (g.getName() == "__libc_single_threaded") { ObjP *p = find_obj(s, GADDR[&g]); mutc(*p).cells[0].b = 0; }
    unsigned me = s.cur; switch_to(s, k); push_call(s, F, {a[1]}, nullptr); switch_to(s, me);
    ret = P(k); return true;
  }
  if (n == "vp_thread_join")
  {
    u64 t = addr(0); if (t >= s.thr.size()) throw Abort{"join of an unknown thread"};
    if (!s.thr[t].fin) { s.thr[s.cur].wait = 3; s.thr[s.cur].waddr = t; block_switch(s, "join"); return false; }
    s.thr[s.cur].wait = 0; vc_join(s.thr[s.cur].vc, s.thr[t].vc); return true;
  }
  if (n == "vp_thread_end")
  { // waits until all other threads are finished
    for (unsigned i = 0; i < s.thr.size(); i++) if (i != s.cur && !s.thr[i].fin) { s.thr[s.cur].wait = 4; block_switch(s, "the end"); return false; }
    if (multi) { s.thr[s.cur].wait = 0; for (auto &t : s.thr) vc_join(s.thr[s.cur].vc, t.vc); }
    return true;
  }
  if (n == "vp_thread_id") { ret = P(s.cur); return true; }
  if (n == "vp_thread_preempt") { s.preempt = a[0].c; return true; }
  if (n == "vp_thread_finished") { u64 t = addr(0); ret = P(t < s.thr.size() && s.thr[t].fin); return true; }
  return true;      // pthread_*_destroy, attributes
}
static u64 tls_addr(State &s, u64 a)
{
  if (!s.cur) return a;
  ObjP *p = find_obj(s, a); u64 b = (*p)->base;
  u64 &t = s.tls[(u64)s.cur << 56 | b];
  if (!t)
  {
    GlobalVariable *gv = nullptr; for (auto &g : M->globals()) if (GADDR[&g] == b) gv = &g;
    ObjP o = alloc_obj(s, (*p)->size, K_GLOBAL, 16, "thread-local " + (gv ? gv->getName().str() : std::string())); t = o->base; o.reset();
    ObjP *q = find_obj(s, t);
    if (gv && gv->hasInitializer()) write_const(s, *q, 0, gv->getInitializer()); else for (auto &c : mutc(*q).cells) c.kind = 1;
  }
  return t + (a - b);
}

static bool builtin(State &s, CallBase *cb, Function *F, const std::string &n, std::vector<Val> &a, Val &ret)
{
  Frame &f = s.st.back(); (void)f;
  auto starts = [&](const char *p) { return n.rfind(p, 0) == 0; };
  // ---------------- specification API
  if (starts("vp_"))
  {
    if (n == "vp_input")
    {
      std::string name = cstr(s, a[0]); u32 bits = a[1].c;
      static int k = 0;
      z3::expr v = Z->bv_const((name + "#" + std::to_string(k++)).c_str(), bits);
      Val iv; iv.bits = bits; iv.e = intern(v);
      if (bits == 1) { iv = S(1, v == Z->bv_val(1, 1)); }
      s.inputs.push_back({name, bits, iv});
      ret = bits == 64 ? iv : castop(Instruction::ZExt, iv, nullptr, Type::getInt64Ty(M->getContext()));
      return true;
    }
    if (n == "vp_choice")
    { // concrete case split 0..n-1
      std::string name = cstr(s, a[0]); u64 k = a[1].c;
      if (!k) throw PathEnd{};
      for (u64 i = k - 1; i >= 1; i--)
      {
        State t = s; t.inputs.push_back({name, 32, C(32, i)});
        Val r = C(32, i);
        // finish the call in t
        CallBase *c2 = cb;
        finish_call(t, c2, r);
        N_FORKS++;
        WORK.push_back(std::move(t));
      }
      s.inputs.push_back({name, 32, C(32, 0)});
      ret = C(32, 0); return true;
    }
    if (n == "vp_assume")
    {
      Val c = a[0]; if (!c.e) { if (!c.c) throw PathEnd{}; return true; }
      z3::expr e = c.bits == 1 ? X(c) : (XB(c) != Z->bv_val(0, c.bits));
      Tri t = feasible(s, e);
      if (t == T_NO) throw PathEnd{};
      if (t == T_UNK) throw Abort{"solver unknown (assume)"};
      add_pc(s, e); return true;
    }
    if (n == "vp_check_") { do_check(s, a[0], cstr(s, a[1])); return true; }
    if (n == "vp_fail_") { fail_path(s, cstr(s, a[0]), "reached"); }
    if (n == "vp_cover_")
    {
      std::string nm = cstr(s, a[0]);
      if (!COVERS[nm])
      { z3::model m(*Z); if (s.pc.empty() || query(s, nullptr, &m) == z3::sat) COVERS[nm]++; }
      else COVERS[nm]++;
      return true;
    }
    if (n == "vp_arena")
    {
      ObjP o = alloc_obj(s, a[0], K_ARENA, 4096, "arena");
      ret = P(o->base); return true;
    }
    if (n == "vp_mark") { s.mark = s.heap.empty() ? 0 : s.heap.back()->base + 1; return true; }
    if (n == "vp_live")
    {
      u64 c = 0; for (auto &o : s.heap) if (o->kind == K_HEAP && o->alive && o->base >= s.mark && o->how >= 1 && o->how <= 3) c++;
      for (auto &o : s.arenas) if (o->kind == K_HEAP && o->alive && o->how >= 1 && o->how <= 3) c++;
      ret = P(c); return true;
    }
    if (n == "vp_valid")
    { // range [p,p+n) inside one live object
      u64 ad = concretize(s, a[0], "vp_valid ptr"); ObjP *p = ad ? find_obj(s, ad) : nullptr;
      bool ok = p && (*p)->alive && ad >= (*p)->base && !(*p)->size.e && ad - (*p)->base <= (*p)->size.c && a[1].c <= (*p)->size.c - (ad - (*p)->base);
      ret = C(32, ok); return true;
    }
    if (n == "vp_symbolic") { ret = C(32, 1); return true; }
    if (n == "vp_trace_") { if (VERBOSE) { std::string t = cstr(s, a[0]); fprintf(stderr, "trace: %s %s\n", t.c_str(), a.size() > 1 ? (a[1].e ? X(a[1]).to_string().c_str() : std::to_string(a[1].c).c_str()) : ""); } return true; }
    if (n == "vp_conc") { ret = P(concretize(s, a[0], "vp_conc")); return true; }
    if (n == "vp_done") { throw PathEnd{}; }
    return false;
  }
  // ---------------- memory management
  if (n == "_Znwm" || n == "_Znam") { u64 p = do_new(s, a[0], 16, n == "_Znam" ? 2 : 1, caller_name(s)); if (!p) throw Abort{"operator new of huge size"}; ret = P(p); return true; }
  if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret = P(do_new(s, a[0], 16, n[3] == 'a' ? 2 : 1, caller_name(s))); return true; }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmSt11align_val_tRKSt9nothrow_t")
  {
    u64 al = concretize(s, a[1], "alignment");
    if (!al || (al & (al - 1))) fail_path(s, "memory-safety", "operator new with invalid alignment " + std::to_string(al));
    u64 p = do_new(s, a[0], al, 3, caller_name(s)); if (!p) throw Abort{"operator new of huge size"}; ret = P(p); return true;
  }
  if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvRKSt9nothrow_t") { do_delete(s, a[0], nullptr, 16, n == "_ZdaPv" ? 2 : 1); return true; }
  if (n == "_ZdlPvm" || n == "_ZdaPvm") { do_delete(s, a[0], &a[1], 16, n == "_ZdaPvm" ? 2 : 1); return true; }
  if (n == "_ZdlPvSt11align_val_t" || n == "_ZdaPvSt11align_val_t") { do_delete(s, a[0], nullptr, concretize(s, a[1], "alignment"), 3); return true; }
  if (n == "_ZdlPvmSt11align_val_t" || n == "_ZdaPvmSt11align_val_t") { do_delete(s, a[0], &a[1], concretize(s, a[2], "alignment"), 3); return true; }
  if (n == "malloc") { ret = P(do_new(s, a[0], 16, 4, caller_name(s))); return true; }
  if (n == "aligned_alloc") { ret = P(do_new(s, a[1], a[0].c, 5, caller_name(s))); return true; }
  if (n == "posix_memalign") { u64 p = do_new(s, a[2], a[1].c, 4, caller_name(s)); store_mem(s, a[0], Type::getInt64Ty(M->getContext()), P(p)); ret = C(32, 0); return true; }
  if (n == "free")
  {
    u64 ad = concretize(s, a[0], "free"); if (!ad) return true;
    ObjP *p = find_obj(s, ad);
    if (p && (*p)->how == 5) { mut(*p).how = 4; }
    do_delete(s, a[0], nullptr, p ? (*p)->align : 16, 4); return true;
  }
  if (n == "memcpy" || n == "memmove") { copy_mem(s, a[0], a[1], a[2], n.c_str()); ret = a[0]; return true; }
  if (n == "memset")
  {
    u64 len = concretize(s, a[2], "memset length");
    if (len)
    {
      Loc l = resolve(s, a[0], P(len), "memset");
      if (!l.off.e && !(*l.o)->data->arr) { Content &c = mutc(*l.o); for (u64 i = 0; i < len; i++) { Cell &cl = c.cells[l.off.c + i]; if (a[1].e) { cl.kind = 2; cl.b = 0; cl.e = intern(XB(castop(Instruction::Trunc, a[1], nullptr, Type::getInt8Ty(M->getContext())))); } else { cl.kind = 1; cl.b = a[1].c; cl.e = 0; } } }
      else for (u64 i = 0; i < len; i++) write_bytes(s, *l.o, l.off.e ? S(64, X(l.off) + Z->bv_val((uint64_t)i, 64)) : P(l.off.c + i), 1, C(8, a[1].c));
    }
    ret = a[0]; return true;
  }
  if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "strcmp")
  {
    u64 len = (n == "strcmp") ? 100000 : concretize(s, a[2], "memcmp length");
    u64 pa = concretize(s, a[0], "memcmp p"), pb = concretize(s, a[1], "memcmp p");
    bool str = n[0] == 's';
    z3::expr r = Z->bv_val(0, 32); std::vector<std::pair<Val, Val>> bs; bool sym = false;
    for (u64 i = 0; i < len; i++)
    {
      Val x = getByte(s, pa + i), y = getByte(s, pb + i);
      if (x.e || y.e) sym = true;
      bs.push_back({x, y});
      if (!x.e && !y.e && !sym) { if (x.c != y.c) { ret = C(32, x.c < y.c ? -1 : 1); return true; } if (str && !x.c) { ret = C(32, 0); return true; } }
      if (str && sym && ((!x.e && !x.c) || (!y.e && !y.c))) break;
      if (bs.size() > 5000) throw Abort{"strcmp too long"};
    }
    if (!sym) { ret = C(32, 0); return true; }
    for (int i = (int)bs.size() - 1; i >= 0; i--)
    {
      z3::expr x = XB(bs[i].first), y = XB(bs[i].second);
      z3::expr tail = str ? z3::ite(x == Z->bv_val(0, 8), Z->bv_val(0, 32), r) : r;
      r = z3::ite(x == y, tail, z3::ite(z3::ult(x, y), Z->bv_val((int)-1, 32), Z->bv_val(1, 32)));
    }
    ret = S(32, r); return true;
  }
  if (n == "memchr")
  {
    u64 len = concretize(s, a[2], "memchr length"), p = concretize(s, a[0], "memchr p");
    for (u64 i = 0; i < len; i++)
    {
      Val b = getByte(s, p + i);
      if (b.e) { z3::expr eq = XB(b) == Z->bv_val((uint64_t)(a[1].c & 255), 8);
        Tri y = feasible(s, eq), no = feasible(s, !eq);
        if (y == T_YES && no == T_YES) { fork_on(s, eq); throw Fork{}; }
        if (y == T_YES) { ret = P(p + i); return true; } continue; }
      if (b.c == (a[1].c & 255)) { ret = P(p + i); return true; }
    }
    ret = P(0); return true;
  }
  if (n == "strlen" || n == "strnlen")
  {
    u64 p = concretize(s, a[0], "strlen p"), lim = n == "strnlen" ? concretize(s, a[1], "strnlen n") : ~0ull;
    for (u64 i = 0;; i++)
    {
      if (i >= lim) { ret = P(lim); return true; }
      Val b = getByte(s, p + i);
      if (b.e) { z3::expr eq = XB(b) == Z->bv_val(0, 8); Tri y = feasible(s, eq), no = feasible(s, !eq);
        if (y == T_YES && no == T_YES) { fork_on(s, eq); throw Fork{}; }
        if (y == T_YES) { ret = P(i); return true; } continue; }
      if (!b.c) { ret = P(i); return true; }
    }
  }
  // ---------------- exceptions
  if (n == "__cxa_allocate_exception")
  { ObjP o = alloc_obj(s, a[0], K_EXC, 16, "exception"); s.excs[o->base] = Exc{o->base, 0, 0, 0, false}; ret = P(o->base); return true; }
  if (n == "__cxa_free_exception") { free_exc_obj(s, a[0].c); return true; }
  if (n == "__cxa_init_primary_exception") { Exc &e = s.excs[a[0].c]; e.ti = a[1].c; e.dtor = a[2].c; ret = a[0]; return true; }
  if (n == "__cxa_throw") { Exc &e = s.excs[a[0].c]; e.ti = a[1].c; e.dtor = a[2].c; e.refs++; throw_exc(s, a[0].c); throw Transfer{}; }
  if (n == "__cxa_begin_catch")
  {
    // find owning exception object (pointer may be adjusted)
    u64 o = a[0].c; if (!s.excs.count(o)) { ObjP *p = find_obj(s, o); if (p) o = (*p)->base; }
    s.caught.push_back(o); s.inflight = 0; s.uncaught--; ret = a[0]; return true;
  }
  if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (n == "__cxa_end_catch")
  {
    if (s.caught.empty()) throw Abort{"end_catch without catch"};
    u64 o = s.caught.back(); s.caught.pop_back();
    Frame saved; (void)saved;
    // finish this call first, so that a destructor call returns behind it
    finish_call(s, cb, Val{});
    unref_exc(s, o); throw Transfer{};
  }
  if (n == "__cxa_rethrow")
  {
    if (s.caught.empty()) fail_path(s, "no-terminate", "rethrow without active exception");
    u64 o = s.caught.back(); s.excs[o].refs++; throw_exc(s, o); throw Transfer{};
  }
  if (n == "_ZSt17current_exceptionv")
  { u64 o = s.caught.empty() ? 0 : s.caught.back(); if (o) s.excs[o].refs++; store_mem(s, a[0], Type::getInt64Ty(M->getContext()), P(o)); return true; }
  if (n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
  {
    u64 o = load_mem(s, a[0], Type::getInt64Ty(M->getContext())).c;
    if (!o) fail_path(s, "no-terminate", "rethrow_exception of null exception_ptr");
    s.excs[o].refs++; throw_exc(s, o); throw Transfer{};
  }
  if (n == "_ZSt19uncaught_exceptionsv") { ret = C(32, s.uncaught); return true; }
  if (n == "_ZSt18uncaught_exceptionv") { ret = C(1, s.uncaught > 0); return true; }
  if (starts("_ZNSt15__exception_ptr13exception_ptr") || starts("_ZNKSt15__exception_ptr13exception_ptr"))
  {
    Type *i64 = Type::getInt64Ty(M->getContext());
    std::string r = n.substr(n.find("exception_ptr13exception_ptr") + 28);
    if (r == "C1EPv" || r == "C2EPv") { if (a[1].c) s.excs[a[1].c].refs++; store_mem(s, a[0], i64, a[1]); return true; }
    if (r == "C1ERKS0_" || r == "C2ERKS0_") { Val v = load_mem(s, a[1], i64); if (v.e) throw Abort{"symbolic exception_ptr"}; if (v.c) s.excs[v.c].refs++; store_mem(s, a[0], i64, v); return true; }
    if (r == "9_M_addrefEv") { Val v = load_mem(s, a[0], i64); if (v.c) s.excs[v.c].refs++; return true; }
    if (r == "D1Ev" || r == "D2Ev" || r == "10_M_releaseEv")
    {
      Val v = load_mem(s, a[0], i64);
      if (v.e) fail_path(s, "memory-safety", "destroying uninitialised exception_ptr");
      if (v.c && !s.excs.count(v.c)) fail_path(s, "memory-safety", "destroying corrupt exception_ptr");
      if (r[0] == '1') store_mem(s, a[0], i64, P(0));
      finish_call(s, cb, Val{});
      if (v.c) unref_exc(s, v.c);
      throw Transfer{};
    }
    if (r == "aSERKS0_")
    {
      Val v = load_mem(s, a[1], i64), old = load_mem(s, a[0], i64);
      if (v.c) s.excs[v.c].refs++;
      store_mem(s, a[0], i64, v);
      finish_call(s, cb, a[0]);
      if (old.c) unref_exc(s, old.c);
      throw Transfer{};
    }
    if (r == "aSEOS0_")
    {
      Val v = load_mem(s, a[1], i64), old = load_mem(s, a[0], i64);
      store_mem(s, a[1], i64, P(0)); store_mem(s, a[0], i64, v);
      finish_call(s, cb, a[0]);
      if (old.c) unref_exc(s, old.c);
      throw Transfer{};
    }
    if (r == "4swapERS0_") { Val x = load_mem(s, a[0], i64), y = load_mem(s, a[1], i64); store_mem(s, a[0], i64, y); store_mem(s, a[1], i64, x); return true; }
    if (r == "C1Ev" || r == "C2Ev") { store_mem(s, a[0], i64, P(0)); return true; }
    return false;
  }
  if (n == "_Unwind_Resume") { throw Abort{"_Unwind_Resume call"}; }
  // ---------------- termination
  if (n == "__assert_fail") fail_path(s, "no-assertion-failure", "assertion failed: " + cstr(s, a[0]) + " at " + cstr(s, a[1]) + ":" + std::to_string(a[2].c));
  if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") fail_path(s, "no-assertion-failure", "libstdc++ assertion: " + cstr(s, a[3]) + " at " + cstr(s, a[0]) + ":" + std::to_string(a[1].c));
  if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "_exit" || n == "__cxa_call_unexpected" || n == "__cxa_pure_virtual" || n == "_ZSt10unexpectedv")
    fail_path(s, "no-terminate", n + " called" + (s.inflight || !s.caught.empty() ? " with exception " + ti_name(s.excs[s.inflight ? s.inflight : s.caught.back()].ti) : ""));
  // ---------------- runtime support
  if (n == "__cxa_thread_atexit" && s.cur) s.thr[s.cur].atexit.push_back({a[0].c, a[1].c});
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { ret = C(32, 0); return true; }
  if (n == "__cxa_guard_acquire") { hb_acquire(s, a[0].c); Val v = load_mem(s, a[0], Type::getInt8Ty(M->getContext())); ret = C(32, v.c ? 0 : 1); return true; }
  if (n == "__cxa_guard_release") { hb_release(s, a[0].c); store_mem(s, a[0], Type::getInt8Ty(M->getContext()), C(8, 1)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (starts("pthread_rwlock") || starts("pthread_attr") || starts("pthread_condattr") || starts("pthread_mutexattr")) { ret = C(32, 0); return true; }
  if (n == "pthread_self") { ret = P(0x1234 + s.cur); return true; }
  if (n == "__errno_location") { static std::map<void *, u64> m; for (auto &o : s.heap) if (SITES[o->site] == "errno") { ret = P(o->base); return true; }
    ObjP o = alloc_obj(s, P(8), K_GLOBAL, 16, "errno"); ret = P(o->base); o.reset(); store_mem(s, ret, Type::getInt64Ty(M->getContext()), P(0)); return true; }
  if (n == "__dynamic_cast")
  { // (ptr sub, ptr srcti, ptr dstti, i64 hint): vtable[-1] is the dynamic type
    u64 sub = a[0].c; Type *i64 = Type::getInt64Ty(M->getContext());
    u64 vt = load_mem(s, P(sub), i64).c; u64 off = load_mem(s, P(vt - 16), i64).c; u64 ti = load_mem(s, P(vt - 8), i64).c;
    int64_t adj = 0;
    if (ti_derives(ti, a[2].c, adj)) ret = P(sub + off + adj); else ret = P(0);
    return true;
  }
  if (n == "__cxa_bad_cast" || n == "__cxa_bad_typeid" || n == "__cxa_throw_bad_array_new_length") fail_path(s, "no-terminate", n);
  return false;
}

static bool intrinsic(State &s, IntrinsicInst *ii, std::vector<Val> &a, Val &ret)
{
  auto &ctx = M->getContext();
  switch (ii->getIntrinsicID())
  {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
  case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
    ret = a[0]; return true;
  case Intrinsic::threadlocal_address: ret = s.cur ? P(tls_addr(s, a[0].c)) : a[0]; return true;
  case Intrinsic::stacksave: ret = P(0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::is_constant: ret = C(1, 0); return true;
  case Intrinsic::objectsize: ret = P(~0ull); return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: copy_mem(s, a[0], a[1], a[2], "memcpy"); return true;
  case Intrinsic::memset: { Val r; builtin(s, ii, nullptr, "memset", a, r); return true; }
  case Intrinsic::eh_typeid_for: ret = C(32, type_id(a[0].c)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail_path(s, "no-terminate", "trap");
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
  {
    u32 w = a[0].bits; bool sg = ii->getIntrinsicID() == Intrinsic::sadd_with_overflow || ii->getIntrinsicID() == Intrinsic::ssub_with_overflow || ii->getIntrinsicID() == Intrinsic::smul_with_overflow;
    z3::expr x = sg ? z3::sext(XB(a[0]), w) : z3::zext(XB(a[0]), w), y = sg ? z3::sext(XB(a[1]), w) : z3::zext(XB(a[1]), w);
    z3::expr r = x;
    switch (ii->getIntrinsicID()) { case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: r = x * y; break; case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: r = x + y; break; default: r = x - y; }
    z3::expr lo = r.extract(w - 1, 0);
    z3::expr ext = sg ? z3::sext(lo, w) : z3::zext(lo, w);
    ret = mkagg({S(w, lo), S(1, ext != r)}); return true;
  }
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
  {
    auto id = ii->getIntrinsicID();
    Val c = icmp(id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, a[0], a[1]);
    if (!c.e) ret = c.c ? a[0] : a[1]; else ret = S(a[0].bits, z3::ite(X(c), XB(a[0]), XB(a[1]))); return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
  {
    u32 w = a[0].bits; auto id = ii->getIntrinsicID();
    if (!a[0].e)
    {
      u64 v = a[0].c; u64 r = 0;
      if (id == Intrinsic::ctpop) r = __builtin_popcountll(v);
      else if (id == Intrinsic::ctlz) { r = w; for (int i = w - 1; i >= 0; i--) if (v >> i & 1) { r = w - 1 - i; break; } }
      else { r = w; for (unsigned i = 0; i < w; i++) if (v >> i & 1) { r = i; break; } }
      ret = C(w, r); return true;
    }
    z3::expr x = X(a[0]), r = Z->bv_val(id == Intrinsic::ctpop ? 0 : w, w);
    if (id == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = r + z3::zext(x.extract(i, i), w - 1);
    else if (id == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val(w - 1 - i, w), r);
    else for (int i = w - 1; i >= 0; i--) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val(i, w), r);
    ret = S(w, r); return true;
  }
  case Intrinsic::bswap:
  {
    u32 w = a[0].bits;
    if (!a[0].e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); ret = C(w, r); return true; }
    z3::expr x = X(a[0]); z3::expr r = x.extract(7, 0); for (unsigned i = 1; i < w / 8; i++) r = z3::concat(r, x.extract(8 * i + 7, 8 * i)); ret = S(w, r); return true;
  }
  case Intrinsic::abs: { Val z = C(a[0].bits, 0); Val neg = binop(s, Instruction::Sub, z, a[0]); Val c = icmp(CmpInst::ICMP_SLT, a[0], z); ret = !c.e ? (c.c ? neg : a[0]) : S(a[0].bits, z3::ite(X(c), X(neg), X(a[0]))); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: default: break;
  case Intrinsic::ptrmask: ret = binop(s, Instruction::And, a[0], a[1]); return true;
  case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
  }
  (void)ctx;
  return false;
}

//------------------------------------------------------------------------ one step
static void step(State &s)
{
  Frame &f = s.st.back();
  Instruction *I = &*f.pc;
  s.steps++; N_STEPS++; ATOMIC_ACC = false;
  switch (I->getOpcode())
  {
  case Instruction::Alloca:
  {
    auto *ai = cast<AllocaInst>(I);
    u64 n = concretize(s, get(s, f, ai->getArraySize()), "alloca");
    u64 sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
    ObjP o = alloc_obj(s, P(sz), K_STACK, ai->getAlign().value());
    f.nstack++;
    setr(f, I, P(o->base)); ++f.pc; return;
  }
  case Instruction::Load:
  {
    Val a = get(s, f, I->getOperand(0));
    if (s.thr.size() > 1 && I->isAtomic() && !a.e)
    { sched_point(s, a.c, true); ATOMIC_ACC = true; Val v = load_mem(s, a, I->getType()); ATOMIC_ACC = false; hb_acquire(s, a.c); setr(f, I, v); ++f.pc; return; }
    setr(f, I, load_mem(s, a, I->getType())); ++f.pc; return;
  }
  case Instruction::Store:
  {
    Val v = get(s, f, I->getOperand(0)), a = get(s, f, I->getOperand(1));
    if (s.thr.size() > 1 && I->isAtomic() && !a.e)
    { sched_point(s, a.c); hb_release(s, a.c); ATOMIC_ACC = true; store_mem(s, a, I->getOperand(0)->getType(), v); ATOMIC_ACC = false; ++f.pc; return; }
    store_mem(s, a, I->getOperand(0)->getType(), v); ++f.pc; return;
  }
  case Instruction::GetElementPtr:
  {
    auto *g = cast<GetElementPtrInst>(I);
    Val b = get(s, f, g->getPointerOperand());
    u64 coff = 0; bool sym = false; z3::expr se = Z->bv_val(0, 64);
    for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it)
    {
      Val idx = get(s, f, it.getOperand());
      if (StructType *st = it.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(idx.c); continue; }
      u64 es = DL->getTypeAllocSize(it.getIndexedType());
      if (!idx.e) coff += (u64)sx(idx) * es;
      else { z3::expr x = XB(idx); if (idx.bits < 64) x = z3::sext(x, 64 - idx.bits); x = x * Z->bv_val((uint64_t)es, 64); se = sym ? se + x : x; sym = true; }
    }
    Val r;
    if (!sym && !b.e) r = P(b.c + coff);
    else { z3::expr e = X(b); if (coff) e = e + Z->bv_val((uint64_t)coff, 64); if (sym) e = e + se; r = S(64, e); }
    setr(f, I, r); ++f.pc; return;
  }
  case Instruction::Br:
  {
    auto *br = cast<BranchInst>(I);
    if (br->isUnconditional()) { enter_bb(s, f, br->getSuccessor(0)); return; }
    Val c = get(s, f, br->getCondition());
    if (!c.e) { enter_bb(s, f, br->getSuccessor(c.c ? 0 : 1)); return; }
    z3::expr e = X(c);
    Tri t = feasible(s, e);
    auto keep = s.model; auto ku = s.model_upto;
    Tri n = feasible(s, !e);
    if (t == T_UNK || n == T_UNK) throw Abort{"solver unknown (branch)"};
    if (t == T_YES && n == T_YES)
    {
      State o = s; add_pc(o, e); if (t == T_YES && keep) { o.model = keep; o.model_upto = ku; }
      N_FORKS++;
      enter_bb(o, o.st.back(), br->getSuccessor(0));
      WORK.push_back(std::move(o));
      add_pc(s, !e);
      enter_bb(s, s.st.back(), br->getSuccessor(1));
      return;
    }
    if (t == T_YES) { s.model = keep; s.model_upto = ku; enter_bb(s, f, br->getSuccessor(0)); }
    else if (n == T_YES) enter_bb(s, f, br->getSuccessor(1));
    else throw PathEnd{};
    return;
  }
  case Instruction::Switch:
  {
    auto *sw = cast<SwitchInst>(I);
    Val c = get(s, f, sw->getCondition());
    if (!c.e)
    {
      for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { enter_bb(s, f, cs.getCaseSuccessor()); return; }
      enter_bb(s, f, sw->getDefaultDest()); return;
    }
    z3::expr e = XB(c); z3::expr none = Z->bool_val(true);
    std::vector<std::pair<z3::expr, BasicBlock *>> alts;
    for (auto &cs : sw->cases())
    {
      z3::expr q = e == Z->bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.bits);
      none = none && !q;
      if (feasible(s, q) != T_NO) alts.push_back({q, cs.getCaseSuccessor()});
    }
    if (feasible(s, none) != T_NO) alts.push_back({none, sw->getDefaultDest()});
    if (alts.empty()) throw PathEnd{};
    for (size_t i = 1; i < alts.size(); i++)
    { State o = s; add_pc(o, alts[i].first); o.model.reset(); enter_bb(o, o.st.back(), alts[i].second); N_FORKS++; WORK.push_back(std::move(o)); }
    add_pc(s, alts[0].first); s.model.reset(); enter_bb(s, s.st.back(), alts[0].second);
    return;
  }
  case Instruction::Ret:
  {
    Val r; bool has = I->getNumOperands() > 0;
    if (has) r = get(s, f, I->getOperand(0));
    CallBase *cb = f.call; int post = f.post; u64 pa = f.postarg;
    pop_frame_mem(s, f);
    if (TRACE_CALLS) fprintf(stderr, "%*s< %s\n", (int)s.st.size(), "", demangle(f.fn->F->getName().str()).substr(0, 100).c_str());
    s.st.pop_back();
    if (post == 1) { free_exc_obj(s, pa); return; }
    if (s.st.empty())
    {
      if (s.cur)
      {
        auto &ae = s.thr[s.cur].atexit;
        if (!ae.empty())
        { // destructors of the thread's thread-local objects
          auto d = ae.back(); ae.pop_back(); Function *D = FADDR.count(d.first) ? FADDR[d.first] : nullptr;
          if (!D || D->isDeclaration()) throw Abort{"destructor of a thread-local object"};
          push_call(s, D, {P(d.second)}, nullptr); return;
        }
        s.thr[s.cur].fin = true; block_switch(s, "its end"); return;
      }
      for (unsigned t = 1; t < s.thr.size(); t++) if (!s.thr[t].fin) throw Abort{"a thread is running at the end of the contract"};
      s.done = true; return;
    }
    if (cb) finish_call(s, cb, r);
    return;
  }
  case Instruction::Unreachable: fail_path(s, "no-terminate", "unreachable code reached (undefined behaviour)");
  case Instruction::Call: case Instruction::Invoke:
  {
    auto *cb = cast<CallBase>(I);
    f.cur = cb;
    std::vector<Val> args;
    for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(isa<MetadataAsValue>(cb->getArgOperand(i)) ? C(1, 0) : get(s, f, cb->getArgOperand(i)));
    Val ret;
    if (auto *ii = dyn_cast<IntrinsicInst>(cb))
    {
      // stays at pc while executing, so that forks re-execute
      if (!intrinsic(s, ii, args, ret)) throw Abort{"intrinsic " + ii->getCalledFunction()->getName().str()};
      Frame &g = s.st.back(); setr(g, I, ret); ++g.pc; return;
    }
    Function *F = cb->getCalledFunction();
    if (!F)
    {
      Value *cv = cb->getCalledOperand()->stripPointerCasts();
      if (isa<InlineAsm>(cv)) { auto *ia = cast<InlineAsm>(cv); if (ia->getAsmString().empty()) { if (!isa<InvokeInst>(cb)) ++f.pc; finish_call(s, cb, args.empty() ? Val{} : args[0]); return; } throw Abort{"inline asm"}; }
      if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
      if (auto *fd = dyn_cast<Function>(cv)) F = fd;
      else
      {
        Val t = get(s, f, cv);
        u64 ad = concretize(s, t, "indirect call target");
        F = fn_at(ad);
        if (!F) fail_path(s, "memory-safety", "indirect call to invalid address " + hex(ad));
      }
    }
    std::string n = F->getName().str();
    auto ov = OVERRIDE.find(n);
    if (ov != OVERRIDE.end() && s.st.back().fn->F != ov->second) { F = ov->second; EXTERNS_USED.insert("[contract] " + n); }
    if (!F->isDeclaration() && !(n.rfind("vp_", 0) == 0 && n.rfind("vp_C_", 0) != 0 && false))
    {
      if (!isa<InvokeInst>(cb)) ++f.pc;
      push_call(s, F, args, cb); return;
    }
    bool inv = isa<InvokeInst>(cb);
    if (is_thread_op(n))
    {
      EXTERNS_USED.insert(n);
      if (!thread_op(s, n, args, ret)) return;
      if (!inv) ++s.st.back().pc;
      if (!cb->getType()->isVoidTy() && ret.bits != bitsOf(cb->getType())) ret = C(bitsOf(cb->getType()), ret.c);
      finish_call(s, cb, ret); return;
    }
    // pc handling: builtins that throw need pc at the invoke; plain calls: advance first unless we must re-execute
    auto savedpc = f.pc;
    EXTERNS_USED.insert(n);
    bool ok;
    if (!inv) ++f.pc;
    size_t depth = s.st.size();
    try { ok = builtin(s, cb, F, n, args, ret); }
    catch (Transfer &) { return; }
    catch (Fork &)
    { // re-execute this call in both states
      if (!inv)
      {
        s.st.back().pc = savedpc;
        if (!WORK.empty() && WORK.back().st.size() == depth) WORK.back().st.back().pc = savedpc;
      }
      return;
    }
    if (!ok) throw Abort{"external function " + n};
    finish_call(s, cb, ret);
    return;
  }
  case Instruction::Resume:
  {
    Val v = get(s, f, I->getOperand(0));
    u64 o = AGG[v.c][0].c; if (!s.excs.count(o)) { ObjP *p = find_obj(s, o); if (p) o = (*p)->base; }
    s.inflight = o;
    pop_frame_mem(s, f); s.st.pop_back();
    do_unwind(s); return;
  }
  case Instruction::LandingPad: ++f.pc; return;
  case Instruction::Select:
  {
    Val c = get(s, f, I->getOperand(0)), x = get(s, f, I->getOperand(1)), y = get(s, f, I->getOperand(2));
    Val r;
    if (c.bits == 0) throw Abort{"vector select"};
    if (!c.e) r = c.c ? x : y;
    else if (x.bits == 0) throw Abort{"aggregate select"};
    else if (x.bits == 1) r = S(1, z3::ite(X(c), X(x), X(y)));
    else r = S(x.bits, z3::ite(X(c), XB(x), XB(y)));
    setr(f, I, r); ++f.pc; return;
  }
  case Instruction::ICmp:
  {
    Val a = get(s, f, I->getOperand(0)), b = get(s, f, I->getOperand(1));
    if (a.bits == 0) throw Abort{"vector icmp"};
    setr(f, I, icmp(cast<ICmpInst>(I)->getPredicate(), a, b)); ++f.pc; return;
  }
  case Instruction::FCmp:
  {
    Val a = get(s, f, I->getOperand(0)), b = get(s, f, I->getOperand(1));
    if (a.e || b.e) throw Abort{"symbolic fcmp"};
    auto g = [&](Val q) -> double { if (q.bits == 32) { float x; u32 w = q.c; memcpy(&x, &w, 4); return x; } double x; memcpy(&x, &q.c, 8); return x; };
    double x = g(a), y = g(b); bool r = false, un = x != x || y != y;
    switch (cast<FCmpInst>(I)->getPredicate())
    {
    case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGE: r = x >= y; break;
    case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; default: throw Abort{"fcmp"};
    }
    setr(f, I, C(1, r)); ++f.pc; return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
  {
    Val a = get(s, f, I->getOperand(0)), b = get(s, f, I->getOperand(1));
    if (a.e || b.e || (a.bits != 64 && a.bits != 32)) throw Abort{"floating point"};
    if (a.bits == 32)
    {
      float x, y, r; u32 p = a.c, q = b.c; memcpy(&x, &p, 4); memcpy(&y, &q, 4);
      r = I->getOpcode() == Instruction::FAdd ? x + y : I->getOpcode() == Instruction::FSub ? x - y : I->getOpcode() == Instruction::FMul ? x * y : x / y;
      u32 c; memcpy(&c, &r, 4); setr(f, I, C(32, c)); ++f.pc; return;
    }
    double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
    r = I->getOpcode() == Instruction::FAdd ? x + y : I->getOpcode() == Instruction::FSub ? x - y : I->getOpcode() == Instruction::FMul ? x * y : x / y;
    u64 c; memcpy(&c, &r, 8); setr(f, I, C(64, c)); ++f.pc; return;
  }
  case Instruction::ExtractValue:
  {
    auto *ev = cast<ExtractValueInst>(I); Val v = get(s, f, ev->getAggregateOperand());
    for (unsigned i : ev->indices()) { Val t = AGG[v.c][i]; v = t; }
    setr(f, I, v); ++f.pc; return;
  }
  case Instruction::InsertValue:
  {
    auto *iv = cast<InsertValueInst>(I); Val v = get(s, f, iv->getAggregateOperand()), x = get(s, f, iv->getInsertedValueOperand());
    std::function<Val(Val, ArrayRef<unsigned>)> go = [&](Val b, ArrayRef<unsigned> ix) -> Val {
      if (ix.empty()) return x;
      std::vector<Val> c = AGG[b.c]; c[ix[0]] = go(c[ix[0]], ix.drop_front()); return mkagg(c); };
    setr(f, I, go(v, iv->getIndices())); ++f.pc; return;
  }
  case Instruction::ExtractElement: { Val v = get(s, f, I->getOperand(0)), i = get(s, f, I->getOperand(1)); setr(f, I, AGG[v.c][i.c]); ++f.pc; return; }
  case Instruction::InsertElement: { Val v = get(s, f, I->getOperand(0)), x = get(s, f, I->getOperand(1)), i = get(s, f, I->getOperand(2)); auto c = AGG[v.c]; c[i.c] = x; setr(f, I, mkagg(c)); ++f.pc; return; }
  case Instruction::ShuffleVector:
  {
    auto *sv = cast<ShuffleVectorInst>(I); auto x = AGG[get(s, f, sv->getOperand(0)).c], y = AGG[get(s, f, sv->getOperand(1)).c]; std::vector<Val> r;
    for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? x[0] : m < (int)x.size() ? x[m] : y[m - x.size()]);
    setr(f, I, mkagg(r)); ++f.pc; return;
  }
  case Instruction::Freeze: setr(f, I, get(s, f, I->getOperand(0))); ++f.pc; return;
  case Instruction::Fence: ++f.pc; return;
  case Instruction::AtomicRMW:
  {
    auto *rm = cast<AtomicRMWInst>(I); Val p = get(s, f, rm->getPointerOperand()), v = get(s, f, rm->getValOperand());
    if (s.thr.size() > 1 && !p.e)
    {
      bool down = rm->getOperation() == AtomicRMWInst::Sub || (rm->getOperation() == AtomicRMWInst::Add && !v.e && sx(v) < 0) || rm->getOperation() == AtomicRMWInst::Xchg;
      if (down) sched_point(s, p.c); else for (auto &x : s.thr) if (x.sched && x.pend == p.c) x.hot = true;
      hb_acquire(s, p.c); hb_release(s, p.c);
    }
    ATOMIC_ACC = true;
    Val old = load_mem(s, p, I->getType()); Val nw;
    switch (rm->getOperation())
    {
    case AtomicRMWInst::Xchg: nw = v; break; case AtomicRMWInst::Add: nw = binop(s, Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nw = binop(s, Instruction::Sub, old, v); break;
    case AtomicRMWInst::And: nw = binop(s, Instruction::And, old, v); break; case AtomicRMWInst::Or: nw = binop(s, Instruction::Or, old, v); break; default: throw Abort{"atomicrmw"};
    }
    store_mem(s, p, I->getType(), nw); ATOMIC_ACC = false; setr(f, I, old); ++f.pc; return;
  }
  case Instruction::AtomicCmpXchg:
  {
    auto *cx = cast<AtomicCmpXchgInst>(I); Val p = get(s, f, cx->getPointerOperand()), c = get(s, f, cx->getCompareOperand()), nv = get(s, f, cx->getNewValOperand());
    if (s.thr.size() > 1 && !p.e) { sched_point(s, p.c); hb_acquire(s, p.c); hb_release(s, p.c); }
    ATOMIC_ACC = true; Val old = load_mem(s, p, cx->getCompareOperand()->getType()); ATOMIC_ACC = false; Val eq = icmp(CmpInst::ICMP_EQ, old, c);
    if (eq.e) { z3::expr e = X(eq); Tri t = feasible(s, e), n2 = feasible(s, !e); if (t == T_YES && n2 == T_YES) { fork_on(s, e); throw Fork{}; } eq = C(1, t == T_YES); }
    ATOMIC_ACC = true; if (eq.c) store_mem(s, p, cx->getCompareOperand()->getType(), nv); ATOMIC_ACC = false;
    setr(f, I, mkagg({old, eq})); ++f.pc; return;
  }
  case Instruction::VAArg: throw Abort{"va_arg"};
  default: break;
  }
  if (I->isBinaryOp())
  {
    Val a = get(s, f, I->getOperand(0)), b = get(s, f, I->getOperand(1));
    if (a.bits == 0) { auto x = AGG[a.c], y = AGG[b.c]; for (size_t i = 0; i < x.size(); i++) x[i] = binop(s, I->getOpcode(), x[i], y[i]); setr(f, I, mkagg(x)); ++f.pc; return; }
    setr(f, I, binop(s, I->getOpcode(), a, b)); ++f.pc; return;
  }
  if (I->isCast())
  {
    Val a = get(s, f, I->getOperand(0));
    if (a.bits == 0) throw Abort{"vector cast"};
    setr(f, I, castop(I->getOpcode(), a, I->getOperand(0)->getType(), I->getType())); ++f.pc; return;
  }
  throw Abort{std::string("instruction ") + I->getOpcodeName()};
}

static void run_state(State s, bool &complete)
{
  while (true)
  {
    if (s.done) { N_PATHS++; return; }
    if (s.steps > MAX_STEPS)
    {
      OBS["termination"].vcs++;
      record_violation(s, "termination", "path exceeds " + std::to_string(MAX_STEPS) + " steps", nullptr);
      N_PATHS++; complete = false; return;
    }
    try { step(s); }
    catch (Fork &) {}
    catch (PathEnd &) { N_PATHS++; return; }
    catch (Abort &a) { UNDECIDED[a.why + " in " + (s.st.empty() ? std::string("?") : demangle(s.st.back().fn->F->getName().str()).substr(0, 150))]++; if (VERBOSE) for (auto &l : backtrace(s)) fprintf(stderr, "    %s\n", l.c_str()); N_PATHS++; complete = false; return; }
    catch (z3::exception &e) { UNDECIDED[std::string("z3: ") + e.msg()]++; if (VERBOSE) for (auto &l : backtrace(s)) fprintf(stderr, "    %s\n", l.c_str()); N_PATHS++; complete = false; return; }
    if ((N_STEPS & 0xffff) == 0 && now_s() - T_START > TIME_LIMIT) { UNDECIDED["time limit"]++; complete = false; WORK.clear(); return; }
  }
}

//------------------------------------------------------------------------ setup
static void write_const(State &s, ObjP &o, u64 off, const Constant *c)
{
  Type *t = c->getType();
  if (isa<UndefValue>(c)) { u64 n = DL->getTypeAllocSize(t); Content &d = mutc(o); for (u64 i = 0; i < n; i++) { d.cells[off + i].kind = 1; d.cells[off + i].b = 0; } return; }
  if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); Content &d = mutc(o); for (u64 i = 0; i < n; i++) { d.cells[off + i].kind = 1; d.cells[off + i].b = 0; } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); i++) write_const(s, o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) write_const(s, o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) write_const(s, o, off + i * es, cd->getElementAsConstant(i)); return; }
  Val v = cval(&s, c);
  if (v.bits == 0) throw Abort{"initializer aggregate"};
  write_bytes(s, o, P(off), DL->getTypeStoreSize(t), v);
}

static std::string jesc(const std::string &x)
{
  std::string r; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}

int main(int argc, char **argv)
{
  std::string bc, out; std::vector<std::string> only; bool list = false;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "-v") VERBOSE = true; else if (a == "-t") TRACE_CALLS = true; else if (a == "-l") list = true;
    else if (a == "-o") out = argv[++i]; else if (a == "-f") only.push_back(argv[++i]);
    else if (a == "-T") TIME_LIMIT = atof(argv[++i]); else if (a == "-S") MAX_STEPS = atoll(argv[++i]); else if (a == "-P") MAX_PATHS = atoll(argv[++i]);
    else if (a == "-q") Z3_TIMEOUT = atoi(argv[++i]);
    else bc = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("vcx", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  if (list) { for (auto &F : *M) if (F.getName().starts_with("vp_C_") && !F.isDeclaration()) printf("%s\n", F.getName().str().c_str() + 5); return 0; }
  z3::context zc; Z = &zc; EXPRS.push_back(zc.bool_val(true)); AGG.push_back({});
  T_START = now_s();
  State s0;
  // functions
  u64 fa = 0x100000000ull;
  for (auto &F : *M) { GADDR[&F] = fa; FADDR[fa] = &F; fa += 16; if (F.getName().starts_with("vp_override.")) OVERRIDE[F.getName().substr(12).str()] = &F; }
  // globals
  s0.heap_bump = 0x200000000ull;
  std::vector<std::pair<GlobalVariable *, size_t>> gl;
  for (auto &g : M->globals())
  {
    u64 sz = 256;
    if (!g.isDeclaration() || g.getValueType()->isSized()) sz = std::max<u64>(g.isDeclaration() ? 256 : 1, DL->getTypeAllocSize(g.getValueType()));
    ObjP o = alloc_obj(s0, P(sz), K_GLOBAL, std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16), "global " + g.getName().str());
    GADDR[&g] = o->base; gl.push_back({&g, s0.heap.size() - 1});
    if (g.getName().starts_with("_ZTI")) TI_AT[o->base] = &g;
  }
  int rc = 0;
  try
  {
    for (auto &p : gl)
    {
      if (p.first->hasInitializer()) { write_const(s0, s0.heap[p.second], 0, p.first->getInitializer()); if (p.first->isConstant()) s0.heap[p.second]->ro = true; }
      else
      {
        Content &d = mutc(s0.heap[p.second]); for (auto &c : d.cells) { c.kind = 1; c.b = 0; }
        if (p.first->getName() == "__libc_single_threaded") d.cells[0].b = 1;
      }
    }
    s0.heap_bump = 0x200000000000ull;
    // global constructors
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      {
        std::vector<std::pair<u64, Function *>> cs;
        for (auto &op : ca->operands()) { auto *st = cast<ConstantStruct>(op); cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &c : cs)
        {
          CUR_CONTRACT = "global-ctor";
          push_call(s0, c.second, {}, nullptr); s0.done = false;
          while (!s0.done) { try { step(s0); } catch (Fork &) {} }
        }
        s0.done = false;
      }
  }
  catch (Abort &a) { fprintf(stderr, "vcx: setup: %s\n", a.why.c_str()); for (auto &l : backtrace(s0)) fprintf(stderr, "   %s\n", l.c_str()); return 3; }
  catch (PathEnd &) { fprintf(stderr, "vcx: setup failed\n"); return 3; }
  s0.mark = s0.heap.empty() ? 0 : s0.heap.back()->base + 1;
  EXTERNS_USED.clear(); FUNCS_EXECUTED.clear(); OBS.clear();

  struct Res { std::string name; bool complete; u64 paths, vcs, failed, queries; double t, ts; };
  std::vector<Res> results; std::map<std::string, std::map<std::string, ObInfo>> allobs; std::map<std::string, std::map<std::string, u64>> allund, allcov;
  std::set<std::string> allfn, allext;
  for (auto &F : *M)
  {
    if (!F.getName().starts_with("vp_C_") || F.isDeclaration()) continue;
    std::string nm = F.getName().substr(5).str();
    if (!only.empty() && std::find(only.begin(), only.end(), nm) == only.end()) continue;
    CUR_CONTRACT = nm; OBS.clear(); COVERS.clear(); UNDECIDED.clear(); WORK.clear(); ARRAYS = false;
    u64 p0 = N_PATHS, q0 = N_QUERIES; double t0 = now_s(), ts0 = T_SOLVER; bool complete = true;
    T_START = now_s();
    State s = s0;
    push_call(s, &F, {}, nullptr);
    WORK.push_back(std::move(s));
    while (!WORK.empty())
    {
      State w = std::move(WORK.back()); WORK.pop_back();
      run_state(std::move(w), complete);
      if (N_PATHS - p0 > MAX_PATHS) { UNDECIDED["path limit"]++; complete = false; WORK.clear(); }
      unsigned nv = 0; for (auto &v : VIOLS) if (v.contract == nm) nv++;
      if (nv >= MAX_VIOL) { UNDECIDED["stopped after violations"]++; complete = false; WORK.clear(); }
      if (now_s() - T_START > TIME_LIMIT) { UNDECIDED["time limit"]++; complete = false; WORK.clear(); }
    }
    u64 vcs = 0, failed = 0; for (auto &o : OBS) { vcs += o.second.vcs; failed += o.second.failed; }
    results.push_back({nm, complete && UNDECIDED.empty(), N_PATHS - p0, vcs, failed, N_QUERIES - q0, now_s() - t0, T_SOLVER - ts0});
    allobs[nm] = OBS; allund[nm] = UNDECIDED; allcov[nm] = COVERS;
    if (VERBOSE || true)
      fprintf(stderr, "%-44s %s paths=%llu vcs=%llu failed=%llu queries=%llu t=%.2fs solver=%.2fs\n", nm.c_str(), failed ? "VIOLATED" : complete && UNDECIDED.empty() ? "proved" : "UNDECIDED",
              (unsigned long long)results.back().paths, (unsigned long long)vcs, (unsigned long long)failed, (unsigned long long)results.back().queries, results.back().t, results.back().ts);
    for (auto &u : UNDECIDED) fprintf(stderr, "    undecided: %s x%llu\n", u.first.c_str(), (unsigned long long)u.second);
  }
  for (auto &v : VIOLS)
  {
    fprintf(stderr, "VIOL %s / %s: %s (%s)\n", v.contract.c_str(), v.ob.c_str(), v.detail.c_str(), v.where.c_str());
    for (auto &i : v.inputs) fprintf(stderr, "     %s = %llu\n", i.first.c_str(), (unsigned long long)i.second.second);
    if (VERBOSE) for (auto &l : v.stack) fprintf(stderr, "     at %s\n", l.c_str());
  }
  if (!out.empty())
  {
    std::ofstream o(out);
    o << "{\"contracts\":[";
    bool first = true;
    for (auto &r : results)
    {
      o << (first ? "" : ",") << "\n {\"name\":\"" << jesc(r.name) << "\",\"complete\":" << (r.complete ? "true" : "false") << ",\"paths\":" << r.paths << ",\"vcs\":" << r.vcs << ",\"failed\":" << r.failed
        << ",\"queries\":" << r.queries << ",\"wall_s\":" << r.t << ",\"solver_s\":" << r.ts << ",\"obligations\":{"; first = false;
      bool f2 = true;
      for (auto &ob : allobs[r.name]) { o << (f2 ? "" : ",") << "\"" << jesc(ob.first) << "\":[" << ob.second.vcs << "," << ob.second.trivial << "," << ob.second.solver << "," << ob.second.failed << "," << ob.second.unknown << "]"; f2 = false; }
      o << "},\"covers\":{"; f2 = true;
      for (auto &ob : allcov[r.name]) { o << (f2 ? "" : ",") << "\"" << jesc(ob.first) << "\":" << ob.second; f2 = false; }
      o << "},\"undecided\":{"; f2 = true;
      for (auto &ob : allund[r.name]) { o << (f2 ? "" : ",") << "\"" << jesc(ob.first) << "\":" << ob.second; f2 = false; }
      o << "}}";
    }
    o << "],\n\"violations\":["; first = true;
    for (auto &v : VIOLS)
    {
      o << (first ? "" : ",") << "\n {\"contract\":\"" << jesc(v.contract) << "\",\"obligation\":\"" << jesc(v.ob) << "\",\"detail\":\"" << jesc(v.detail) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":["; first = false;
      bool f2 = true; for (auto &i : v.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(i.first) << "\"," << i.second.first << "," << i.second.second << "]"; f2 = false; }
      o << "],\"stack\":["; f2 = true; for (auto &l : v.stack) { o << (f2 ? "" : ",") << "\"" << jesc(l) << "\""; f2 = false; }
      o << "]}";
    }
    o << "],\n\"functions\":["; first = true;
    for (auto &f : FUNCS_EXECUTED) { std::string d = demangle(f); if (d.find("boost::cobalt") == std::string::npos) continue; o << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
    o << "],\n\"externs\":["; first = true;
    for (auto &f : EXTERNS_USED) { o << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
    o << "],\"queries\":" << N_QUERIES << ",\"solver_s\":" << T_SOLVER << ",\"steps\":" << N_STEPS << "}\n";
  }
  for (auto &r : results) if (r.failed) rc = 1;
  fflush(stdout); fflush(stderr);
  _Exit(rc);
}
