// sx: a small path-forking symbolic executor for LLVM bitcode.
//
// Every value that depends on a symbolic input is an SMT bit-vector (or IEEE
// floating point) term; every branch whose condition is symbolic is decided by
// the solver in both directions and forked; memory is a set of disjoint,
// bounds-checked objects with per-byte symbolic contents.  A property is an
// sx_assert() in the harness: it is discharged by an SMT query (path condition
// and negated property unsatisfiable) on every feasible path.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <vector>
#include <string>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <cmath>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double now() {
  return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
static double optMaxTime = 600;
static uint64_t optMaxPaths = 1000000;
static uint64_t optMaxSteps = 20000000;
static unsigned optQueryMs = 60000;
static unsigned optSamples = 64;
static unsigned optMaxErrors = 3;
static std::string optSrcPrefix = "/repo/";
static bool optVerbose = false;

// ---------------------------------------------------------------- z3 layer
static Z3_context Z;
static Z3_solver S;
static uint64_t nQueries = 0, nQuerySat = 0, nQueryUnsat = 0, nQueryUnknown = 0;
static double solverTime = 0;
static uint64_t nAsserts = 0, nAssertQueries = 0;

struct E { // refcounted Z3_ast
  Z3_ast a = nullptr;
  E() {}
  E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  E(const E &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  E(E &&o) noexcept : a(o.a) { o.a = nullptr; }
  E &operator=(const E &o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  E &operator=(E &&o) noexcept { std::swap(a, o.a); return *this; }
  ~E() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a != nullptr; }
};
struct Model {
  Z3_model m;
  Model(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); }
  ~Model() { Z3_model_dec_ref(Z, m); }
};
typedef std::shared_ptr<Model> ModelP;

static void z3err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "sx: z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static std::map<unsigned, Z3_sort> bvSorts;
static Z3_sort bvSort(unsigned w) {
  auto &s = bvSorts[w];
  if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, (Z3_ast)s); }
  return s;
}
static Z3_sort f64Sort, f32Sort;
static E rneE, rtzE;
#define RNE (rneE.a)
#define RTZ (rtzE.a)

// width 1 values are Bool-sorted; all the others are bit-vectors
struct Val {
  uint64_t c = 0;
  E e;
  uint16_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  bool conc() const { return !e; }
};
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
static Val C(uint64_t v, unsigned w) { Val r; r.w = w; r.c = v & maskw(w); return r; }
static E num(uint64_t v, unsigned w) {
  if (w == 1) return E(v & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z));
  return E(Z3_mk_unsigned_int64(Z, v & maskw(w), bvSort(w)));
}
static E toE(const Val &v) { return v.e ? v.e : num(v.c, v.w); }
static Val fromE(E e, unsigned w) {
  Val r; r.w = w;
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, e.a);
    if (b == Z3_L_TRUE) { r.c = 1; return r; }
    if (b == Z3_L_FALSE) { r.c = 0; return r; }
  } else if (w <= 64 && Z3_get_ast_kind(Z, e.a) == Z3_NUMERAL_AST) {
    uint64_t u;
    if (Z3_get_numeral_uint64(Z, e.a, &u)) { r.c = u; return r; }
  }
  r.e = e;
  return r;
}
static std::unordered_map<Z3_ast, std::pair<E, E>> simpMemo; // hash-consed terms: same address, same term
static E simp(const E &e) {
  auto it = simpMemo.find(e.a);
  if (it != simpMemo.end()) return it->second.second;
  E r(Z3_simplify(Z, e.a));
  if (simpMemo.size() > 300000) simpMemo.clear();
  simpMemo.emplace(e.a, std::make_pair(e, r));
  return r;
}
static Val mkv(Z3_ast a, unsigned w) { return fromE(simp(E(a)), w); }
static E bnot(const E &e) { return simp(E(Z3_mk_not(Z, e.a))); }

// ---------------------------------------------------------------- program
struct KFunction;
struct KInst {
  const Instruction *I;
  int dest = -1;
  unsigned w = 0;         // result width (bits) for scalars
  std::vector<int> ops;   // >=0 register, <0: constant -(i+1)
  uint64_t imm = 0;       // GEP constant offset / access size
  std::vector<std::pair<int, uint64_t>> idx; // GEP variable indices (op index, scale)
};
struct KFunction {
  Function *F;
  bool inRepo = false;
  unsigned nregs = 0;
  std::vector<KInst> insts;
  std::unordered_map<const BasicBlock *, unsigned> bbStart;
  std::unordered_map<const Value *, int> regOf;
  std::vector<Val> consts;
  unsigned id;
};

static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, std::unique_ptr<KFunction>> kfs;
static std::unordered_map<uint64_t, Function *> fnByAddr;
static std::unordered_map<const Function *, uint64_t> addrOfFn;
static std::unordered_map<const GlobalVariable *, uint64_t> addrOfGV;
static std::set<std::string> executedFns;
static std::unordered_set<const Function *> executedSet;
static std::set<std::string> externCalled;

struct SymCell { E e; uint16_t idx = 0; }; // byte idx of e (e of width 8*k)
struct Obj {
  uint64_t base = 0, size = 0;
  enum Kind { HEAP, STACK, GLOBAL } kind = HEAP;
  bool freed = false, ro = false;
  std::vector<uint8_t> b;
  std::vector<SymCell> s; // empty when fully concrete
  const Instruction *freedAt = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;
static std::map<uint64_t, ObjP> globalsRO; // immutable, shared by all states

struct Frame {
  KFunction *kf;
  std::vector<Val> regs;
  unsigned pc = 0;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  std::vector<uint64_t> allocas;
  const KInst *call = nullptr; // call instruction in the caller
  std::vector<uint64_t> vaObj; // varargs area
  uint64_t va = 0;
};
struct Input { std::string name; unsigned w; E e; };
struct Obs { std::string label; Val v; std::string str; bool isStr; };
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  uint64_t brk = 0x100000000ull;
  std::vector<E> pc;
  std::vector<Z3_ast> pcSorted; // same constraints, by address
  ModelP model;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::map<Z3_ast, E> intVal; // doubles known (on this path) to equal a small integer exactly
  uint64_t steps = 0, liveHeap = 0;
  unsigned nsym = 0;
  uint64_t pick = 0; // pending choice of a state forked at sx_pick
};
typedef std::unique_ptr<State> StateP;
static std::vector<StateP> work;

// ---------------------------------------------------------------- results
struct ErrRec { std::string kind, msg, where; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::string> obs; std::string stack; };
static std::vector<ErrRec> errors;
static std::set<std::string> errKeys;
struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::string> obs; };
static std::vector<Sample> samples;
static std::map<std::string, uint64_t> reach;
static uint64_t nPaths = 0, nKilled = 0, nForks = 0, nInst = 0, nErrPaths = 0;
static double tStart;
static bool incomplete = false;
static std::string incompleteWhy;
static void markIncomplete(const std::string &w) {
  incomplete = true;
  if (incompleteWhy.find(w) == std::string::npos) incompleteWhy += (incompleteWhy.empty() ? "" : "; ") + w;
}

// ---------------------------------------------------------------- solver
static std::vector<E> asserted; // mirrors solver stack
static void syncSolver(const std::vector<E> &pc) {
  size_t k = 0;
  while (k < asserted.size() && k < pc.size() && asserted[k].a == pc[k].a) k++;
  if (asserted.size() > k) {
    Z3_solver_pop(Z, S, asserted.size() - k);
    asserted.resize(k);
  }
  for (; k < pc.size(); k++) {
    Z3_solver_push(Z, S);
    Z3_solver_assert(Z, S, pc[k].a);
    asserted.push_back(pc[k]);
  }
}
enum Sat { UNSAT, SAT, UNKNOWN };
// free constants of an expression, as sorted ids (memoised; the expression is kept alive)
struct VarSet { E keep; std::vector<Z3_ast> v; };
static std::unordered_map<Z3_ast, VarSet> varMemo;
static const std::vector<Z3_ast> &varsOf(Z3_ast a) {
  auto it = varMemo.find(a);
  if (it != varMemo.end()) return it->second.v;
  std::vector<Z3_ast> r;
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app app = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, app);
    if (n == 0) {
      if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app)) == Z3_OP_UNINTERPRETED) r.push_back(a);
    } else {
      for (unsigned i = 0; i < n; i++) {
        const std::vector<Z3_ast> &c = varsOf(Z3_get_app_arg(Z, app, i));
        std::vector<Z3_ast> t;
        std::set_union(r.begin(), r.end(), c.begin(), c.end(), std::back_inserter(t));
        r.swap(t);
      }
    }
  }
  VarSet &vs = varMemo[a];
  vs.keep = E(a); vs.v = r;
  return vs.v;
}
static bool meets(const std::vector<Z3_ast> &a, const std::vector<Z3_ast> &b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; }
  return false;
}
// the part of a (satisfiable) path condition that shares variables with an expression, transitively
static std::vector<Z3_ast> sliceFor(const std::vector<E> &pc, Z3_ast e, std::vector<Z3_ast> &vs) {
  vs = varsOf(e);
  std::vector<char> in(pc.size(), 0);
  std::vector<Z3_ast> out;
  bool more = true;
  while (more) {
    more = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      const std::vector<Z3_ast> &c = varsOf(pc[i].a);
      if (!meets(vs, c)) continue;
      in[i] = 1; out.push_back(pc[i].a);
      std::vector<Z3_ast> t;
      std::set_union(vs.begin(), vs.end(), c.begin(), c.end(), std::back_inserter(t));
      if (t.size() != vs.size()) more = true;
      vs.swap(t);
    }
  }
  return out;
}
static std::unordered_map<Z3_ast, std::vector<std::vector<Z3_ast>>> unsatCache; // extra -> slices
static Z3_solver T;
static bool useT = true;
static unsigned nTlits = 0;
static std::unordered_map<Z3_ast, E> litOf; // constraint -> assumption literal
static std::unordered_map<Z3_ast, Z3_ast> ofLit;
static void newT() {
  if (T) Z3_solver_dec_ref(Z, T);
  T = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
  Z3_solver_inc_ref(Z, T);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 200);
  Z3_solver_set_params(Z, T, p); Z3_params_dec_ref(Z, p);
  litOf.clear(); ofLit.clear(); nTlits = 0;
}
static Z3_ast litFor(Z3_ast c) {
  auto it = litOf.find(c);
  if (it != litOf.end()) return it->second.a;
  varsOf(c); // keeps it alive
  E l(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("!a" + std::to_string(nTlits++)).c_str()), Z3_mk_bool_sort(Z)));
  E imp(Z3_mk_implies(Z, l.a, c));
  Z3_solver_assert(Z, T, imp.a);
  litOf[c] = l; ofLit[l.a] = c;
  return l.a;
}
static Sat checkT(const std::vector<Z3_ast> &slice, Z3_ast extra, std::vector<Z3_ast> &core, ModelP &mod) {
  if (!T || nTlits > 400) newT();
  std::vector<Z3_ast> as;
  for (Z3_ast c : slice) as.push_back(litFor(c));
  Z3_ast el = litFor(extra);
  as.push_back(el);
  Z3_lbool r = Z3_solver_check_assumptions(Z, T, as.size(), as.data());
  if (r == Z3_L_UNDEF) return UNKNOWN;
  if (r == Z3_L_TRUE) { mod = std::make_shared<Model>(Z3_solver_get_model(Z, T)); return SAT; }
  Z3_ast_vector v = Z3_solver_get_unsat_core(Z, T);
  Z3_ast_vector_inc_ref(Z, v);
  for (unsigned i = 0; i < Z3_ast_vector_size(Z, v); i++) {
    Z3_ast l = Z3_ast_vector_get(Z, v, i);
    if (l != el) core.push_back(ofLit[l]);
  }
  Z3_ast_vector_dec_ref(Z, v);
  return UNSAT;
}
struct VecHash { size_t operator()(const std::vector<Z3_ast> &v) const { size_t h = v.size(); for (auto a : v) h = (h ^ (size_t)a >> 3) * 0x9E3779B97F4A7C15ull; return h; } };
static std::unordered_map<std::vector<Z3_ast>, ModelP, VecHash> satCache;
// values of the slice's variables from its own model, of all others from the former model
static ModelP mergeModels(const ModelP &old, const ModelP &sl, const std::vector<Z3_ast> &sliceVars, const std::vector<E> &pc) {
  Z3_model m = Z3_mk_model(Z);
  ModelP r = std::make_shared<Model>(m);
  auto put = [&](Z3_ast v, const ModelP &from) {
    Z3_ast x;
    if (!Z3_model_eval(Z, from->m, v, true, &x)) return;
    E k(x);
    Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, v)), k.a);
  };
  for (Z3_ast v : sliceVars) put(v, sl);
  std::set<Z3_ast> done(sliceVars.begin(), sliceVars.end());
  for (auto &c : pc) for (Z3_ast v : varsOf(c.a)) if (done.insert(v).second) put(v, old);
  return r;
}
static uint64_t nCacheHits = 0, nHard = 0;
static double hardTime = 0;
static double slowAt = 2;
static std::string stackOf(State &st);
static Sat check_(State &st, const E *extra, ModelP *mod) {
  double t0 = now();
  std::vector<Z3_ast> slice, sliceVars;
  nQueries++;
  if (extra) {
    auto it = unsatCache.find(extra->a);
    if (it != unsatCache.end())
      for (auto &s : it->second)
        if (std::includes(st.pcSorted.begin(), st.pcSorted.end(), s.begin(), s.end())) {
          nCacheHits++; nQueryUnsat++;
          solverTime += now() - t0;
          return UNSAT;
        }
    slice = sliceFor(st.pc, extra->a, sliceVars);
    std::sort(slice.begin(), slice.end());
  }
  // assumption solver over the slice: yields small unsatisfiable cores, which are cached
  if (extra && useT) {
    std::vector<Z3_ast> core;
    std::vector<Z3_ast> key = slice;
    key.push_back(extra->a);
    auto sc = satCache.find(key);
    ModelP tm;
    Sat tr = UNKNOWN;
    if (sc != satCache.end()) { tr = SAT; tm = sc->second; nCacheHits++; }
    else tr = checkT(slice, extra->a, core, tm);
    if (tr == SAT && (st.model || !mod)) {
      if (sc == satCache.end()) { if (satCache.size() > 100000) satCache.clear(); satCache[key] = tm; varsOf(extra->a); }
      if (mod) *mod = mergeModels(st.model, tm, sliceVars, st.pc);
      nQuerySat++;
      solverTime += now() - t0;
      return SAT;
    }
    if (tr == UNSAT) {
      if (core.size()) { std::sort(core.begin(), core.end()); }
      unsatCache[extra->a].push_back(core);
      nQueryUnsat++;
      solverTime += now() - t0;
      return UNSAT;
    }
  }
  syncSolver(st.pc);
  if (extra) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, extra->a); }
  Z3_lbool r = Z3_solver_check(Z, S);
  Sat res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && mod) *mod = std::make_shared<Model>(Z3_solver_get_model(Z, S));
  if (extra) Z3_solver_pop(Z, S, 1);
  if (res == UNKNOWN) {
    // fresh, non-incremental solver (bit-blasting tactic); only the relevant slice
    double t1 = now();
    nHard++;
    auto fresh = [&](bool all) {
      Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
      Z3_solver_inc_ref(Z, s2);
      Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
      Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), optQueryMs);
      Z3_solver_set_params(Z, s2, p); Z3_params_dec_ref(Z, p);
      if (all) for (auto &x : st.pc) Z3_solver_assert(Z, s2, x.a);
      else for (auto &x : slice) Z3_solver_assert(Z, s2, x);
      if (extra) Z3_solver_assert(Z, s2, extra->a);
      r = Z3_solver_check(Z, s2);
      res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (res == SAT && mod) *mod = std::make_shared<Model>(Z3_solver_get_model(Z, s2));
      Z3_solver_dec_ref(Z, s2);
    };
    bool sliced = extra && slice.size() < st.pc.size();
    fresh(!sliced);
    if (sliced && res == SAT && mod) fresh(true); // a model of the whole path condition
    hardTime += now() - t1;
  }
  double dt = now() - t0;
  solverTime += dt;
  if (res == UNSAT && extra) {
    E keep(extra->a);
    varsOf(extra->a);
    unsatCache[extra->a].push_back(slice);
  }
  if (res == SAT) nQuerySat++; else if (res == UNSAT) nQueryUnsat++;
  else { nQueryUnknown++; markIncomplete("solver gave no answer to a query"); }
  return res;
}
static Sat check(State &st, const E *extra, ModelP *mod) {
  double t0 = now();
  Sat res = check_(st, extra, mod);
  double dt = now() - t0;
  if (optVerbose && dt > slowAt) fprintf(stderr, "sx: slow query %.3fs res=%d at %s: %.*s\n", dt, res, st.st.empty() ? "" : stackOf(st).c_str(), getenv("SX_LEN") ? atoi(getenv("SX_LEN")) : 160, (getenv("SX_SLOW") && extra) ? Z3_ast_to_string(Z, extra->a) : "");
  return res;
}
static bool evalBool(ModelP &m, const E &e, bool &out) {
  Z3_ast r;
  if (!Z3_model_eval(Z, m->m, e.a, true, &r)) return false;
  E k(r);
  Z3_lbool b = Z3_get_bool_value(Z, k.a);
  if (b == Z3_L_UNDEF) { k = simp(k); b = Z3_get_bool_value(Z, k.a); }
  if (b == Z3_L_UNDEF) return false;
  out = b == Z3_L_TRUE;
  return true;
}
static bool evalU64(ModelP &m, const E &e, uint64_t &out) {
  Z3_ast r;
  if (!Z3_model_eval(Z, m->m, e.a, true, &r)) return false;
  E k(r);
  if (Z3_get_ast_kind(Z, k.a) != Z3_NUMERAL_AST) k = simp(k);
  if (Z3_get_ast_kind(Z, k.a) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(Z, k.a, &out);
}
static bool ensureModel(State &st) {
  if (st.model) return true;
  ModelP m;
  Sat r = check(st, nullptr, &m);
  if (r != SAT) return false;
  st.model = m;
  return true;
}
static void addPC(State &st, const E &e) {
  if (Z3_get_bool_value(Z, e.a) == Z3_L_TRUE) return;
  st.pc.push_back(e);
  st.pcSorted.insert(std::lower_bound(st.pcSorted.begin(), st.pcSorted.end(), e.a), e.a);
}

struct PathEnd { int kind; }; // 0 done, 1 killed, 2 error
[[noreturn]] static void endPath(int k) { throw PathEnd{k}; }

static std::string locOf(const Instruction *I) {
  std::string s = I->getFunction()->getName().str();
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *l = d.get();
    // the source function the line belongs to
    if (auto *sp = l->getScope()->getSubprogram()) s = sp->getName().str();
    s += " (" + l->getFilename().str() + ":" + std::to_string(l->getLine()) + ")";
  }
  return s;
}
static std::string stackOf(State &st) {
  std::string s;
  for (int i = (int)st.st.size() - 1; i >= 0; i--) {
    Frame &f = st.st[i];
    unsigned pc = f.pc;
    if (pc >= f.kf->insts.size()) pc = f.kf->insts.size() - 1;
    s += (s.empty() ? "" : " <- ") + locOf(f.kf->insts[pc].I);
  }
  return s;
}
static bool solveInputs(State &st, std::vector<std::pair<std::string, uint64_t>> &out, std::vector<std::string> &obs) {
  if (!ensureModel(st)) return false;
  for (auto &i : st.inputs) {
    uint64_t v = 0;
    if (!evalU64(st.model, i.e, v)) return false;
    out.push_back({i.name, v});
  }
  for (auto &o : st.obs) {
    if (o.isStr) { obs.push_back(o.label + "=" + o.str); continue; }
    uint64_t v = o.v.c;
    if (o.v.e) {
      if (o.v.w == 1) { bool b; if (!evalBool(st.model, o.v.e, b)) return false; v = b; }
      else if (!evalU64(st.model, o.v.e, v)) return false;
    }
    obs.push_back(o.label + "=" + std::to_string(v));
  }
  return true;
}
static void report(State &st, const std::string &kind, const std::string &msg, ModelP withModel = nullptr) {
  std::string where = locOf(st.st.back().kf->insts[std::min<size_t>(st.st.back().pc, st.st.back().kf->insts.size() - 1)].I);
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : where);
  nErrPaths++;
  if (errKeys.count(key) || errors.size() >= optMaxErrors) return;
  ErrRec e;
  e.kind = kind; e.msg = msg; e.where = where; e.stack = stackOf(st);
  ModelP save = st.model;
  if (withModel) st.model = withModel;
  if (!solveInputs(st, e.inputs, e.obs)) { e.msg += " (no model)"; }
  st.model = save;
  errKeys.insert(key);
  errors.push_back(e);
}
[[noreturn]] static void fail(State &st, const std::string &kind, const std::string &msg) {
  report(st, kind, msg);
  endPath(2);
}

// Decide a condition; forks when both sides are feasible. Current state follows `true`
// unless only `false` is feasible. The forked state re-executes the current instruction
// with the negation in its path condition (redo=true).
static StateP forkState(State &st) {
  nForks++;
  return std::make_unique<State>(st);
}
// feasibility of both sides. returns bit0: true feasible, bit1: false feasible; models filled
static int decide(State &st, const E &cond, ModelP &mt, ModelP &mf) {
  Z3_lbool k = Z3_get_bool_value(Z, cond.a);
  if (k == Z3_L_TRUE) return 1;
  if (k == Z3_L_FALSE) return 2;
  E neg = bnot(cond);
  bool v;
  if (ensureModel(st) && evalBool(st.model, cond, v)) {
    if (v) {
      mt = st.model;
      Sat r = check(st, &neg, &mf);
      return r == UNSAT ? 1 : 3;
    } else {
      mf = st.model;
      Sat r = check(st, &cond, &mt);
      return r == UNSAT ? 2 : 3;
    }
  }
  Sat rt = check(st, &cond, &mt), rf = check(st, &neg, &mf);
  return (rt != UNSAT ? 1 : 0) | (rf != UNSAT ? 2 : 0);
}
// Force a boolean to a concrete value, forking the other side so that it
// re-executes the current instruction.
static bool forceBool(State &st, const E &cond) {
  ModelP mt, mf;
  int d = decide(st, cond, mt, mf);
  if (d == 0) endPath(1);
  if (d == 1) return true;
  if (d == 2) return false;
  StateP o = forkState(st);
  addPC(*o, bnot(cond)); o->model = mf;
  work.push_back(std::move(o));
  addPC(st, cond); st.model = mt;
  return true;
}
static uint64_t concretize(State &st, const Val &v) {
  if (v.conc()) return v.c;
  if (v.w == 1) return forceBool(st, v.e) ? 1 : 0;
  if (!ensureModel(st)) { markIncomplete("no model"); endPath(1); }
  uint64_t x;
  if (!evalU64(st.model, v.e, x)) { markIncomplete("model evaluation"); endPath(1); }
  E eq = simp(E(Z3_mk_eq(Z, v.e.a, num(x, v.w).a)));
  if (Z3_get_bool_value(Z, eq.a) == Z3_L_TRUE) return x;
  E ne = bnot(eq);
  ModelP m2;
  Sat r = check(st, &ne, &m2);
  if (r != UNSAT) {
    StateP o = forkState(st);
    addPC(*o, ne); o->model = m2;
    work.push_back(std::move(o));
    addPC(st, eq);
  }
  return x;
}

// ---------------------------------------------------------------- memory
static ObjP *findObj(State &st, uint64_t a) {
  auto it = st.mem.upper_bound(a);
  if (it != st.mem.begin()) {
    --it;
    Obj &o = *it->second;
    if (a >= o.base && a - o.base <= o.size) return &it->second;
  }
  auto g = globalsRO.upper_bound(a);
  if (g != globalsRO.begin()) {
    --g;
    Obj &o = *g->second;
    if (a >= o.base && a - o.base <= o.size) return &g->second;
  }
  return nullptr;
}
static ObjP *access(State &st, uint64_t a, uint64_t n, bool write, const char *what) {
  if (a < 4096) fail(st, "memory", std::string("NULL pointer ") + what);
  ObjP *o = findObj(st, a);
  if (!o) fail(st, "memory", std::string("invalid pointer ") + what);
  Obj &ob = **o;
  if (ob.freed) fail(st, "memory", std::string("use after free: ") + what);
  if (a - ob.base + n > ob.size) fail(st, "memory", std::string("out of bounds ") + what);
  if (write) {
    if (ob.ro) fail(st, "memory", std::string("write to read-only memory"));
    if (o->use_count() > 1) *o = std::make_shared<Obj>(ob);
  }
  return o;
}
static uint64_t newObj(State &st, uint64_t size, Obj::Kind k, uint8_t fill) {
  auto o = std::make_shared<Obj>();
  o->base = st.brk; o->size = size; o->kind = k;
  o->b.assign(size, fill);
  st.brk += ((size + 15) & ~15ull) + 48;
  uint64_t b = o->base;
  st.mem[b] = o;
  return b;
}
static void writeByteSym(Obj &o, uint64_t off, const E &e, unsigned idx) {
  if (o.s.empty()) o.s.resize(o.size);
  o.s[off].e = e; o.s[off].idx = idx;
}
static void storeVal(State &st, uint64_t a, const Val &v0, unsigned bytes) {
  ObjP *p = access(st, a, bytes, true, "write");
  Obj &o = **p;
  uint64_t off = a - o.base;
  Val v = v0;
  if (v.conc()) {
    for (unsigned i = 0; i < bytes; i++) o.b[off + i] = i < 8 ? (v.c >> (8 * i)) & 0xff : 0;
    if (!o.s.empty()) for (unsigned i = 0; i < bytes; i++) o.s[off + i].e = E();
    return;
  }
  E e = v.e;
  if (v.w == 1) e = E(Z3_mk_ite(Z, v.e.a, num(1, 8 * bytes).a, num(0, 8 * bytes).a));
  else if (v.w < 8 * bytes) e = E(Z3_mk_zero_ext(Z, 8 * bytes - v.w, v.e.a));
  for (unsigned i = 0; i < bytes; i++) writeByteSym(o, off + i, e, i);
}
static E cellByte(const SymCell &c) {
  unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, c.e.a));
  if (w == 8) return c.e;
  return simp(E(Z3_mk_extract(Z, c.idx * 8 + 7, c.idx * 8, c.e.a)));
}
static Val loadVal(State &st, uint64_t a, unsigned bytes, unsigned w) {
  ObjP *p = access(st, a, bytes, false, "read");
  Obj &o = **p;
  uint64_t off = a - o.base;
  bool sym = false;
  if (!o.s.empty()) for (unsigned i = 0; i < bytes; i++) if (o.s[off + i].e) { sym = true; break; }
  if (!sym) {
    uint64_t v = 0;
    for (unsigned i = 0; i < bytes && i < 8; i++) v |= (uint64_t)o.b[off + i] << (8 * i);
    return C(v, w);
  }
  // whole value?
  const SymCell &c0 = o.s[off];
  bool whole = (bool)c0.e && c0.idx == 0 && Z3_get_bv_sort_size(Z, Z3_get_sort(Z, c0.e.a)) == 8 * bytes;
  for (unsigned i = 1; whole && i < bytes; i++) whole = o.s[off + i].e && o.s[off + i].e.a == c0.e.a && o.s[off + i].idx == i;
  E e;
  if (whole) e = c0.e;
  else {
    for (unsigned i = 0; i < bytes; i++) {
      E by = o.s[off + i].e ? cellByte(o.s[off + i]) : num(o.b[off + i], 8);
      e = e ? E(Z3_mk_concat(Z, by.a, e.a)) : by;
    }
    e = simp(e);
  }
  if (w < 8 * bytes) return mkv(Z3_mk_extract(Z, w - 1, 0, e.a), w);
  return fromE(e, w);
}
static Val loadBool(State &st, uint64_t a) {
  Val v = loadVal(st, a, 1, 8);
  if (v.conc()) return C(v.c & 1, 1);
  E low(Z3_mk_extract(Z, 0, 0, v.e.a));
  E one(Z3_mk_unsigned_int64(Z, 1, bvSort(1)));
  return mkv(Z3_mk_eq(Z, low.a, one.a), 1);
}
static void copyMem(State &st, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  ObjP so = *access(st, s, n, false, "read (memcpy source)");
  ObjP *dp = access(st, d, n, true, "write (memcpy destination)");
  Obj &dst = **dp;
  const Obj *src = so.get();
  if (so->base == dst.base) src = &dst; // same object (may just have been cloned)
  uint64_t so_ = s - src->base, do_ = d - dst.base;
  std::vector<uint8_t> tb(src->b.begin() + so_, src->b.begin() + so_ + n);
  std::vector<SymCell> ts;
  if (!src->s.empty()) ts.assign(src->s.begin() + so_, src->s.begin() + so_ + n);
  std::copy(tb.begin(), tb.end(), dst.b.begin() + do_);
  if (!ts.empty()) {
    if (dst.s.empty()) dst.s.resize(dst.size);
    for (uint64_t i = 0; i < n; i++) dst.s[do_ + i] = ts[i];
  } else if (!dst.s.empty())
    for (uint64_t i = 0; i < n; i++) dst.s[do_ + i].e = E();
}
// concrete NUL-terminated string at a, or false if a symbolic byte comes first
static bool concStr(State &st, uint64_t a, std::string &out, uint64_t max = ~0ull) {
  out.clear();
  if (max == 0) return true;
  ObjP *p = access(st, a, 1, false, "read (string)");
  Obj &o = **p;
  for (uint64_t off = a - o.base; ; off++) {
    if (off >= o.size) fail(st, "memory", "out of bounds read (string not terminated)");
    if (!o.s.empty() && o.s[off].e) return false;
    if (!o.b[off]) return true;
    out.push_back(o.b[off]);
    if (out.size() >= max) return true;
  }
}

// ---------------------------------------------------------------- constants
static unsigned widthOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static Val constVal(const Constant *c);
static uint64_t constAddr(const Constant *c) { return constVal(c).c; }
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      Val r; r.w = ci->getBitWidth();
      SmallString<64> s; ci->getValue().toStringUnsigned(s);
      r.e = E(Z3_mk_numeral(Z, s.c_str(), bvSort(r.w)));
      return r;
    }
    return C(ci->getZExtValue(), ci->getBitWidth());
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return C(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t));
  if (isa<ConstantPointerNull>(c)) return C(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (t->isStructTy() || t->isArrayTy()) {
      Val r; r.agg = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(c->getAggregateElement(i)));
      return r;
    }
    return C(0, widthOf(t));
  }
  if (auto *f = dyn_cast<Function>(c)) return C(addrOfFn[f], 64);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return C(addrOfGV[g], 64);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "sx: const gep\n"; abort(); }
      return C(constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue(), 64);
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::Trunc: case Instruction::AddrSpaceCast: {
      Val v = constVal(ce->getOperand(0));
      return C(v.c, widthOf(t));
    }
    case Instruction::Sub: return C(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, widthOf(t));
    case Instruction::Add: return C(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, widthOf(t));
    case Instruction::ICmp: {
      uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
      switch (cast<ConstantExpr>(ce)->getPredicate()) {
      case CmpInst::ICMP_EQ: return C(a == b, 1);
      case CmpInst::ICMP_NE: return C(a != b, 1);
      default: break;
      }
    }
    default: break;
    }
    errs() << "sx: unsupported constant expression " << *c << "\n"; abort();
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(c->getAggregateElement(i)));
    return r;
  }
  errs() << "sx: unsupported constant " << *c << "\n"; abort();
}
static void initMem(uint8_t *p, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cds->getRawDataValues();
    memcpy(p, r.data(), r.size());
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(p + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(p + i * es, ca->getOperand(i));
    return;
  }
  Val v = constVal(c);
  unsigned n = DL->getTypeStoreSize(t);
  for (unsigned i = 0; i < n && i < 8; i++) p[i] = (v.c >> (8 * i)) & 0xff;
}

// ---------------------------------------------------------------- lowering
static KFunction *getKF(Function *F) {
  auto &slot = kfs[F];
  if (slot) return slot.get();
  slot = std::make_unique<KFunction>();
  KFunction *k = slot.get();
  k->F = F;
  if (auto *sp = F->getSubprogram()) {
    std::string fn = sp->getFilename().str();
    if (fn.size() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
    k->inRepo = fn.compare(0, optSrcPrefix.size(), optSrcPrefix) == 0;
  }
  int r = 0;
  for (auto &a : F->args()) k->regOf[&a] = r++;
  unsigned n = 0;
  for (auto &bb : *F) {
    k->bbStart[&bb] = n;
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (!I.getType()->isVoidTy()) k->regOf[&I] = r++;
      n++;
    }
  }
  k->nregs = r;
  std::unordered_map<const Constant *, int> cidx;
  auto op = [&](const Value *v) -> int {
    auto it = k->regOf.find(v);
    if (it != k->regOf.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto j = cidx.find(c);
      if (j != cidx.end()) return -(j->second + 1);
      k->consts.push_back(constVal(c));
      cidx[c] = k->consts.size() - 1;
      return -(int)k->consts.size();
    }
    return INT32_MIN; // basic blocks, metadata, inline asm
  };
  for (auto &bb : *F)
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki;
      ki.I = &I;
      if (!I.getType()->isVoidTy()) { ki.dest = k->regOf[&I]; ki.w = widthOf(I.getType()); }
      if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(op(gep->getPointerOperand()));
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          const Value *ix = gi.getOperand();
          if (StructType *sty = gi.getStructTypeOrNull()) {
            ki.imm += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) ki.imm += ci->getSExtValue() * sz;
            else { ki.idx.push_back({op(ix), sz}); }
          }
        }
      } else if (auto *ph = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) ki.ops.push_back(op(ph->getIncomingValue(i)));
      } else {
        for (auto &u : I.operands()) {
          if (isa<MetadataAsValue>(u.get())) { ki.ops.push_back(INT32_MIN); continue; }
          ki.ops.push_back(op(u.get()));
        }
      }
      k->insts.push_back(std::move(ki));
    }
  return k;
}

// ---------------------------------------------------------------- arithmetic
static Val binop(State &st, unsigned opc, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = sxt(x, w), sy = sxt(y, w);
    switch (opc) {
    case Instruction::Add: return C(x + y, w);
    case Instruction::Sub: return C(x - y, w);
    case Instruction::Mul: return C(x * y, w);
    case Instruction::UDiv: if (!y) fail(st, "arith", "division by zero"); return C(x / y, w);
    case Instruction::URem: if (!y) fail(st, "arith", "division by zero"); return C(x % y, w);
    case Instruction::SDiv: if (!y) fail(st, "arith", "division by zero");
      if (sy == -1) return C(-x, w); return C(sx / sy, w);
    case Instruction::SRem: if (!y) fail(st, "arith", "division by zero");
      if (sy == -1) return C(0, w); return C(sx % sy, w);
    case Instruction::And: return C(x & y, w);
    case Instruction::Or: return C(x | y, w);
    case Instruction::Xor: return C(x ^ y, w);
    case Instruction::Shl: return C(y >= w ? 0 : x << y, w);
    case Instruction::LShr: return C(y >= w ? 0 : x >> y, w);
    case Instruction::AShr: return C(y >= w ? (sx < 0 ? -1 : 0) : sx >> y, w);
    }
  }
  E x = toE(a), y = toE(b);
  if (w == 1) {
    Z3_ast ar[2] = {x.a, y.a};
    switch (opc) {
    case Instruction::And: case Instruction::Mul: return mkv(Z3_mk_and(Z, 2, ar), 1);
    case Instruction::Or: return mkv(Z3_mk_or(Z, 2, ar), 1);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkv(Z3_mk_xor(Z, ar[0], ar[1]), 1);
    default: errs() << "sx: i1 op\n"; abort();
    }
  }
  if (opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) {
    E z = simp(E(Z3_mk_eq(Z, y.a, num(0, w).a)));
    if (forceBool(st, z)) fail(st, "arith", "division by zero");
  }
  switch (opc) {
  case Instruction::Add: return mkv(Z3_mk_bvadd(Z, x.a, y.a), w);
  case Instruction::Sub: return mkv(Z3_mk_bvsub(Z, x.a, y.a), w);
  case Instruction::Mul: return mkv(Z3_mk_bvmul(Z, x.a, y.a), w);
  case Instruction::UDiv: return mkv(Z3_mk_bvudiv(Z, x.a, y.a), w);
  case Instruction::URem: return mkv(Z3_mk_bvurem(Z, x.a, y.a), w);
  case Instruction::SDiv: return mkv(Z3_mk_bvsdiv(Z, x.a, y.a), w);
  case Instruction::SRem: return mkv(Z3_mk_bvsrem(Z, x.a, y.a), w);
  case Instruction::And: return mkv(Z3_mk_bvand(Z, x.a, y.a), w);
  case Instruction::Or: return mkv(Z3_mk_bvor(Z, x.a, y.a), w);
  case Instruction::Xor: return mkv(Z3_mk_bvxor(Z, x.a, y.a), w);
  case Instruction::Shl: return mkv(Z3_mk_bvshl(Z, x.a, y.a), w);
  case Instruction::LShr: return mkv(Z3_mk_bvlshr(Z, x.a, y.a), w);
  case Instruction::AShr: return mkv(Z3_mk_bvashr(Z, x.a, y.a), w);
  }
  abort();
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = sxt(x, w), sy = sxt(y, w);
    bool r = false;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break;
    case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break;
    case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break;
    case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = sx > sy; break;
    case CmpInst::ICMP_SGE: r = sx >= sy; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break;
    case CmpInst::ICMP_SLE: r = sx <= sy; break;
    default: abort();
    }
    return C(r, 1);
  }
  E x = toE(a), y = toE(b);
  if (w == 1) {
    if (p == CmpInst::ICMP_EQ) return mkv(Z3_mk_eq(Z, x.a, y.a), 1);
    if (p == CmpInst::ICMP_NE) return mkv(Z3_mk_xor(Z, x.a, y.a), 1);
    x = E(Z3_mk_ite(Z, x.a, num(1, 2).a, num(0, 2).a));
    y = E(Z3_mk_ite(Z, y.a, num(1, 2).a, num(0, 2).a));
    if (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) std::swap(x, y);
  }
  Z3_ast r;
  switch (p) {
  case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x.a, y.a); break;
  case CmpInst::ICMP_NE: r = Z3_mk_not(Z, E(Z3_mk_eq(Z, x.a, y.a)).a); break;
  case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break;
  case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break;
  case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x.a, y.a); break;
  case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x.a, y.a); break;
  case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break;
  case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break;
  case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break;
  case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break;
  default: abort();
  }
  return mkv(r, 1);
}
static double asD(const Val &v) {
  if (v.w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &v.c, 8); return d;
}
static Val fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return C(u, 32); }
  uint64_t u; memcpy(&u, &d, 8); return C(u, 64);
}
static std::vector<E> fpKeep; // keeps annotated terms alive (ids are never reused)
static E toFP(const Val &v) {
  return simp(E(Z3_mk_fpa_to_fp_bv(Z, toE(v).a, v.w == 32 ? f32Sort : f64Sort)));
}
static Val fromFP(Z3_ast a, unsigned w) { E k(a); return mkv(Z3_mk_fpa_to_ieee_bv(Z, k.a), w); }
static bool intView(State &st, const Val &v, E &out);
static bool small53(State &st, const E &i64);
static Val fbin(State &st, unsigned opc, const Val &a, const Val &b) {
  if (a.conc() && b.conc()) {
    double x = asD(a), y = asD(b);
    if (a.w == 32) {
      float fx = x, fy = y;
      switch (opc) {
      case Instruction::FAdd: return fromD(fx + fy, 32);
      case Instruction::FSub: return fromD(fx - fy, 32);
      case Instruction::FMul: return fromD(fx * fy, 32);
      case Instruction::FDiv: return fromD(fx / fy, 32);
      }
    }
    switch (opc) {
    case Instruction::FAdd: return fromD(x + y, 64);
    case Instruction::FSub: return fromD(x - y, 64);
    case Instruction::FMul: return fromD(x * y, 64);
    case Instruction::FDiv: return fromD(x / y, 64);
    case Instruction::FRem: return fromD(fmod(x, y), 64);
    }
  }
  E x = toFP(a), y = toFP(b);
  E ix, iy;
  if ((opc == Instruction::FAdd || opc == Instruction::FSub) && intView(st, a, ix) && intView(st, b, iy)) {
    E i = simp(E(opc == Instruction::FAdd ? Z3_mk_bvadd(Z, ix.a, iy.a) : Z3_mk_bvsub(Z, ix.a, iy.a)));
    if (small53(st, i)) {
      // equal as a number; keep the value as a conversion of the integer (x - x = +0 in round-to-nearest, as (double)0)
      Val r = fromFP(Z3_mk_fpa_to_fp_signed(Z, RNE, i.a, f64Sort), 64);
      if (r.e) st.intVal[r.e.a] = i, fpKeep.push_back(r.e);
      return r;
    }
  }
  switch (opc) {
  case Instruction::FAdd: return fromFP(Z3_mk_fpa_add(Z, RNE, x.a, y.a), a.w);
  case Instruction::FSub: return fromFP(Z3_mk_fpa_sub(Z, RNE, x.a, y.a), a.w);
  case Instruction::FMul: return fromFP(Z3_mk_fpa_mul(Z, RNE, x.a, y.a), a.w);
  case Instruction::FDiv: return fromFP(Z3_mk_fpa_div(Z, RNE, x.a, y.a), a.w);
  }
  errs() << "sx: frem\n"; abort();
}
// exact integer view of a double: every |i| <= 2^53 converts without rounding
static bool provable(State &st, const E &c) {
  Z3_lbool k = Z3_get_bool_value(Z, c.a);
  if (k == Z3_L_TRUE) return true;
  E n = bnot(c);
  return check(st, &n, nullptr) == UNSAT;
}
static bool small53(State &st, const E &i64) {
  E lo = num((uint64_t)-(1ll << 53), 64), hi = num(1ull << 53, 64);
  E c1(Z3_mk_bvsge(Z, i64.a, lo.a)), c2(Z3_mk_bvsle(Z, i64.a, hi.a));
  Z3_ast v[2] = {c1.a, c2.a};
  return provable(st, simp(E(Z3_mk_and(Z, 2, v))));
}
static bool intView(State &st, const Val &v, E &out) {
  if (v.w != 64) return false;
  if (v.conc()) {
    double d; memcpy(&d, &v.c, 8);
    if (!(d >= -9007199254740992.0 && d <= 9007199254740992.0) || d != floor(d)) return false;
    out = num((uint64_t)(int64_t)d, 64);
    return true;
  }
  auto it = st.intVal.find(v.e.a);
  if (it == st.intVal.end()) return false;
  out = it->second;
  return true;
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b);
static bool fcmpInt(State &st, CmpInst::Predicate p, const Val &a, const Val &b, Val &out) {
  E x, y;
  bool ia = intView(st, a, x), ib = intView(st, b, y);
  CmpInst::Predicate q;
  bool uno = false;
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: q = CmpInst::ICMP_EQ; break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: q = CmpInst::ICMP_NE; break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: q = CmpInst::ICMP_SGT; break;
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: q = CmpInst::ICMP_SGE; break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: q = CmpInst::ICMP_SLT; break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: q = CmpInst::ICMP_SLE; break;
  case CmpInst::FCMP_ORD: case CmpInst::FCMP_UNO: if (!(ia && ib)) return false; out = C(p == CmpInst::FCMP_ORD, 1); return true;
  default: return false;
  }
  (void)uno;
  if (ia && ib) { out = icmp(q, fromE(x, 64), fromE(y, 64)); return true; }
  // integer against a concrete non-integral or huge (non-NaN) double
  bool swapd = false;
  double c;
  E i;
  if (ia && b.conc()) { memcpy(&c, &b.c, 8); i = x; }
  else if (ib && a.conc()) { memcpy(&c, &a.c, 8); i = y; swapd = true; }
  else return false;
  if (c != c) return false;
  double fl = floor(c);
  if (fl > 4e18) fl = 4e18;
  if (fl < -4e18) fl = -4e18;
  Val le = icmp(CmpInst::ICMP_SLE, fromE(i, 64), C((uint64_t)(int64_t)fl, 64)); // i < c
  bool lt = q == CmpInst::ICMP_SLT || q == CmpInst::ICMP_SLE, gt = q == CmpInst::ICMP_SGT || q == CmpInst::ICMP_SGE;
  if (q == CmpInst::ICMP_EQ) { out = C(0, 1); return true; }
  if (q == CmpInst::ICMP_NE) { out = C(1, 1); return true; }
  if (swapd) std::swap(lt, gt);
  if (lt) { out = le; return true; }
  out = le.conc() ? C(!le.c, 1) : mkv(Z3_mk_not(Z, le.e.a), 1);
  return true;
}
static Val fcmp(State &st, CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.conc() && b.conc()) {
    double x = asD(a), y = asD(b);
    bool un = x != x || y != y, r = false;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = !un && x == y; break;
    case CmpInst::FCMP_OGT: r = !un && x > y; break;
    case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break;
    case CmpInst::FCMP_OLE: r = !un && x <= y; break;
    case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || x == y; break;
    case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break;
    case CmpInst::FCMP_ULT: r = un || x < y; break;
    case CmpInst::FCMP_ULE: r = un || x <= y; break;
    case CmpInst::FCMP_UNE: r = un || x != y; break;
    case CmpInst::FCMP_TRUE: r = true; break;
    default: r = false;
    }
    return C(r, 1);
  }
  { Val r; if (fcmpInt(st, p, a, b, r)) return r; }
  E x = toFP(a), y = toFP(b);
  Z3_ast nn[2] = {Z3_mk_fpa_is_nan(Z, x.a), nullptr};
  E n0(nn[0]); E n1(Z3_mk_fpa_is_nan(Z, y.a));
  Z3_ast nv[2] = {n0.a, n1.a};
  E un(Z3_mk_or(Z, 2, nv));
  E nun(Z3_mk_not(Z, un.a));
  E r;
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = E(Z3_mk_fpa_eq(Z, x.a, y.a)); break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = E(Z3_mk_fpa_gt(Z, x.a, y.a)); break;
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = E(Z3_mk_fpa_geq(Z, x.a, y.a)); break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = E(Z3_mk_fpa_lt(Z, x.a, y.a)); break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = E(Z3_mk_fpa_leq(Z, x.a, y.a)); break;
  case CmpInst::FCMP_ORD: return mkv(nun.a, 1);
  case CmpInst::FCMP_UNO: return mkv(un.a, 1);
  case CmpInst::FCMP_TRUE: return C(1, 1);
  default: return C(0, 1);
  }
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE:
    return mkv(r.a, 1); // false on NaN in SMT-LIB
  case CmpInst::FCMP_UNE: return mkv(Z3_mk_not(Z, r.a), 1);
  case CmpInst::FCMP_ONE: { E nr(Z3_mk_not(Z, r.a)); Z3_ast v[2] = {nr.a, nun.a}; return mkv(Z3_mk_and(Z, 2, v), 1); }
  default: { Z3_ast v[2] = {r.a, un.a}; return mkv(Z3_mk_or(Z, 2, v), 1); }
  }
}
static Val castop(State &st, unsigned opc, const Val &v, unsigned w) {
  switch (opc) {
  case Instruction::Trunc:
    if (v.conc()) return C(v.c, w);
    if (w == 1) {
      E lo(Z3_mk_extract(Z, 0, 0, v.e.a)); E one(Z3_mk_unsigned_int64(Z, 1, bvSort(1)));
      return mkv(Z3_mk_eq(Z, lo.a, one.a), 1);
    }
    return mkv(Z3_mk_extract(Z, w - 1, 0, v.e.a), w);
  case Instruction::ZExt:
    if (v.conc() && w <= 64) return C(v.c, w);
    if (v.w == 1) return mkv(Z3_mk_ite(Z, toE(v).a, num(1, w).a, num(0, w).a), w);
    return mkv(Z3_mk_zero_ext(Z, w - v.w, toE(v).a), w);
  case Instruction::SExt:
    if (v.conc() && w <= 64) return C(sxt(v.c, v.w), w);
    if (v.w == 1) return mkv(Z3_mk_ite(Z, toE(v).a, num(~0ull, w).a, num(0, w).a), w);
    return mkv(Z3_mk_sign_ext(Z, w - v.w, toE(v).a), w);
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    if (v.w == w) return v;
    if (v.conc()) return C(v.c, w);
    if (w < v.w) return mkv(Z3_mk_extract(Z, w - 1, 0, v.e.a), w);
    return mkv(Z3_mk_zero_ext(Z, w - v.w, v.e.a), w);
  case Instruction::SIToFP:
    if (v.conc()) return w == 32 ? fromD((float)sxt(v.c, v.w), 32) : fromD((double)sxt(v.c, v.w), 64);
    if (w == 64 && v.w >= 8) {
      Val r = fromFP(Z3_mk_fpa_to_fp_signed(Z, RNE, v.e.a, f64Sort), 64);
      E i = v.w == 64 ? v.e : simp(E(Z3_mk_sign_ext(Z, 64 - v.w, v.e.a)));
      if (r.e && small53(st, i)) st.intVal[r.e.a] = i, fpKeep.push_back(r.e);
      return r;
    }
    return fromFP(Z3_mk_fpa_to_fp_signed(Z, RNE, v.w == 1 ? toE(castop(st, Instruction::SExt, v, 8)).a : v.e.a, w == 32 ? f32Sort : f64Sort), w);
  case Instruction::UIToFP:
    if (v.conc()) return w == 32 ? fromD((float)v.c, 32) : fromD((double)v.c, 64);
    return fromFP(Z3_mk_fpa_to_fp_unsigned(Z, RNE, v.w == 1 ? toE(castop(st, Instruction::ZExt, v, 8)).a : v.e.a, w == 32 ? f32Sort : f64Sort), w);
  case Instruction::FPTrunc: case Instruction::FPExt:
    if (v.conc()) return fromD(asD(v), w);
    return fromFP(Z3_mk_fpa_to_fp_float(Z, RNE, toFP(v).a, w == 32 ? f32Sort : f64Sort), w);
  case Instruction::FPToSI: case Instruction::FPToUI: {
    bool sg = opc == Instruction::FPToSI;
    unsigned cw = w <= 32 && sg ? 32 : 64; // x86: cvttsd2si 32/64
    if (v.conc()) {
      double d = asD(v);
      if (cw == 32) { int32_t r = (d > -2147483649.0 && d < 2147483648.0) ? (int32_t)d : INT32_MIN; return C((uint64_t)(int64_t)r, w); }
      if (sg || w < 64) { int64_t r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (int64_t)d : INT64_MIN; return C(r, w); }
      uint64_t r = (d >= 0 && d < 18446744073709551616.0) ? (uint64_t)d : 0x8000000000000000ull; return C(r, w);
    }
    E iv;
    if (w == 64 && sg && intView(st, v, iv)) return fromE(iv, 64);
    if (w == 32 && sg && intView(st, v, iv)) {
      E lo32 = num((uint64_t)(int64_t)INT32_MIN, 64), hi32 = num((uint64_t)INT32_MAX, 64);
      E a1(Z3_mk_bvsge(Z, iv.a, lo32.a)), a2(Z3_mk_bvsle(Z, iv.a, hi32.a));
      Z3_ast ca[2] = {a1.a, a2.a};
      E in(Z3_mk_and(Z, 2, ca)), tr(Z3_mk_extract(Z, 31, 0, iv.a));
      if (provable(st, simp(in))) return mkv(tr.a, 32);
      return mkv(Z3_mk_ite(Z, in.a, tr.a, num(0x80000000ull, 32).a), 32);
    }
    E f = toFP(v);
    double lo = cw == 32 ? -2147483649.0 : -9223372036854775808.0, hi = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
    Z3_sort fs = v.w == 32 ? f32Sort : f64Sort;
    E el(Z3_mk_fpa_numeral_double(Z, lo, fs)), eh(Z3_mk_fpa_numeral_double(Z, hi, fs));
    E c1(cw == 32 ? Z3_mk_fpa_gt(Z, f.a, el.a) : Z3_mk_fpa_geq(Z, f.a, el.a)), c2(Z3_mk_fpa_lt(Z, f.a, eh.a));
    Z3_ast cc[2] = {c1.a, c2.a};
    E in(Z3_mk_and(Z, 2, cc));
    E conv(Z3_mk_fpa_to_sbv(Z, RTZ, f.a, cw));
    E r(Z3_mk_ite(Z, in.a, conv.a, num(1ull << (cw - 1), cw).a));
    if (cw > w) r = E(Z3_mk_extract(Z, w - 1, 0, r.a));
    return mkv(r.a, w);
  }
  }
  errs() << "sx: cast\n"; abort();
}

// ---------------------------------------------------------------- execution
#include "sx_exec.inc"
