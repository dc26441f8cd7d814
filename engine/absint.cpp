// absint -- abstract interpreter over LLVM IR.
//
// Domain: every integer is an affine form  c + sum k_i * v_i  over bounded
// integer variables.  A state constrains its variables by a box (an interval
// for each), by difference constraints (zones) and by affine definitions
// (v := affine form, introduced when a value is divided into digits or when
// two variables are found equal).  States are disjunctive: a comparison that
// the state does not decide partitions it at the threshold of the comparison
// (trace partitioning).  There is no solver and nothing is executed: each
// instruction is given its transfer function on affine forms.
//
// Memory: objects with cells holding abstract values; every access is checked
// for bounds, liveness, initialisation and constness.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/DenseMap.h"
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <algorithm>
#include <chrono>
#include <unistd.h>
using namespace llvm;
typedef __int128 I;
static const I ONE = 1;
static I pw2(unsigned n) { return ONE << n; }
static I fdiv(I a, I b) { I q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static I fmod_(I a, I b) { return a - b * fdiv(a, b); }
static I cdiv(I a, I b) { return -fdiv(-a, b); }
static I igcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static std::string istr(I v) {
  if (v == 0) return "0";
  bool n = v < 0; std::string s; unsigned __int128 u = n ? -(unsigned __int128)v : v;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (n) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
static std::string jesc(const std::string &s) {
  std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}
// ---------------------------------------------------------------- values
struct Term { int v; I k; };
struct Form { I c = 0; std::vector<Term> t; bool isC() const { return t.empty(); } };
static bool operator==(const Form &a, const Form &b) {
  if (a.c != b.c || a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].v != b.t[i].v || a.t[i].k != b.t[i].k) return false;
  return true;
}
static Form fconst(I c) { Form f; f.c = c; return f; }
static Form fadd(const Form &a, const Form &b, I kb = 1) {
  Form r; r.c = a.c + kb * b.c;
  if (b.t.empty()) { r.t = a.t; return r; }
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].v < b.t[j].v)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].v < a.t[i].v) { r.t.push_back({b.t[j].v, kb * b.t[j].k}); j++; }
    else { I k = a.t[i].k + kb * b.t[j].k; if (k != 0) r.t.push_back({a.t[i].v, k}); i++; j++; }
  }
  return r;
}
static Form fscale(const Form &a, I k) { Form r; if (k == 0) return r; r.c = a.c * k; for (auto &x : a.t) r.t.push_back({x.v, x.k * k}); return r; }
struct Val {
  enum K : uint8_t { Undef, Int, Agg, FP } k = Undef;
  uint16_t w = 0;
  Form f;
  double d = 0;
  std::shared_ptr<std::vector<Val>> agg;
};
static Val vint(unsigned w, const Form &f) { Val v; v.k = Val::Int; v.w = w; v.f = f; return v; }
static Val vc(unsigned w, I c) { Val v; v.k = Val::Int; v.w = w; v.f.c = c; return v; }
// ---------------------------------------------------------------- intrusive pointer
template <class T> struct P {
  T *p = nullptr;
  P() {} explicit P(T *x) : p(x) { if (p) p->rc++; }
  P(const P &o) : p(o.p) { if (p) p->rc++; }
  P(P &&o) : p(o.p) { o.p = nullptr; }
  P &operator=(P o) { std::swap(p, o.p); return *this; }
  ~P() { if (p && --p->rc == 0) delete p; }
  T *operator->() const { return p; } T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T &mut() { if (p->rc > 1) { T *n = new T(*p); n->rc = 0; *this = P(n); } return *p; }
};
// ---------------------------------------------------------------- memory
struct Cell { int size; Val v; };
struct Obj {
  int rc = 0;
  Obj() {} Obj(const Obj &o) : rc(0), size(o.size), kind(o.kind), dead(o.dead), ro(o.ro), zero(o.zero), gv(o.gv), name(o.name), cells(o.cells) {}
  int64_t size = 0;
  enum Kind : uint8_t { Global, Stack, Heap, Buf, Func } kind = Heap;
  bool dead = false, ro = false, zero = false;
  const GlobalVariable *gv = nullptr; // lazily read initialiser
  const std::string *name = nullptr; // interned
  std::map<int64_t, Cell> cells;
};
static const std::string *intern(const std::string &n) { static std::set<std::string> pool; return &*pool.insert(n).first; }
static const int OBJ_SHIFT = 40;
static const I HALF = ONE << 39;
static I objBase(int id) { return ((I)id << OBJ_SHIFT) + HALF; }
static int idOf(I a) { return (int)(a >> OBJ_SHIFT); }
static I offOf(I a) { return (a & ((ONE << OBJ_SHIFT) - 1)) - HALF; }
static const DataLayout *DL;
static DenseMap<Type *, int64_t> storeSz, allocSz;
static int64_t storeSize(Type *T) { auto it = storeSz.find(T); if (it != storeSz.end()) return it->second; int64_t v = DL->getTypeStoreSize(T); storeSz[T] = v; return v; }
static int64_t allocSize(Type *T) { auto it = allocSz.find(T); if (it != allocSz.end()) return it->second; int64_t v = DL->getTypeAllocSize(T); allocSz[T] = v; return v; }
// ---------------------------------------------------------------- code
struct FnInfo {
  Function *F; std::string name; bool seen = false;
  DenseMap<const Value *, int> num; int n = 0;
  std::vector<BasicBlock *> bbs; std::unordered_map<const BasicBlock *, int> bbn;
  std::vector<std::vector<Instruction *>> ins;
};
struct Env { int rc = 0; std::vector<Val> v; Env() {} Env(const Env &o) : rc(0), v(o.v) {} };
struct Frame {
  FnInfo *fi; int bb = 0, ip = 0, prev = -1;
  P<Env> env; std::vector<int> allocas; const CallBase *site = nullptr;
  std::vector<Val> varargs;
};
struct Var { I lo, hi; bool def = false; Form d; int root = -1; };
struct Diff { int a, b; I c; }; // v_a - v_b <= c
struct Attr { Form key; int slot; Form val; };
struct Pair { Form a, b; int slot; Form val; };
struct Root { std::string name; Form f; };
struct Chunk { int rc = 0; P<Obj> o[64]; Chunk() {} Chunk(const Chunk &c) : rc(0) { for (int i = 0; i < 64; i++) o[i] = c.o[i]; } };
struct State {
  std::vector<Frame> fr;
  std::vector<P<Chunk>> mem; int nmem = 0; // index = id - NG
  std::map<int, P<Obj>> gmem; // globals that were written
  std::vector<Var> vars;
  std::vector<Diff> diffs;
  std::vector<Attr> attrs; std::vector<Pair> pairs;
  std::vector<Root> roots;
  std::vector<std::pair<std::string,int>> choices;
  std::string imprecise;
  uint64_t steps = 0;
  int depth = 0; bool sliced = false, noAlloc = false;
  int failAlloc = 0; bool failNow = false, failed = false, fine = false; // 1: from some allocation on all fail; 2: one allocation fails
  I exc = 0; int sel = 0; std::vector<I> caught; std::map<int, const GlobalValue *> excType; // the exception under way
};
struct Refine {
  int kind = 0; // 0 range of v; 1 definition of v; 2 diff; 3 nothing; 4 pending choice value
  int v = -1; I lo = 0, hi = 0;
  I M = 0;      // kind 1: v := M*q + r
  Form def;     // kind 5: v := def
  int a = -1, b = -1; I c = 0;
};
struct Split { std::vector<std::vector<Refine>> ch; };
struct Violation { std::string msg; };
struct Stuck { std::string msg; };
struct Killed {};

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static std::vector<P<Obj>> globals; // 1..n
static std::unordered_map<const GlobalValue *, int> gid;
static std::map<int, Function *> fnById;
static std::unordered_map<const Function *, FnInfo *> fninfo;
static int NG; // first dynamic id
static std::set<int> writtenGlobals; static std::map<int, GlobalVariable *> gvById; static std::string warmFn;
static std::map<std::string, uint64_t> covers;
static std::set<const Function *> visitedFns;
static std::map<std::string, uint64_t> assertCount;
static uint64_t nStates = 0, nForks = 0, nInstr = 0, nEmit = 0, nAssert = 0, nLoads = 0, nStores = 0, nPaths = 0, nKilled = 0;
static uint64_t entryStates0 = 0;
static int sliceK = 0, sliceN = 1; static std::string sliceName = "class"; // analyse only every sliceN-th choice of that name
static uint64_t maxPathSteps = 60000000, longest = 0, maxStates = 3000000, maxViol = 12;
static double maxSeconds = 600;
static bool wrapCheck = false;
static std::set<std::string> violKeys;
static std::set<std::string> extWarn;
static bool optStores = false;

// ---------------------------------------------------------------- forms in a state
static void norm(State &s, Form &f) {
  for (int guard = 0;; guard++) {
    bool ch = false;
    for (auto &t : f.t) { const Var &v = s.vars[t.v]; if (v.def || v.lo == v.hi) { ch = true; break; } }
    if (!ch) return;
    Form r; r.c = f.c;
    for (auto &t : f.t) {
      const Var &v = s.vars[t.v];
      if (v.def) r = fadd(r, v.d, t.k);
      else if (v.lo == v.hi) r.c += t.k * v.lo;
      else { Form o; o.t.push_back({t.v, t.k}); r = fadd(r, o); }
    }
    f = r;
    if (guard > 200) { fprintf(stderr, "norm loop\n"); abort(); }
  }
}
static I diffBound(State &s, int a, int b, bool &has); // least c with v_a - v_b <= c by the zone
static void range(State &s, const Form &f, I &lo, I &hi) {
  lo = hi = f.c;
  for (auto &t : f.t) {
    const Var &v = s.vars[t.v];
    if (t.k > 0) { lo += t.k * v.lo; hi += t.k * v.hi; } else { lo += t.k * v.hi; hi += t.k * v.lo; }
  }
  if (!s.diffs.empty() && f.t.size() == 2 && f.t[0].k == -f.t[1].k) {
    int p = f.t[0].k > 0 ? 0 : 1; I k = f.t[p].k; bool h;
    I ub = diffBound(s, f.t[p].v, f.t[1 - p].v, h); if (h && f.c + k * ub < hi) hi = f.c + k * ub;
    I lb = diffBound(s, f.t[1 - p].v, f.t[p].v, h); if (h && f.c - k * lb > lo) lo = f.c - k * lb;
  }
}
struct Closure { std::vector<int> ids; std::unordered_map<int, int> ix; std::vector<std::vector<I>> m; bool ok = true; };
static const I INF = ONE << 100;
static Closure closure(State &s) {
  Closure c; c.ids.push_back(-1); c.ix[-1] = 0;
  auto add = [&](int v) { if (!c.ix.count(v)) { c.ix[v] = c.ids.size(); c.ids.push_back(v); } };
  for (auto &d : s.diffs) { add(d.a); add(d.b); }
  int n = c.ids.size(); c.m.assign(n, std::vector<I>(n, INF));
  for (int i = 0; i < n; i++) c.m[i][i] = 0;
  for (int i = 1; i < n; i++) { c.m[i][0] = s.vars[c.ids[i]].hi; c.m[0][i] = -s.vars[c.ids[i]].lo; }
  for (auto &d : s.diffs) { I &x = c.m[c.ix[d.a]][c.ix[d.b]]; x = std::min(x, d.c); }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (c.m[i][k] < INF) for (int j = 0; j < n; j++)
    if (c.m[k][j] < INF && c.m[i][k] + c.m[k][j] < c.m[i][j]) c.m[i][j] = c.m[i][k] + c.m[k][j];
  for (int i = 0; i < n; i++) if (c.m[i][i] < 0) c.ok = false;
  return c;
}
static I diffBound(State &s, int a, int b, bool &has) {
  Closure c = closure(s); has = false;
  auto ia = c.ix.find(a), ib = c.ix.find(b); if (ia == c.ix.end() || ib == c.ix.end()) return 0;
  I r = c.m[ia->second][ib->second]; if (r >= INF) return 0; has = true; return r;
}
// re-establish consistency after the box or zone changed; false = empty
static bool tighten(State &s) {
  for (auto &v : s.vars) if (!v.def && v.lo > v.hi) return false;
  if (s.diffs.empty()) return true;
  // rewrite constraints over defined variables
  std::vector<Diff> nd; bool lost = false;
  for (auto &d : s.diffs) {
    Form f; f = fadd(fadd(Form(), [&] { Form o; o.t.push_back({d.a, 1}); return o; }()), [&] { Form o; o.t.push_back({d.b, 1}); return o; }(), -1);
    norm(s, f);
    if (f.isC()) { if (f.c > d.c) return false; continue; }
    if (f.t.size() == 1) {
      Var &v = s.vars[f.t[0].v]; I k = f.t[0].k, r = d.c - f.c;
      if (k > 0) v.hi = std::min(v.hi, fdiv(r, k)); else v.lo = std::max(v.lo, cdiv(r, k));
      if (v.lo > v.hi) return false; continue;
    }
    if (f.t.size() == 2 && f.t[0].k == -f.t[1].k && (f.t[0].k == 1 || f.t[0].k == -1)) {
      int p = f.t[0].k > 0 ? 0 : 1; nd.push_back({f.t[p].v, f.t[1 - p].v, d.c - f.c}); continue;
    }
    if (f.t.size() == 2 && f.t[0].k == -f.t[1].k) {
      int p = f.t[0].k > 0 ? 0 : 1; nd.push_back({f.t[p].v, f.t[1 - p].v, fdiv(d.c - f.c, f.t[p].k)}); continue;
    }
    I lo, hi; lo = hi = f.c; for (auto &t : f.t) { const Var &v = s.vars[t.v]; lo += t.k * (t.k > 0 ? v.lo : v.hi); hi += t.k * (t.k > 0 ? v.hi : v.lo); }
    if (lo > d.c) return false;
    if (hi > d.c) lost = true;
  }
  s.diffs = nd;
  if (lost && s.imprecise.empty()) s.imprecise = "difference constraint lost when a value was divided into digits";
  if (s.diffs.empty()) return true;
  Closure c = closure(s); if (!c.ok) return false;
  bool again = false;
  for (size_t i = 1; i < c.ids.size(); i++) {
    Var &v = s.vars[c.ids[i]];
    if (c.m[i][0] < v.hi) { v.hi = c.m[i][0]; }
    if (-c.m[0][i] > v.lo) { v.lo = -c.m[0][i]; }
    if (v.lo > v.hi) return false;
    if (v.lo == v.hi) again = true;
  }
  if (again) { // drop constraints on fixed variables
    std::vector<Diff> n2; for (auto &d : s.diffs) { const Var &a = s.vars[d.a], &b = s.vars[d.b];
      if (a.hi - b.lo <= d.c) continue; n2.push_back(d); }
    s.diffs = n2;
  }
  return true;
}
static bool applyRefine(State &s, const std::vector<Refine> &rs) {
  for (auto &r : rs) {
    if (r.kind == 0) { Var &v = s.vars[r.v]; v.lo = std::max(v.lo, r.lo); v.hi = std::min(v.hi, r.hi); if (v.lo > v.hi) return false; }
    else if (r.kind == 1) { // v := M*q + r, v's range is aligned
      I lo = s.vars[r.v].lo, hi = s.vars[r.v].hi;
      int root = s.vars[r.v].root;
      Var q; q.lo = fdiv(lo, r.M); q.hi = fdiv(hi, r.M); q.root = root; Var m; m.lo = 0; m.hi = r.M - 1; m.root = root;
      int qi = s.vars.size(); s.vars.push_back(q); int ri = s.vars.size(); s.vars.push_back(m);
      Var &v = s.vars[r.v]; v.def = true; v.d = Form(); v.d.t.push_back({qi, r.M}); v.d.t.push_back({ri, 1});
    } else if (r.kind == 2) { s.diffs.push_back({r.a, r.b, r.c}); }
    else if (r.kind == 5) { // v := def ; box of v constrains def
      Var old = s.vars[r.v]; Form d = r.def; s.vars[r.v].def = true; s.vars[r.v].d = d;
      // def is  w + c
      Var &w = s.vars[d.t[0].v]; w.lo = std::max(w.lo, old.lo - d.c); w.hi = std::min(w.hi, old.hi - d.c);
      if (w.lo > w.hi) return false;
    }
  }
  return tighten(s);
}
static Refine rRange(int v, I lo, I hi) { Refine r; r.kind = 0; r.v = v; r.lo = lo; r.hi = hi; return r; }
static Form fvar1(const Term &t) { Form f; f.t.push_back(t); return f; }
// f = g*A + L with |L| < g, where A takes the terms of large coefficients and L the others
static bool radix(State &s, const Form &f, I &g, Form &A, Form &L) {
  std::vector<Term> t(f.t.begin(), f.t.end());
  std::sort(t.begin(), t.end(), [](const Term &a, const Term &b) { return (a.k < 0 ? -a.k : a.k) > (b.k < 0 ? -b.k : b.k); });
  I gg = 0;
  for (size_t i = 0; i + 1 <= t.size(); i++) {
    gg = igcd(gg, t[i].k); if (gg <= 1) return false;
    if (i + 1 == t.size()) return false;
    Form l; for (size_t j = i + 1; j < t.size(); j++) l = fadd(l, fvar1(t[j]), 1);
    I lo, hi; range(s, l, lo, hi);
    I q = fdiv(f.c + lo, gg), r = f.c - gg * q; // lo + r in [0, gg)
    if (hi + r >= gg) { q++; r -= gg; if (lo + r <= -gg || hi + r >= gg) continue; }
    g = gg; L = l; L.c = r; A = Form(); A.c = q;
    for (size_t j = 0; j <= i; j++) { Term u = t[j]; u.k /= gg; A = fadd(A, fvar1(u), 1); }
    return true;
  }
  return false;
}
// decide f >= T
static bool decideGE(State &s, Form f, I T) {
  norm(s, f);
  I lo, hi; range(s, f, lo, hi);
  if (hi < T) return false; if (lo >= T) return true;
  Split sp;
  if (f.t.size() == 1) {
    int v = f.t[0].v; I k = f.t[0].k; const Var &x = s.vars[v];
    if (k > 0) { I th = cdiv(T - f.c, k); sp.ch.push_back({rRange(v, x.lo, th - 1)}); sp.ch.push_back({rRange(v, th, x.hi)}); }
    else { I th = fdiv(T - f.c, k); /* v <= th */ sp.ch.push_back({rRange(v, x.lo, th)}); sp.ch.push_back({rRange(v, th + 1, x.hi)}); }
    throw sp;
  }
  if (f.t.size() == 2 && f.t[0].k == -f.t[1].k) {
    int p = f.t[0].k > 0 ? 0 : 1; I k = f.t[p].k; int a = f.t[p].v, b = f.t[1 - p].v;
    // k(a-b) + c >= T  <=>  a-b >= ceil((T-c)/k)
    I th = cdiv(T - f.c, k);
    Refine ge; ge.kind = 2; ge.a = b; ge.b = a; ge.c = -th; Refine lt; lt.kind = 2; lt.a = a; lt.b = b; lt.c = th - 1;
    sp.ch.push_back({lt}); sp.ch.push_back({ge}); throw sp;
  }
  { I g; Form A, L; Form h = f; h.c -= T;
    if (radix(s, h, g, A, L)) {
      I llo, lhi; range(s, L, llo, lhi);
      if (llo >= 0) return decideGE(s, A, 0);
      if (lhi < 0) return decideGE(s, A, 1);
      if (decideGE(s, A, 1)) return true;
      if (!decideGE(s, A, 0)) return false;
      return decideGE(s, L, 0);
    } }
  // lexicographic on the widest term
  size_t best = 0; I bw = -1;
  for (size_t i = 0; i < f.t.size(); i++) { const Var &x = s.vars[f.t[i].v]; I w = (x.hi - x.lo) * (f.t[i].k < 0 ? -f.t[i].k : f.t[i].k); if (w > bw) { bw = w; best = i; } }
  Form rest = f; Term t = f.t[best]; rest.t.erase(rest.t.begin() + best);
  I rlo = rest.c, rhi = rest.c; for (auto &u : rest.t) { const Var &x = s.vars[u.v]; rlo += u.k * (u.k > 0 ? x.lo : x.hi); rhi += u.k * (u.k > 0 ? x.hi : x.lo); }
  const Var x = s.vars[t.v];
  // k*v >= T - rlo: surely true ; k*v < T - rhi: surely false
  I mlo, mhi; // middle range of v
  if (t.k > 0) { mhi = cdiv(T - rlo, t.k) - 1; mlo = cdiv(T - rhi, t.k); } else { mlo = fdiv(T - rlo, t.k) + 1; mhi = fdiv(T - rhi, t.k); }
  mlo = std::max(mlo, x.lo); mhi = std::min(mhi, x.hi);
  if (mhi - mlo > 400) { I mid = x.lo + (x.hi - x.lo) / 2; sp.ch.push_back({rRange(t.v, x.lo, mid)}); sp.ch.push_back({rRange(t.v, mid + 1, x.hi)}); throw sp; }
  if (x.lo < mlo) sp.ch.push_back({rRange(t.v, x.lo, mlo - 1)});
  for (I m = mlo; m <= mhi; m++) sp.ch.push_back({rRange(t.v, m, m)});
  if (mhi < x.hi) sp.ch.push_back({rRange(t.v, mhi + 1, x.hi)});
  throw sp;
}
static bool decideEQ0(State &s, Form f) {
  norm(s, f);
  if (f.isC()) return f.c == 0;
  I lo, hi; range(s, f, lo, hi);
  if (lo > 0 || hi < 0) return false;
  if (lo == 0 && hi == 0) return true;
  I g = 0; for (auto &t : f.t) g = igcd(g, t.k);
  if (fmod_(f.c, g) != 0) return false;
  if (f.t.size() == 1) {
    int v = f.t[0].v; I z = -f.c / f.t[0].k; const Var &x = s.vars[v];
    Split sp; if (x.lo < z) sp.ch.push_back({rRange(v, x.lo, z - 1)}); sp.ch.push_back({rRange(v, z, z)}); if (z < x.hi) sp.ch.push_back({rRange(v, z + 1, x.hi)});
    throw sp;
  }
  if (f.t.size() == 2 && f.t[0].k == -f.t[1].k) {
    int p = f.t[0].k > 0 ? 0 : 1; I k = f.t[p].k; int a = f.t[p].v, b = f.t[1 - p].v; I d = -f.c / k; // a - b == d
    Split sp; Refine lt; lt.kind = 2; lt.a = a; lt.b = b; lt.c = d - 1; Refine gt; gt.kind = 2; gt.a = b; gt.b = a; gt.c = -(d + 1);
    Refine eq; eq.kind = 5; int vd = std::max(a, b), vk = std::min(a, b); eq.v = vd; eq.def.t.push_back({vk, 1}); eq.def.c = (vd == a) ? d : -d;
    sp.ch.push_back({lt}); sp.ch.push_back({eq}); sp.ch.push_back({gt}); throw sp;
  }
  { I g2; Form A, L; if (radix(s, f, g2, A, L)) return decideEQ0(s, A) && decideEQ0(s, L); }
  if (!decideGE(s, f, 0)) return false;
  if (decideGE(s, f, 1)) return false;
  return true;
}
// floor division of f by Mo
static void divmod(State &s, Form f, I Mo, Form &Q, Form &R) {
  norm(s, f);
  Form q, r; r.c = f.c;
  for (auto &t : f.t) if (t.k % Mo == 0) q.t.push_back({t.v, t.k / Mo}); else r.t.push_back(t);
  for (;;) {
    I lo, hi; range(s, r, lo, hi);
    I bl = fdiv(lo, Mo), bh = fdiv(hi, Mo);
    if (bl == bh) { q.c += bl; r.c -= bl * Mo; Q = q; R = r; return; }
    if (bh - bl <= 3) { decideGE(s, r, (bl + 1) * Mo); continue; /* splits, never returns undecided */ }
    size_t best = 0; I bw = -1;
    for (size_t i = 0; i < r.t.size(); i++) { const Var &x = s.vars[r.t[i].v]; I w = (x.hi - x.lo) * (r.t[i].k < 0 ? -r.t[i].k : r.t[i].k); if (w > bw) { bw = w; best = i; } }
    int v = r.t[best].v; I g = igcd(r.t[best].k, Mo), Mv = Mo / g; const Var x = s.vars[v]; Split sp;
    I q0 = fdiv(x.lo, Mv), q1 = fdiv(x.hi, Mv);
    if (q1 - q0 <= 2) { I th = (fdiv(lo + hi, 2 * Mo)) * Mo; if (th <= lo) th += Mo; decideGE(s, r, th); continue; }
    I a = fmod_(x.lo, Mv) ? (q0 + 1) * Mv : x.lo, b = fmod_(x.hi, Mv) == Mv - 1 ? x.hi : q1 * Mv - 1;
    bool part = false;
    if (a > x.lo) { sp.ch.push_back({rRange(v, x.lo, a - 1)}); part = true; }
    Refine df; df.kind = 1; df.v = v; df.M = Mv;
    if (part || b < x.hi) sp.ch.push_back({rRange(v, a, b), df}); else sp.ch.push_back({df});
    if (b < x.hi) sp.ch.push_back({rRange(v, b + 1, x.hi)});
    throw sp;
  }
}
static Form wrapTo(State &s, Form f, unsigned w) {
  norm(s, f); I lo, hi; range(s, f, lo, hi); I m = pw2(w);
  if (lo >= 0 && hi < m) return f;
  Form q, r; divmod(s, f, m, q, r); return r;
}
static Form toSigned(State &s, Form f, unsigned w) {
  if (w == 0) return f;
  if (decideGE(s, f, pw2(w - 1))) { f.c -= pw2(w); }
  norm(s, f); return f;
}
static I possibleOnes(State &s, const Form &f) {
  I m = f.c; bool ok = f.c >= 0; I used = f.c;
  if (ok) for (auto &t : f.t) {
    const Var &v = s.vars[t.v]; if (t.k <= 0 || v.lo < 0) { ok = false; break; }
    I top = t.k * v.hi; I low = t.k & -t.k; I bits = 0; I b = 1; while (b <= top) { bits |= b; b <<= 1; } bits &= ~(low - 1);
    if (used & bits) { ok = false; break; } used |= bits; m |= bits;
  }
  if (ok) return m;
  I lo, hi; range(s, f, lo, hi); I b = 1, bits = 0; while (b <= hi) { bits |= b; b <<= 1; }
  I g = 0; for (auto &t : f.t) g = igcd(g, t.k); g = igcd(g, f.c); if (g > 0) bits &= ~((g & -g) - 1);
  return bits;
}
static Form andConst(State &s, const Form &f, I mask) {
  Form out; I poss = possibleOnes(s, f); I m = mask & poss; if (m == 0) return out; if (m == poss) return f;
  // runs of ones in mask, extended over bits that cannot be set
  int bit = 0;
  while ((m >> bit) != 0) {
    if (!((m >> bit) & 1)) { bit++; continue; }
    int e = bit; while (((mask >> e) & 1) || (!((poss >> e) & 1) && (poss >> e) != 0)) { e++; if ((poss >> e) == 0) break; }
    Form q = f, r; Form dummy;
    if ((poss >> e) != 0) { divmod(s, f, pw2(e), dummy, r); q = r; }
    if (bit > 0) { Form qq, rr; divmod(s, q, pw2(bit), qq, rr); q = qq; }
    out = fadd(out, q, pw2(bit)); bit = e;
  }
  return out;
}
static Form andForms(State &s, Form a, Form b) {
  norm(s, a); norm(s, b);
  if (a == b) return a;
  if (a.isC()) return andConst(s, b, a.c);
  if (b.isC()) return andConst(s, a, b.c);
  I pa = possibleOnes(s, a), pb = possibleOnes(s, b); I m = pa & pb; if (m == 0) return Form();
  if (__builtin_popcountll((uint64_t)m) > 8) throw Stuck{"bitwise and of two unknown values"};
  Form out;
  for (int i = 0; i < 64; i++) if ((m >> i) & 1) {
    Form x = andConst(s, a, pw2(i)), y = andConst(s, b, pw2(i));
    bool bx = decideGE(s, x, 1); if (!bx) continue; bool by = decideGE(s, y, 1); if (by) out.c += pw2(i);
  }
  return out;
}
static I concretize(State &s, Form f, int limit, const char *what) {
  norm(s, f); if (f.isC()) return f.c;
  I lo, hi; range(s, f, lo, hi);
  const Term &t = f.t[0]; const Var &x = s.vars[t.v];
  if (x.hi - x.lo + 1 > limit) throw Stuck{std::string("cannot enumerate ") + what + " (" + istr(x.hi - x.lo + 1) + " values)"};
  Split sp; for (I i = x.lo; i <= x.hi; i++) sp.ch.push_back({rRange(t.v, i, i)});
  throw sp;
}
// ---------------------------------------------------------------- description
static std::string fstr(State &s, Form f) {
  norm(s, f); std::string r; bool first = true;
  if (f.c != 0 || f.t.empty()) { r = istr(f.c); first = false; }
  for (auto &t : f.t) { const Var &v = s.vars[t.v]; if (!first) r += " + "; first = false; if (t.k != 1) r += istr(t.k) + "*"; r += "[" + istr(v.lo) + ".." + istr(v.hi) + "]"; }
  return r;
}
static std::vector<I> witness(State &s) { // a least solution
  std::vector<I> w(s.vars.size()); for (size_t i = 0; i < s.vars.size(); i++) w[i] = s.vars[i].lo;
  for (size_t it = 0; it < s.diffs.size() + 2; it++) for (auto &d : s.diffs) if (w[d.a] - w[d.b] > d.c) w[d.b] = w[d.a] - d.c;
  return w;
}
static I evalForm(State &s, Form f, const std::vector<I> &w) { norm(s, f); I r = f.c; for (auto &t : f.t) r += t.k * w[t.v]; return r; }
static std::string locOf(const Instruction *i) {
  const DebugLoc &dl = i->getDebugLoc(); if (!dl) return "?";
  DILocation *l = dl.get(); return (l->getDirectory().empty() || l->getFilename().starts_with("/") ? "" : l->getDirectory().str() + "/") + l->getFilename().str() + ":" + std::to_string(l->getLine());
}
static std::string shortName(const std::string &n) { std::string d = demangle(n); if (d.size() > 150) d = d.substr(0, 147) + "..."; return d; }
static std::string rootsJson(State &s) {
  std::vector<I> w = witness(s); std::string r = "{"; bool first = true;
  std::map<std::string, int> seen;
  for (auto &x : s.roots) { if (!first) r += ","; first = false; int c = seen[x.name]++; r += "\"" + jesc(x.name) + (c ? " #" + std::to_string(c + 1) : std::string()) + "\":{\"witness\":" + istr(evalForm(s, x.f, w)) + ",\"all\":\"" + fstr(s, x.f) + "\"}"; }
  for (auto &c : s.choices) { if (!first) r += ","; first = false; r += "\"" + jesc(c.first) + "\":{\"witness\":" + std::to_string(c.second) + "}"; }
  return r + "}";
}
static void report(State &s, const std::string &msg, const char *kind = "violation") {
  std::string where, trace; const Instruction *top = nullptr;
  std::string repo;
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
    Frame &f = s.fr[i]; const Instruction *in = f.fi->ins[f.bb][std::min<int>(f.ip, f.fi->ins[f.bb].size() - 1)];
    std::string l = locOf(in); if (!top) { top = in; where = l; }
    if (repo.empty() && (l.find("/include/u5e/") != std::string::npos || l.find("/src/u5e/") != std::string::npos)) repo = l;
    trace += (trace.empty() ? "" : ",") + std::string("\"") + jesc(shortName(f.fi->name)) + " at " + jesc(l) + "\"";
    if ((int)s.fr.size() - i > 14) break;
  }
  std::string key = std::string(kind) + msg + "@" + (repo.empty() ? where : repo);
  if (!violKeys.insert(key).second) return;
  if (!s.imprecise.empty() && !strcmp(kind, "violation")) kind = "inconclusive";
  printf("{\"%s\":\"%s\",\"at\":\"%s\",\"repo_at\":\"%s\",\"inputs\":%s,\"trace\":[%s]%s}\n", kind, jesc(msg).c_str(), jesc(where).c_str(), jesc(repo).c_str(), rootsJson(s).c_str(), trace.c_str(),
         s.imprecise.empty() ? "" : (",\"imprecise\":\"" + jesc(s.imprecise) + "\"").c_str());
  fflush(stdout);
}
// ---------------------------------------------------------------- memory access
static P<Obj> &objRef(State &s, int id) {
  if (id <= 0) throw Violation{"access through a null or invalid pointer"};
  if (id < NG) { auto it = s.gmem.find(id); if (it != s.gmem.end()) return it->second; if (id > (int)globals.size()) throw Violation{"access through an invalid pointer"}; return globals[id - 1]; }
  if (id - NG >= s.nmem) throw Violation{"access through an invalid pointer"};
  return s.mem[(id - NG) / 64]->o[(id - NG) % 64];
}
static int newObj(State &s, Obj::Kind k, int64_t size, const std::string *name) {
  Obj *o = new Obj; o->kind = k; o->size = size; o->name = name; if (s.nmem % 64 == 0) s.mem.push_back(P<Chunk>(new Chunk)); s.mem[s.nmem / 64].mut().o[s.nmem % 64] = P<Obj>(o); return NG + s.nmem++;
}
static Val evalConst(const Constant *c);
static Val readInit(const Constant *c, int64_t off, int size, bool &ok);
static I addrOf(State &s, const Val &p) {
  if (p.k == Val::Undef) throw Violation{"access through an uninitialised pointer"};
  if (p.k != Val::Int) throw Stuck{"pointer is not an address"};
  return concretize(s, p.f, 70000, "addresses");
}
static Obj &checkAccess(State &s, I a, int64_t size, bool write) {
  if (a == 0 || idOf(a) == 0) throw Violation{write ? "write through a null pointer" : "read through a null pointer"};
  P<Obj> &o = objRef(s, idOf(a)); I off = offOf(a);
  if (o->dead) throw Violation{std::string(write ? "write to" : "read from") + " memory that is no longer alive (" + *o->name + ")"};
  if (off < 0 || off + size > o->size)
    throw Violation{std::string(write ? "write" : "read") + " outside of " + *o->name + ": offset " + istr(off) + ", " + std::to_string(size) + " octet(s), size " + std::to_string(o->size)};
  if (write && (o->ro || (o->gv && o->gv->isConstant()))) throw Violation{"write to constant " + *o->name};
  return *o;
}
static Val byteOf(State &s, const Val &v, int size, int i) { // i-th byte (little endian) of a cell
  if (v.k == Val::Undef) return v;
  if (v.k != Val::Int) throw Stuck{"octet of a non integer value"};
  if (size == 1) return v;
  Form q = v.f, r; norm(s, q);
  if (i > 0) { Form qq, rr; divmod(s, q, pw2(8 * i), qq, rr); q = qq; }
  if (i < size - 1) { Form qq, rr; divmod(s, q, 256, qq, rr); q = rr; }
  return vint(8, q);
}
static Val readByte(State &s, Obj &o, int64_t off) {
  auto it = o.cells.upper_bound(off);
  if (it != o.cells.begin()) { --it; if (off < it->first + it->second.size) return byteOf(s, it->second.v, it->second.size, off - it->first); }
  if (o.gv) { bool ok = true; Val v = readInit(o.gv->getInitializer(), off, 1, ok); if (ok) return v; throw Stuck{"octet of an initialiser"}; }
  if (o.zero) return vc(8, 0);
  return Val();
}
// load of an integer-like value of `size` octets
static Val loadBytes(State &s, I a, int size, unsigned w, bool uninitOk = false) {
  Obj &o = checkAccess(s, a, size, false); int64_t off = (int64_t)offOf(a); nLoads++;
  auto it = o.cells.find(off);
  if (it != o.cells.end() && it->second.size == size) { Val v = it->second.v; if (v.k == Val::Int) { norm(s, v.f); v.w = w; } 
    return v; }
  if (o.gv) { // untouched range of the initialiser
    bool touched = false; auto j = o.cells.upper_bound(off + size - 1); if (j != o.cells.begin()) { --j; if (j->first + j->second.size > off) touched = true; }
    if (!touched) { bool ok = true; Val v = readInit(o.gv->getInitializer(), off, size, ok); if (ok) { if (v.k == Val::Int) v.w = w; return v; } }
  }
  Form f; std::vector<Val> bs;
  for (int i = 0; i < size; i++) { Val b = readByte(s, o, off + i); if (b.k == Val::Undef) return Val(); bs.push_back(b); }
  for (int i = 0; i < size; i++) f = fadd(f, bs[i].f, pw2(8 * i));
  norm(s, f); 
  return vint(w, f);
}
// remove the cells overlapping [off, off+size), splitting partial ones; computes first, then commits
static void clearRange(State &s, Obj &o, int64_t off, int64_t size, std::vector<std::pair<int64_t, Cell>> &keep) {
  auto it = o.cells.upper_bound(off + size - 1); std::vector<int64_t> del;
  while (it != o.cells.begin()) {
    --it; int64_t b = it->first, e = b + it->second.size; if (e <= off) break;
    del.push_back(b);
    if (b < off || e > off + size) for (int64_t i = b; i < e; i++) if (i < off || i >= off + size) keep.push_back({i, Cell{1, byteOf(s, it->second.v, it->second.size, i - b)}});
  }
  if (o.gv || o.zero) { /* initialiser bytes stay readable through gv; overwritten cells shadow them */ }
  // commit is done by the caller through del
  keep.push_back({-1, Cell{0, Val()}}); for (auto d : del) keep.push_back({d, Cell{-1, Val()}});
}
static P<Obj> &mutObj(State &s, int id) {
  if (id < NG) { writtenGlobals.insert(id); auto it = s.gmem.find(id); if (it == s.gmem.end()) { Obj *n = new Obj(*globals[id - 1]); it = s.gmem.emplace(id, P<Obj>(n)).first; } it->second.mut(); return it->second; }
  P<Obj> &o = s.mem[(id - NG) / 64].mut().o[(id - NG) % 64]; o.mut(); return o;
}
static void commitClear(Obj &o, std::vector<std::pair<int64_t, Cell>> &keep) {
  size_t i = 0; while (keep[i].second.size != 0) i++;
  for (size_t j = i + 1; j < keep.size(); j++) o.cells.erase(keep[j].first);
  for (size_t j = 0; j < i; j++) o.cells[keep[j].first] = keep[j].second;
}
static void storeVal(State &s, I a, int size, const Val &v) {
  Obj &o = checkAccess(s, a, size, true); int64_t off = (int64_t)offOf(a); nStores++;
  std::vector<std::pair<int64_t, Cell>> keep; clearRange(s, o, off, size, keep);
  P<Obj> &m = mutObj(s, idOf(a)); commitClear(*m, keep); m->cells[off] = Cell{size, v};
}
static void copyMem(State &s, I d, I src, int64_t n) {
  if (n == 0) return;
  Obj &so = checkAccess(s, src, n, false); Obj &dob = checkAccess(s, d, n, true);
  int64_t so_ = (int64_t)offOf(src), do_ = (int64_t)offOf(d);
  std::vector<std::pair<int64_t, Cell>> cells; // relative
  int64_t i = 0;
  while (i < n) {
    int64_t off = so_ + i; auto it = so.cells.find(off);
    if (it != so.cells.end() && i + it->second.size <= n) { cells.push_back({i, it->second}); i += it->second.size; continue; }
    if (so.gv) {
      bool done = false;
      for (int sz : {8, 4, 2, 1}) { if (i + sz > n) continue; auto j = so.cells.upper_bound(off + sz - 1); bool touched = false; if (j != so.cells.begin()) { --j; if (j->first + j->second.size > off) touched = true; } if (touched) continue;
        bool ok = true; Val v = readInit(so.gv->getInitializer(), off, sz, ok); if (ok) { if (v.k != Val::Undef) cells.push_back({i, Cell{sz, v}}); i += sz; done = true; break; } }
      if (done) continue;
    }
    Val b = readByte(s, so, off); if (b.k != Val::Undef) cells.push_back({i, Cell{1, b}}); i++;
  }
  std::vector<std::pair<int64_t, Cell>> keep; clearRange(s, dob, do_, n, keep);
  bool dz = dob.zero || dob.gv;
  P<Obj> &m = mutObj(s, idOf(d)); commitClear(*m, keep);
  if (dz) { std::vector<bool> have(n, false); for (auto &c : cells) for (int k = 0; k < c.second.size; k++) have[c.first + k] = true; for (int64_t k = 0; k < n; k++) if (!have[k]) m->cells[do_ + k] = Cell{1, Val()}; }
  for (auto &c : cells) m->cells[do_ + c.first] = c.second;
}
// ---------------------------------------------------------------- constants
static Val readInit(const Constant *c, int64_t off, int size, bool &ok) {
  Type *T = c->getType(); int64_t ts = storeSize(T);
  if (isa<ConstantAggregateZero>(c)) return vc(size * 8 > 64 ? 64 : size * 8, 0);
  if (isa<UndefValue>(c)) return Val();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    int64_t es = cd->getElementByteSize(); int64_t ix = off / es, in = off % es;
    if (!cd->getElementType()->isIntegerTy()) { if (in == 0 && size == es) return evalConst(cd->getElementAsConstant(ix)); ok = false; return Val(); }
    if (in == 0 && size == es) return vc(size * 8, (I)cd->getElementAsInteger(ix));
    I v = 0; for (int i = 0; i < size; i++) { int64_t o2 = off + i; if (o2 / es >= (int64_t)cd->getNumElements()) { ok = false; return Val(); } uint64_t e = cd->getElementAsInteger(o2 / es); v |= (I)((e >> (8 * (o2 % es))) & 255) << (8 * i); }
    return vc(size * 8, v);
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    int64_t es = allocSize(ca->getType()->getElementType()); int64_t ix = off / es, in = off % es;
    if (in + size > es) { I v = 0; for (int i = 0; i < size; i++) { Val b = readInit(c, off + i, 1, ok); if (!ok) return Val(); if (b.k != Val::Int || !b.f.isC()) { ok = b.k != Val::Undef ? false : ok; return Val(); } v |= b.f.c << (8 * i); } return vc(size * 8, v); }
    return readInit(ca->getOperand(ix), in, size, ok);
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType()); unsigned ix = sl->getElementContainingOffset(off); int64_t in = off - (int64_t)sl->getElementOffset(ix);
    int64_t es = allocSize(cs->getOperand(ix)->getType());
    if (in >= es) return Val(); // padding
    if (in + size > es) { I v = 0; for (int i = 0; i < size; i++) { Val b = readInit(c, off + i, 1, ok); if (!ok) return Val(); if (b.k == Val::Undef) { return Val(); } if (!b.f.isC()) { ok = false; return Val(); } v |= b.f.c << (8 * i); } return vc(size * 8, v); }
    return readInit(cs->getOperand(ix), in, size, ok);
  }
  Val v = evalConst(c);
  if (off == 0 && size == ts) return v;
  if (v.k == Val::Int && v.f.isC() && off + size <= ts) return vc(size * 8, (v.f.c >> (8 * off)) & (pw2(8 * size) - 1));
  if (v.k == Val::Undef) return v;
  ok = false; return Val();
}
static unsigned widthOf(Type *T) { if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; return 0; }
static I constGEP(const GEPOperator *g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Stuck{"constant address"};
  Val b = evalConst(cast<Constant>(g->getPointerOperand())); return b.f.c + (I)off.getSExtValue();
}
static Val zeroOf(Type *T) {
  if (T->isFloatingPointTy()) { Val v; v.k = Val::FP; v.d = 0; return v; }
  if (T->isStructTy() || T->isArrayTy()) { Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(zeroOf(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType())); return v; }
  return vc(widthOf(T), 0);
}
static I normC(I v, unsigned w) { return v & (pw2(w) - 1); }
static DenseMap<const Constant *, Val *> constCache;
static Val evalConst0(const Constant *c) {
  Type *T = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw Stuck{"wide integer"}; } return vc(ci->getBitWidth(), (I)ci->getValue().getLimitedValue()); }
  if (isa<ConstantPointerNull>(c)) return vc(64, 0);
  if (isa<UndefValue>(c)) { if (T->isStructTy() || T->isArrayTy()) { Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>(T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements()); return v; } return Val(); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { Val v; v.k = Val::FP; bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); v.d = f.convertToDouble(); return v; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gid.find(gv); if (it == gid.end()) throw Stuck{"unknown global " + gv->getName().str()}; return vc(64, objBase(it->second)); }
  if (isa<ConstantAggregateZero>(c)) return zeroOf(T);
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (auto &o : c->operands()) v.agg->push_back(evalConst(cast<Constant>(&*o))); return v; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i))); return v; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return vc(64, normC(constGEP(cast<GEPOperator>(ce)), 64));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); unsigned w = widthOf(T); return vc(w, normC(v.f.c, w)); }
    case Instruction::Add: { unsigned w = widthOf(T); return vc(w, normC(evalConst(ce->getOperand(0)).f.c + evalConst(ce->getOperand(1)).f.c, w)); }
    case Instruction::Sub: { unsigned w = widthOf(T); return vc(w, normC(evalConst(ce->getOperand(0)).f.c - evalConst(ce->getOperand(1)).f.c, w)); }
    default: throw Stuck{"constant expression " + std::string(ce->getOpcodeName())};
    }
  }
  throw Stuck{"constant"};
}
static Val evalConst(const Constant *c) {
  auto it = constCache.find(c); if (it != constCache.end()) return *it->second;
  Val v = evalConst0(c); constCache[c] = new Val(v); return v;
}
// ---------------------------------------------------------------- functions
static FnInfo *infoOf(Function *F) {
  auto it = fninfo.find(F); if (it != fninfo.end()) return it->second;
  FnInfo *fi = new FnInfo; fi->F = F; fi->name = F->getName().str();
  for (auto &a : F->args()) fi->num[&a] = fi->n++;
  for (auto &b : *F) { fi->bbn[&b] = fi->bbs.size(); fi->bbs.push_back(&b); fi->ins.emplace_back();
    for (auto &i : b) { if (isa<DbgInfoIntrinsic>(&i)) continue; fi->ins.back().push_back(&i); if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++; } }
  fninfo[F] = fi; return fi;
}
static Val get(State &s, Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return evalConst(c);
  auto it = f.fi->num.find(v); if (it == f.fi->num.end()) throw Stuck{"unknown operand"};
  const Val &e = f.env->v[it->second]; if (e.k != Val::Int || e.f.t.empty()) return e;
  Val r = e; norm(s, r.f); return r;
}
static void set(Frame &f, const Value *v, const Val &x) { f.env.mut().v[f.fi->num[v]] = x; }
static const Val &needInt(const Val &v) { if (v.k == Val::Undef) throw Violation{"use of an uninitialised value"}; if (v.k != Val::Int) throw Stuck{"integer expected"}; return v; }

struct Machine {
  std::vector<State> work, finals; bool keepFinal = false;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double secs() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  void pushCall(State &s, Function *F, const std::vector<Val> &args, const CallBase *site) {
    FnInfo *fi = infoOf(F); Frame fr; fr.fi = fi; fr.env = P<Env>(new Env); fr.env->v.resize(fi->n); fr.site = site;
    for (size_t i = 0; i < args.size(); i++) if (i < F->arg_size()) fr.env->v[i] = args[i]; else fr.varargs.push_back(args[i]);
    if (!fi->seen) { fi->seen = true; visitedFns.insert(F); }
    if (s.fr.size() > 600) throw Violation{"unbounded recursion"};
    s.fr.push_back(std::move(fr));
  }
  std::string cstr(State &s, const Val &p) {
    I a = addrOf(s, p); std::string r; for (;;) { Val b = loadBytes(s, a++, 1, 8); if (b.k != Val::Int || !b.f.isC()) throw Stuck{"string"}; if (b.f.c == 0) return r; r += (char)b.f.c; }
  }
  // load of type T
  Val loadT(State &s, Type *T, I a) {
    if (T->isIntegerTy() || T->isPointerTy()) { unsigned w = widthOf(T); int sz = storeSize(T); Val v = loadBytes(s, a, sz, w); if (v.k == Val::Int && w % 8) v.f = w == 1 ? andConst(s, v.f, 1) : wrapTo(s, v.f, w); return v; }
    if (T->isFloatingPointTy()) { int sz = storeSize(T); Obj &o = checkAccess(s, a, sz, false); auto it = o.cells.find((int64_t)offOf(a)); if (it != o.cells.end() && it->second.size == sz && it->second.v.k == Val::FP) return it->second.v;
      Val v = loadBytes(s, a, sz, sz * 8); if (v.k == Val::FP) return v; if (v.k == Val::Int && v.f.isC()) { Val r; r.k = Val::FP; if (sz == 4) { uint32_t u = (uint32_t)v.f.c; float x; memcpy(&x, &u, 4); r.d = x; } else { uint64_t u = (uint64_t)v.f.c; memcpy(&r.d, &u, 8); } return r; } return Val(); }
    if (T->isStructTy() || T->isArrayTy()) { Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) { Type *E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); int64_t off = T->isStructTy() ? (int64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * allocSize(E); r.agg->push_back(loadT(s, E, a + off)); } return r; }
    throw Stuck{"load of an unsupported type"};
  }
  void storeT(State &s, Type *T, I a, const Val &v) {
    if (T->isStructTy() || T->isArrayTy()) { unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) { Type *E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); int64_t off = T->isStructTy() ? (int64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * allocSize(E); storeT(s, E, a + off, v.k == Val::Agg ? (*v.agg)[i] : Val()); } return; }
    storeVal(s, a, storeSize(T), v);
  }
  // a load whose address is a form over constant memory: split the index into runs of equal content
  bool constIndex(State &s, const Form &pf, Type *T, Val &out) {
    if (pf.t.size() != 1) return false;
    I lo, hi; range(s, pf, lo, hi); if (idOf(lo) != idOf(hi) || idOf(lo) <= 0 || idOf(lo) >= NG) return false;
    P<Obj> &o = objRef(s, idOf(lo)); if (!o->gv || !o->gv->isConstant()) return false;
    int64_t sz = storeSize(T); if (!(T->isIntegerTy() || T->isPointerTy())) return false;
    if (offOf(lo) < 0) decideGE(s, pf, objBase(idOf(lo)));
    if (offOf(hi) + sz > o->size) decideGE(s, pf, objBase(idOf(lo)) + o->size - sz + 1);
    if (offOf(lo) < 0 || offOf(hi) + sz > o->size) return false;
    int v = pf.t[0].v; I k = pf.t[0].k; const Var x = s.vars[v]; if (x.hi - x.lo > 2000000) return false;
    Split sp; I start = x.lo; bool have = false; Val cur;
    for (I i = x.lo; i <= x.hi; i++) {
      bool ok = true; Val r = readInit(o->gv->getInitializer(), (int64_t)offOf(pf.c + k * i), sz, ok); if (!ok) return false;
      if (have && !(r.k == cur.k && r.f == cur.f)) { sp.ch.push_back({rRange(v, start, i - 1)}); start = i; }
      cur = r; have = true;
    }
    if (sp.ch.empty()) { out = cur; if (out.k == Val::Int) out.w = widthOf(T); return true; }
    sp.ch.push_back({rRange(v, start, x.hi)}); throw sp;
  }
  bool icmp(State &s, CmpInst::Predicate p, const Val &a, const Val &b) {
    unsigned w = a.w;
    switch (p) {
    case CmpInst::ICMP_EQ: return decideEQ0(s, fadd(a.f, b.f, -1));
    case CmpInst::ICMP_NE: return !decideEQ0(s, fadd(a.f, b.f, -1));
    case CmpInst::ICMP_UGE: return decideGE(s, fadd(a.f, b.f, -1), 0);
    case CmpInst::ICMP_UGT: return decideGE(s, fadd(a.f, b.f, -1), 1);
    case CmpInst::ICMP_ULE: return decideGE(s, fadd(b.f, a.f, -1), 0);
    case CmpInst::ICMP_ULT: return decideGE(s, fadd(b.f, a.f, -1), 1);
    default: break;
    }
    Form x = toSigned(s, a.f, w), y = toSigned(s, b.f, w);
    switch (p) {
    case CmpInst::ICMP_SGE: return decideGE(s, fadd(x, y, -1), 0);
    case CmpInst::ICMP_SGT: return decideGE(s, fadd(x, y, -1), 1);
    case CmpInst::ICMP_SLE: return decideGE(s, fadd(y, x, -1), 0);
    case CmpInst::ICMP_SLT: return decideGE(s, fadd(y, x, -1), 1);
    default: throw Stuck{"comparison"};
    }
  }
  Form mulForms(State &s, Form a, Form b) {
    norm(s, a); norm(s, b);
    if (a.isC()) return fscale(b, a.c); if (b.isC()) return fscale(a, b.c);
    I la, ha, lb, hb; range(s, a, la, ha); range(s, b, lb, hb);
    if (ha - la <= hb - lb) { concretize(s, a, 600, "factors"); } else { concretize(s, b, 600, "factors"); }
    throw Stuck{"product"};
  }
  Val binop(State &s, const Instruction *in, unsigned opc, const Val &a, const Val &b) {
    if (a.k == Val::FP || b.k == Val::FP) {
      Val r; r.k = Val::FP; if (a.k != Val::FP || b.k != Val::FP) throw Violation{"use of an uninitialised value"};
      switch (opc) { case Instruction::FAdd: r.d = a.d + b.d; break; case Instruction::FSub: r.d = a.d - b.d; break; case Instruction::FMul: r.d = a.d * b.d; break; case Instruction::FDiv: r.d = a.d / b.d; break; default: throw Stuck{"floating point"}; }
      if (in->getType()->isFloatTy()) r.d = (float)r.d; return r;
    }
    if (a.k == Val::Undef || b.k == Val::Undef) {
      // masking of undefined bits only
      if (opc == Instruction::And) { if (a.k == Val::Int && a.f.isC() && a.f.c == 0) return a; if (b.k == Val::Int && b.f.isC() && b.f.c == 0) return b; }
      return Val();
    }
    unsigned w = a.w;
    switch (opc) {
    case Instruction::Add: return vint(w, wrapTo(s, fadd(a.f, b.f), w));
    case Instruction::Sub: return vint(w, wrapTo(s, fadd(a.f, b.f, -1), w));
    case Instruction::Mul: {
      // keep small signed factors small: c with the top bit set is taken as negative
      Form x = a.f, y = b.f; if (x.isC() && x.c >= pw2(w - 1)) x.c -= pw2(w); if (y.isC() && y.c >= pw2(w - 1)) y.c -= pw2(w);
      return vint(w, wrapTo(s, mulForms(s, x, y), w)); }
    case Instruction::Shl: { I n = concretize(s, b.f, 70, "shift amounts"); if (n >= w) throw Violation{"shift by " + istr(n) + " bits of a " + std::to_string(w) + " bit value"}; return vint(w, wrapTo(s, fscale(a.f, pw2((unsigned)n)), w)); }
    case Instruction::LShr: { I n = concretize(s, b.f, 70, "shift amounts"); if (n >= w) throw Violation{"shift by " + istr(n) + " bits of a " + std::to_string(w) + " bit value"}; if (n == 0) return a; Form q, r; divmod(s, a.f, pw2((unsigned)n), q, r); return vint(w, q); }
    case Instruction::AShr: { I n = concretize(s, b.f, 70, "shift amounts"); if (n >= w) throw Violation{"shift by " + istr(n) + " bits of a " + std::to_string(w) + " bit value"}; if (n == 0) return a; Form x = toSigned(s, a.f, w); Form q, r; divmod(s, x, pw2((unsigned)n), q, r); return vint(w, wrapTo(s, q, w)); }
    case Instruction::And: return vint(w, andForms(s, a.f, b.f));
    case Instruction::Or: { Form c = andForms(s, a.f, b.f); Form r = fadd(fadd(a.f, b.f), c, -1); norm(s, r); return vint(w, r); }
    case Instruction::Xor: { // ~x first
      Form x = a.f, y = b.f; norm(s, x); norm(s, y); if (x.isC() && x.c == pw2(w) - 1) return vint(w, fadd(x, y, -1)); if (y.isC() && y.c == pw2(w) - 1) return vint(w, fadd(y, x, -1));
      Form c = andForms(s, x, y); Form r = fadd(fadd(x, y), c, -2); norm(s, r); return vint(w, r); }
    case Instruction::UDiv: case Instruction::URem: { I n = concretize(s, b.f, 600, "divisors"); if (n == 0) throw Violation{"division by zero"}; Form q, r; divmod(s, a.f, n, q, r); return vint(w, opc == Instruction::UDiv ? q : r); }
    case Instruction::SDiv: case Instruction::SRem: {
      I n = concretize(s, b.f, 600, "divisors"); if (n == 0) throw Violation{"division by zero"}; if (n >= pw2(w - 1)) n -= pw2(w);
      Form x = toSigned(s, a.f, w); bool neg = !decideGE(s, x, 0); if (neg) x = fscale(x, -1);
      I m = n < 0 ? -n : n; Form q, r; divmod(s, x, m, q, r); if (opc == Instruction::SDiv) { if (neg != (n < 0)) q = fscale(q, -1); return vint(w, wrapTo(s, q, w)); } if (neg) r = fscale(r, -1); return vint(w, wrapTo(s, r, w)); }
    default: throw Stuck{std::string("operation ") + in->getOpcodeName()};
    }
  }
  Val castop(State &s, const CastInst *ci, const Val &a) {
    unsigned w = widthOf(ci->getType());
    switch (ci->getOpcode()) {
    case Instruction::SIToFP: { needInt(a); Form x = toSigned(s, a.f, a.w); Val r; r.k = Val::FP; r.d = (double)concretize(s, x, 300, "numbers"); return r; }
    case Instruction::UIToFP: { needInt(a); Val r; r.k = Val::FP; r.d = (double)concretize(s, a.f, 300, "numbers"); return r; }
    case Instruction::FPToSI: case Instruction::FPToUI: { if (a.k != Val::FP) return Val(); return vc(w, normC((I)(long double)a.d, w)); }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val r = a; if (ci->getType()->isFloatTy()) r.d = (float)r.d; return r; }
    default: break;
    }
    if (a.k == Val::Undef) return a;
    if (a.k == Val::FP) throw Stuck{"bit cast of a floating point value"};
    switch (ci->getOpcode()) {
    case Instruction::ZExt: return vint(w, a.f);
    case Instruction::SExt: { if (a.w == 1) return vc(w, a.f.c ? pw2(w) - 1 : 0); Form x = toSigned(s, a.f, a.w); return vint(w, wrapTo(s, x, w)); }
    case Instruction::Trunc: return vint(w, w == 1 ? andConst(s, a.f, 1) : wrapTo(s, a.f, w));
    case Instruction::PtrToInt: return vint(w, wrapTo(s, a.f, w));
    case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return vint(w, a.f);
    default: throw Stuck{std::string("cast ") + ci->getOpcodeName()};
    }
  }
  void jump(State &s, Frame &f, const BasicBlock *to) {
    int from = f.bb; int nb = f.fi->bbn[to]; std::vector<std::pair<const Value *, Val>> ph; int ip = 0;
    for (auto *i : f.fi->ins[nb]) { auto *p = dyn_cast<PHINode>(i); if (!p) break; ph.push_back({p, get(s, f, p->getIncomingValueForBlock(f.fi->bbs[from]))}); ip++; }
    for (auto &x : ph) set(f, x.first, x.second);
    f.prev = from; f.bb = nb; f.ip = ip;
  }
  void afterCall(State &s, Frame &f, const CallBase *cb) { // f is the frame that made the call
    if (auto *iv = dyn_cast<InvokeInst>(cb)) jump(s, f, iv->getNormalDest()); else f.ip++;
  }
  bool unwound = false;
  void thrown(State &s, const std::string &what, I e = 0, const GlobalValue *ti = nullptr);
  void unwind(State &s);
  bool builtin(State &s, Frame &f, const CallBase *cb, Function *F, std::vector<Val> &a, Val &ret);
  void step(State &s);
  void run(State init);
};
static Val makeVar(State &s, unsigned w, I lo, I hi, const std::string &name) {
  Form f; if (lo == hi) { f.c = lo; } else { Var v; v.lo = lo; v.hi = hi; s.vars.push_back(v); f.t.push_back({(int)s.vars.size() - 1, 1}); }
  if (!name.empty()) s.roots.push_back({name, f});
  return vint(w, f);
}
static P<Obj> &deadStack() { static P<Obj> d; if (!d) { d = P<Obj>(new Obj); d->dead = true; d->name = intern("a local variable of a function that returned"); } return d; }
static void leave(State &s) { Frame &f = s.fr.back(); for (int id : f.allocas) s.mem[(id - NG) / 64].mut().o[(id - NG) % 64] = deadStack(); s.fr.pop_back(); }
// does this clause take an exception of type ti (null: one thrown by the standard library, a std::exception)
static bool clauseTakes(const LandingPadInst *lp, unsigned i, const GlobalValue *ti) {
  if (lp->isFilter(i)) throw Stuck{"exception specification"};
  auto *c = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) return true;
  if (c == ti) return true;
  StringRef n = c->getName();
  if (n == "_ZTISt9exception") { if (!ti || ti->getName().starts_with("_ZTISt")) return true; }
  if (ti && !ti->getName().starts_with("_ZTISt")) { auto *g = dyn_cast<GlobalVariable>(ti); // fundamental types have no bases
    if (ti->getName().size() == 5) return false; if (g && g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) if (cs->getNumOperands() == 2) return false; }
  if (ti && ti->getName() == "_ZTISt9bad_alloc") return n == "_ZTISt9bad_alloc" || n == "_ZTISt9exception";
  if (n.starts_with("_ZTIN10__cxxabiv115__forced_unwind")) return false;
  throw Stuck{"an exception is thrown where it may be caught by its type"};
}
static int typeId(const Constant *c) { if (isa<ConstantPointerNull>(c)) return 1; auto *g = dyn_cast<GlobalValue>(c->stripPointerCasts()); if (!g) throw Stuck{"exception type"}; return gid.count(g) ? gid[g] + 1 : 1; }
// to the nearest landing pad on the way to a handler
void Machine::unwind(State &s) {
  const GlobalValue *ti = s.excType.count(idOf(s.exc)) ? s.excType[idOf(s.exc)] : nullptr;
  for (;;) {
    if (s.fr.empty()) throw Violation{"an exception leaves the program"};
    Frame &f = s.fr.back(); const Instruction *in = f.fi->ins[f.bb][f.ip];
    if (auto *iv = dyn_cast<InvokeInst>(in)) {
      auto *lp = iv->getLandingPadInst(); s.sel = 0; bool take = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (clauseTakes(lp, i, ti)) { take = true; s.sel = typeId(lp->getClause(i)); break; }
      if (take) { jump(s, f, iv->getUnwindDest()); unwound = true; return; }
    }
    if (f.fi->F->doesNotThrow()) throw Violation{"an exception leaves a function that promises none"};
    leave(s);
  }
}
// an exception: to its handler, if the code under analysis has one
void Machine::thrown(State &s, const std::string &what, I e, const GlobalValue *ti) {
  bool handler = false;
  for (auto &f : s.fr) if (auto *iv = dyn_cast<InvokeInst>(f.fi->ins[f.bb][f.ip])) { auto *lp = iv->getLandingPadInst(); for (unsigned i = 0; i < lp->getNumClauses(); i++) if (clauseTakes(lp, i, ti)) handler = true; }
  if (!handler) throw Violation{"an exception is thrown (" + what + ")"};
  if (!e) { int id = newObj(s, Obj::Buf, 128, intern("exception")); e = objBase(id); }
  if (ti) s.excType[idOf(e)] = ti;
  s.exc = e; unwind(s);
}
bool Machine::builtin(State &s, Frame &f, const CallBase *cb, Function *F, std::vector<Val> &a, Val &ret) {
  StringRef n = F->getName();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::donothing: return true;
    case Intrinsic::eh_typeid_for: { auto *c = dyn_cast<Constant>(cb->getArgOperand(0)->stripPointerCasts()); if (!c) throw Stuck{"exception type"}; ret = vc(32, typeId(c)); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::annotation: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = vc(1, 0); return true;
    case Intrinsic::objectsize: ret = vc(widthOf(F->getReturnType()), pw2(widthOf(F->getReturnType())) - 1); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { I sz = concretize(s, needInt(a[2]).f, 300, "sizes"); if (sz) copyMem(s, addrOf(s, a[0]), addrOf(s, a[1]), (int64_t)sz), s.steps += (uint64_t)sz; return true; }
    case Intrinsic::memset: { I sz = concretize(s, needInt(a[2]).f, 300, "sizes"); if (!sz) return true; I d = addrOf(s, a[0]); Obj &o = checkAccess(s, d, (int64_t)sz, true); std::vector<std::pair<int64_t, Cell>> keep; int64_t off = (int64_t)offOf(d); clearRange(s, o, off, (int64_t)sz, keep); if (sz > 100000) throw Stuck{"large memset"}; P<Obj> &m = mutObj(s, idOf(d)); commitClear(*m, keep); for (int64_t i = 0; i < sz; i++) m->cells[off + i] = Cell{1, a[1]}; return true; }
    case Intrinsic::ctlz: { unsigned w = needInt(a[0]).w; if (!decideGE(s, a[0].f, 1)) { if (needInt(a[1]).f.c) throw Violation{"count of leading zeros of zero (undefined)"}; ret = vc(w, w); return true; } for (int b = w - 1; b >= 0; b--) if (decideGE(s, a[0].f, pw2(b))) { ret = vc(w, w - 1 - b); return true; } throw Stuck{"ctlz"}; }
    case Intrinsic::cttz: { unsigned w = needInt(a[0]).w; if (!decideGE(s, a[0].f, 1)) { if (needInt(a[1]).f.c) throw Violation{"count of trailing zeros of zero (undefined)"}; ret = vc(w, w); return true; } for (unsigned b = 0; b < w; b++) { Form x = andConst(s, a[0].f, pw2(b)); if (decideGE(s, x, 1)) { ret = vc(w, b); return true; } } throw Stuck{"cttz"}; }
    case Intrinsic::ctpop: { unsigned w = needInt(a[0]).w; Form r; for (unsigned b = 0; b < w; b++) { Form x = andConst(s, a[0].f, pw2(b)); if (decideGE(s, x, 1)) r.c++; } ret = vint(w, r); return true; }
    case Intrinsic::bswap: { unsigned w = needInt(a[0]).w; Form r; for (unsigned i = 0; i < w / 8; i++) { Val b = byteOf(s, a[0], w / 8, i); r = fadd(r, b.f, pw2(w - 8 - 8 * i)); } norm(s, r); ret = vint(w, r); return true; }
    case Intrinsic::umin: { bool g = icmp(s, CmpInst::ICMP_ULE, needInt(a[0]), needInt(a[1])); ret = g ? a[0] : a[1]; return true; }
    case Intrinsic::umax: { bool g = icmp(s, CmpInst::ICMP_UGE, needInt(a[0]), needInt(a[1])); ret = g ? a[0] : a[1]; return true; }
    case Intrinsic::smin: { bool g = icmp(s, CmpInst::ICMP_SLE, needInt(a[0]), needInt(a[1])); ret = g ? a[0] : a[1]; return true; }
    case Intrinsic::smax: { bool g = icmp(s, CmpInst::ICMP_SGE, needInt(a[0]), needInt(a[1])); ret = g ? a[0] : a[1]; return true; }
    case Intrinsic::abs: { Form x = toSigned(s, needInt(a[0]).f, a[0].w); ret = vint(a[0].w, decideGE(s, x, 0) ? x : fscale(x, -1)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = needInt(a[0]).w; I k = concretize(s, needInt(a[2]).f, 70, "shift") % w; if (F->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w; if (k == 0) { ret = F->getIntrinsicID() == Intrinsic::fshl ? a[0] : a[1]; return true; } Form hi = wrapTo(s, fscale(a[0].f, pw2(k)), w); Form q, r; divmod(s, a[1].f, pw2(w - (unsigned)k), q, r); Form o = fadd(hi, q); norm(s, o); ret = vint(w, o); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = F->getIntrinsicID(); unsigned w = needInt(a[0]).w; needInt(a[1]); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Form x = sg ? toSigned(s, a[0].f, w) : a[0].f, y = sg ? toSigned(s, a[1].f, w) : a[1].f; Form r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? fadd(x, y) : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? fadd(x, y, -1) : mulForms(s, x, y);
      I mn = sg ? -pw2(w - 1) : 0, mx = sg ? pw2(w - 1) : pw2(w); bool ov = decideGE(s, r, mx) || !decideGE(s, r, mn);
      ret.k = Val::Agg; ret.agg = std::make_shared<std::vector<Val>>(); ret.agg->push_back(vint(w, wrapTo(s, r, w))); ret.agg->push_back(vc(1, ov)); return true; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw Violation{"the program traps"};
    case Intrinsic::stacksave: ret = vc(64, 0); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::threadlocal_address: /* one thread */ case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw Stuck{"variadic function"};
    case Intrinsic::floor: ret.k = Val::FP; ret.d = __builtin_floor(a[0].d); return true;
    case Intrinsic::ceil: ret.k = Val::FP; ret.d = __builtin_ceil(a[0].d); return true;
    default: throw Stuck{"intrinsic " + n.str()};
    }
  }
  if (n.starts_with("__vp_")) {
    StringRef m = n.drop_front(5);
    if (m == "var") { std::string nm = cstr(s, a[0]); I lo = needInt(a[1]).f.c, hi = needInt(a[2]).f.c; if (!a[1].f.isC() || !a[2].f.isC()) { lo = concretize(s, a[1].f, 300, "bounds"); hi = concretize(s, a[2].f, 300, "bounds"); } if (lo > hi) throw Killed(); ret = makeVar(s, 64, lo, hi, nm); return true; }
    if (m == "hidden") { I lo = concretize(s, needInt(a[0]).f, 300, "bounds"), hi = concretize(s, needInt(a[1]).f, 300, "bounds"); ret = makeVar(s, 64, lo, hi, ""); return true; }
    if (m == "choose") { std::string nm = cstr(s, a[0]); I k = concretize(s, needInt(a[1]).f, 300, "choices"); if (k <= 0) throw Killed(); Val v = makeVar(s, 32, 0, k - 1, nm);
      // make the choice now: fork through a variable
      if (k > 1) { // replace instruction result by forking: record var in the frame result, concretised by the next use
        int vi = v.f.t[0].v; I from = 0, by = 1; if (sliceN > 1 && !s.sliced && nm == sliceName) { s.sliced = true; from = sliceK; by = sliceN; if (from >= k) throw Killed(); }
        State base = s; for (I i = from + by; i < k; i += by) { State c = base; c.vars[vi].lo = c.vars[vi].hi = i; Frame &cf = c.fr.back(); set(cf, cb, vc(32, i)); afterCall(c, cf, cb); work.push_back(std::move(c)); nForks++; } s.vars[vi].lo = s.vars[vi].hi = from; ret = vc(32, from); return true; }
      ret = vc(32, 0); return true; }
    if (m == "assert") { nAssert++; std::string msg = cstr(s, a[1]); assertCount[msg]++; needInt(a[0]); if (decideEQ0(s, a[0].f)) throw Violation{msg}; return true; }
    if (m == "assert_eq") { nAssert++; std::string msg = cstr(s, a[2]); assertCount[msg]++; needInt(a[0]); needInt(a[1]); if (!decideEQ0(s, fadd(a[0].f, a[1].f, -1))) throw Violation{msg + ": got " + fstr(s, a[0].f) + ", expected " + fstr(s, a[1].f)}; return true; }
    if (m == "assume") { needInt(a[0]); if (decideEQ0(s, a[0].f)) throw Killed(); return true; }
    if (m == "cell") { I ad = addrOf(s, a[0]); Obj &o = checkAccess(s, ad, 1, false); auto it = o.cells.find((int64_t)offOf(ad)); int sz = it != o.cells.end() ? it->second.size : 1; ret = vc(32, sz); return true; }
    if (m == "kill") throw Killed();
    if (m == "buf") { std::string nm = cstr(s, a[0]); I k = concretize(s, needInt(a[1]).f, 300, "sizes"); int id = newObj(s, Obj::Buf, (int64_t)k, intern(nm)); ret = vc(64, objBase(id)); return true; }
    if (m == "freeze") { I p = addrOf(s, a[0]); I on = needInt(a[1]).f.c; mutObj(s, idOf(p))->ro = on != 0; return true; }
    if (m == "no_alloc") { s.noAlloc = needInt(a[0]).f.c != 0; return true; }
    if (m == "fail_alloc") { s.failAlloc = (int)needInt(a[0]).f.c; s.failed = s.failNow = false; return true; }
    if (m == "alloc_failed") { ret = vc(32, s.failed); return true; }
    if (m == "steps") { ret = vc(64, s.steps); return true; }
    if (m == "live") { I k = 0; for (int id = NG; id < NG + s.nmem; id++) { P<Obj> &o = objRef(s, id); if (o && o->kind == Obj::Heap && !o->dead) k++; } ret = vc(64, k); return true; }
    if (m == "kill_obj") { I p = addrOf(s, a[0]); mutObj(s, idOf(p))->dead = true; return true; }
    if (m == "cover") { covers[cstr(s, a[0])]++; return true; }
    if (m == "attr_set") { Form k = needInt(a[0]).f, v = needInt(a[2]).f; int slot = (int)concretize(s, needInt(a[1]).f, 64, "slots"); norm(s, k); norm(s, v); s.attrs.push_back({k, slot, v}); return true; }
    if (m == "attr_has" || m == "attr_get") { Form k = needInt(a[0]).f; int slot = (int)concretize(s, needInt(a[1]).f, 64, "slots"); norm(s, k); bool found = false; Form val;
      for (auto &x : s.attrs) { if (x.slot != slot) continue; norm(s, x.key); norm(s, x.val); if (x.key == k) { if (!found) { found = true; val = x.val; } else if (!(x.val == val)) { if (!decideEQ0(s, fadd(x.val, val, -1))) throw Killed(); } } }
      if (m == "attr_has") ret = vc(32, found); else { if (!found) throw Stuck{"attribute of an unknown element"}; ret = vint(64, val); } return true; }
    if (m == "pair_set") { Form x = needInt(a[0]).f, y = needInt(a[1]).f, v = needInt(a[3]).f; int slot = (int)concretize(s, needInt(a[2]).f, 64, "slots"); norm(s, x); norm(s, y); norm(s, v); s.pairs.push_back({x, y, slot, v}); return true; }
    if (m == "pair_has" || m == "pair_get") { Form x = needInt(a[0]).f, y = needInt(a[1]).f; int slot = (int)concretize(s, needInt(a[2]).f, 64, "slots"); norm(s, x); norm(s, y); bool found = false; Form val;
      for (auto &p : s.pairs) { if (p.slot != slot) continue; norm(s, p.a); norm(s, p.b); norm(s, p.val); if (p.a == x && p.b == y) { if (!found) { found = true; val = p.val; } else if (!(p.val == val)) { if (!decideEQ0(s, fadd(p.val, val, -1))) throw Killed(); } } }
      if (m == "pair_has") ret = vc(32, found); else { if (!found) throw Stuck{"unknown pair"}; ret = vint(64, val); } return true; }
    if (m == "emit") { std::string tag = cstr(s, a[0]); I p = addrOf(s, a[1]); I k = concretize(s, needInt(a[2]).f, 300, "sizes"); std::string vals; std::set<int> used; auto pf = [&](Form fm) { norm(s, fm); for (auto &t : fm.t) used.insert(t.v); std::string r = "[" + istr(fm.c); for (auto &t : fm.t) r += "," + std::to_string(t.v) + "," + istr(t.k); return r + "]"; };
      for (int i = 0; i < k; i++) { Val v = loadBytes(s, p + 8 * i, 8, 64); if (v.k != Val::Int) throw Violation{"use of an uninitialised value"}; vals += (i ? "," : "") + pf(v.f); }
      std::string rt; for (auto &r : s.roots) rt += (rt.empty() ? "" : ",") + std::string("\"") + jesc(r.name) + "\":" + pf(r.f);
      std::string df; for (auto &d : s.diffs) { used.insert(d.a); used.insert(d.b); df += (df.empty() ? "[" : ",[") + std::to_string(d.a) + "," + std::to_string(d.b) + "," + istr(d.c) + "]"; }
      std::string vr; for (int v : used) vr += (vr.empty() ? "" : ",") + std::string("\"") + std::to_string(v) + "\":[" + istr(s.vars[v].lo) + "," + istr(s.vars[v].hi) + "]";
      printf("{\"emit\":\"%s\",\"vals\":[%s],\"roots\":{%s},\"vars\":{%s},\"diffs\":[%s]%s}\n", tag.c_str(), vals.c_str(), rt.c_str(), vr.c_str(), df.c_str(), s.imprecise.empty() ? "" : ",\"imprecise\":true"); nEmit++; return true; }
    if (m == "print") { fprintf(stderr, "print %s %s\n", cstr(s, a[0]).c_str(), a[1].k == Val::Int ? fstr(s, a[1].f).c_str() : "undef"); return true; }
    throw Stuck{"unknown " + n.str()};
  }
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") {
    if (s.noAlloc) throw Violation{"memory is allocated while reading text"};
    if (s.failAlloc && !s.failed && !s.failNow && !s.fine) { State c = s; c.failNow = true; nForks++; nStates++; work.push_back(std::move(c)); s.fine = true; }
    if (s.failNow || (s.failAlloc == 1 && s.failed)) { // out of memory
      s.failNow = false; s.failed = true;
      if (n == "malloc" || n.contains("nothrow")) { ret = vc(64, 0); return true; }
      thrown(s, "out of memory", 0, M->getNamedValue("_ZTISt9bad_alloc")); return true; }
    I k = concretize(s, needInt(a[0]).f, 300, "sizes"); if (k > (ONE << 32)) throw Violation{"allocation of " + istr(k) + " octets"}; int id = newObj(s, Obj::Heap, (int64_t)k, intern("allocated block")); ret = vc(64, objBase(id)); s.fine = false; return true; }
  if (n == "calloc") { if (s.noAlloc) throw Violation{"memory is allocated while reading text"}; I k = concretize(s, needInt(a[0]).f, 300, "sizes") * concretize(s, needInt(a[1]).f, 300, "sizes"); int id = newObj(s, Obj::Heap, (int64_t)k, intern("allocated block")); mutObj(s, id)->zero = true; ret = vc(64, objBase(id)); return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
    I p = addrOf(s, a[0]); if (p == 0) return true; P<Obj> &o = objRef(s, idOf(p)); if (o->kind != Obj::Heap || offOf(p) != 0) throw Violation{"release of memory that was not allocated"}; if (o->dead) throw Violation{"memory released twice"}; P<Obj> &mo = mutObj(s, idOf(p)); mo->dead = true; mo->cells.clear(); return true; }
  if (n == "memcpy" || n == "memmove") { if (!F->isDeclaration()) return false; I sz = concretize(s, needInt(a[2]).f, 300, "sizes"); if (sz) copyMem(s, addrOf(s, a[0]), addrOf(s, a[1]), (int64_t)sz), s.steps += (uint64_t)sz; ret = a[0]; return true; }
  if (n == "__clang_call_terminate") throw Violation{"an exception leaves a function that promises none"};
  if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "__stack_chk_fail") throw Violation{"the program is terminated by " + n.str()};
  if (n == "__cxa_guard_acquire") { I p = addrOf(s, a[0]); Val b = loadBytes(s, p, 1, 8); bool done = b.k == Val::Int && b.f.isC() && b.f.c != 0; ret = vc(32, !done); return true; }
  if (n == "__cxa_guard_release") { I p = addrOf(s, a[0]); storeVal(s, p, 1, vc(8, 1)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret = vc(32, 0); return true; }
  if (F->isDeclaration()) {
    if (n == "__cxa_allocate_exception") { if (s.noAlloc) throw Violation{"an exception is thrown (throw)"}; I k = concretize(s, needInt(a[0]).f, 300, "sizes"); ret = vc(64, objBase(newObj(s, Obj::Buf, (int64_t)k, intern("exception")))); return true; }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw") { I e = addrOf(s, a[0]), t = addrOf(s, a[1]); const GlobalValue *ti = nullptr; for (auto &g : gid) if (g.second == idOf(t)) ti = g.first; thrown(s, "throw", e, ti); return true; }
    if (n == "__cxa_begin_catch") { I e = addrOf(s, a[0]); s.caught.push_back(e); ret = vc(64, e); return true; }
    if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
    if (n == "__cxa_end_catch") { if (s.caught.empty()) throw Stuck{"exception handling"}; s.caught.pop_back(); return true; }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) throw Violation{"the program is terminated by a rethrow without an exception"}; I e = s.caught.back(); const GlobalValue *ti = s.excType.count(idOf(e)) ? s.excType[idOf(e)] : nullptr; thrown(s, "throw", e, ti); return true; }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) { thrown(s, shortName(n.str())); return true; }
    throw Stuck{"call to a function without a body: " + shortName(n.str())};
  }
  if (n.starts_with("_ZSt") && n.contains("__throw_")) { thrown(s, shortName(n.str()), 0, n.contains("bad_alloc") ? M->getNamedValue("_ZTISt9bad_alloc") : nullptr); return true; }
  return false;
}

static const std::string *localName(const Instruction *in, FnInfo *fi) {
  static DenseMap<const Instruction *, const std::string *> m; auto it = m.find(in); if (it != m.end()) return it->second;
  return m[in] = intern("local variable " + (in->hasName() ? in->getName().str() : std::string("(temporary)")) + " of " + shortName(fi->name));
}
void Machine::step(State &s) {
  Frame &f = s.fr.back();
  const Instruction *in = f.fi->ins[f.bb][f.ip];
  switch (in->getOpcode()) {
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(in); I cnt = concretize(s, needInt(get(s, f, al->getArraySize())).f, 300, "sizes");
    int64_t sz = (int64_t)(cnt * (I)allocSize(al->getAllocatedType()));
    int id = newObj(s, Obj::Stack, sz, localName(in, f.fi));
    f.allocas.push_back(id); set(f, in, vc(64, objBase(id))); f.ip++; return; }
  case Instruction::Load: {
    auto *li = cast<LoadInst>(in); Val p = get(s, f, li->getPointerOperand());
    if (p.k == Val::Undef) throw Violation{"read through an uninitialised pointer"};
    needInt(p); Val v;
    if (!p.f.isC() && constIndex(s, p.f, li->getType(), v)) { set(f, in, v); f.ip++; return; }
    I a = concretize(s, p.f, 70000, "addresses"); v = loadT(s, li->getType(), a); set(f, in, v); f.ip++; return; }
  case Instruction::Store: {
    auto *si = cast<StoreInst>(in); Val p = get(s, f, si->getPointerOperand()); Val v = get(s, f, si->getValueOperand());
    I a = addrOf(s, p); storeT(s, si->getValueOperand()->getType(), a, v); f.ip++; return; }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(in); Val b = get(s, f, g->getPointerOperand()); if (b.k == Val::Undef) { set(f, in, Val()); f.ip++; return; }
    Form r = needInt(b).f;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value *op = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) { r.c += (I)(uint64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
      Val ix = get(s, f, op); if (ix.k == Val::Undef) throw Violation{"use of an uninitialised value as an index"}; Form x = toSigned(s, needInt(ix).f, ix.w); r = fadd(r, x, (I)allocSize(it.getIndexedType()));
    }
    set(f, in, vint(64, wrapTo(s, r, 64))); f.ip++; return; }
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(in); Val a = get(s, f, c->getOperand(0)), b = get(s, f, c->getOperand(1));
    if (a.k == Val::Undef || b.k == Val::Undef) { set(f, in, Val()); f.ip++; return; }
    bool r = icmp(s, c->getPredicate(), needInt(a), needInt(b)); set(f, in, vc(1, r)); f.ip++; return; }
  case Instruction::FCmp: {
    auto *c = cast<FCmpInst>(in); Val a = get(s, f, c->getOperand(0)), b = get(s, f, c->getOperand(1)); if (a.k != Val::FP || b.k != Val::FP) throw Stuck{"floating point comparison"};
    bool r; switch (c->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a.d == b.d; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a.d != b.d; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a.d < b.d; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a.d <= b.d; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a.d > b.d; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a.d >= b.d; break; default: throw Stuck{"fcmp"}; }
    set(f, in, vc(1, r)); f.ip++; return; }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(in); if (b->isUnconditional()) { jump(s, f, b->getSuccessor(0)); return; }
    Val c = get(s, f, b->getCondition()); if (c.k == Val::Undef) throw Violation{"a decision depends on an uninitialised value"};
    bool t = !decideEQ0(s, c.f); jump(s, f, b->getSuccessor(t ? 0 : 1)); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(in); Val c = get(s, f, sw->getCondition()); if (c.k == Val::Undef) throw Violation{"a decision depends on an uninitialised value"};
    for (auto &k : sw->cases()) { Form d = c.f; d.c -= (I)k.getCaseValue()->getZExtValue(); if (decideEQ0(s, d)) { jump(s, f, k.getCaseSuccessor()); return; } }
    jump(s, f, sw->getDefaultDest()); return; }
  case Instruction::Select: {
    auto *b = cast<SelectInst>(in); Val c = get(s, f, b->getCondition()); if (c.k == Val::Undef) throw Violation{"a decision depends on an uninitialised value"};
    bool t = !decideEQ0(s, c.f); set(f, in, get(s, f, t ? b->getTrueValue() : b->getFalseValue())); f.ip++; return; }
  case Instruction::ExtractValue: {
    auto *e = cast<ExtractValueInst>(in); Val a = get(s, f, e->getAggregateOperand()); for (unsigned i : e->indices()) { if (a.k != Val::Agg) { a = Val(); break; } Val t = (*a.agg)[i]; a = t; } set(f, in, a); f.ip++; return; }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(in); Val a = get(s, f, e->getAggregateOperand()); Val x = get(s, f, e->getInsertedValueOperand());
    std::function<Val(Val, Type *, unsigned)> ins = [&](Val cur, Type *T, unsigned d) -> Val { if (d == e->getNumIndices()) return x; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(n); if (cur.k == Val::Agg) *r.agg = *cur.agg; unsigned i = e->getIndices()[d]; (*r.agg)[i] = ins((*r.agg)[i], T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(), d + 1); return r; };
    set(f, in, ins(a, e->getType(), 0)); f.ip++; return; }
  case Instruction::Freeze: { Val a = get(s, f, in->getOperand(0)); set(f, in, a); f.ip++; return; }
  case Instruction::FNeg: { Val a = get(s, f, in->getOperand(0)); a.d = -a.d; set(f, in, a); f.ip++; return; }
  case Instruction::Fence: f.ip++; return;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(in); I a = addrOf(s, get(s, f, rm->getPointerOperand())); Val old = loadT(s, rm->getType(), a); Val x = get(s, f, rm->getValOperand()); Val nv; 
    switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = binop(s, in, Instruction::Add, old, x); break; case AtomicRMWInst::Sub: nv = binop(s, in, Instruction::Sub, old, x); break; case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Or: nv = binop(s, in, Instruction::Or, old, x); break; case AtomicRMWInst::And: nv = binop(s, in, Instruction::And, old, x); break; default: throw Stuck{"atomic"}; }
    storeT(s, rm->getType(), a, nv); set(f, in, old); f.ip++; return; }
  case Instruction::AtomicCmpXchg: {
    auto *cx = cast<AtomicCmpXchgInst>(in); I a = addrOf(s, get(s, f, cx->getPointerOperand())); Val old = loadT(s, cx->getCompareOperand()->getType(), a); Val cmp = get(s, f, cx->getCompareOperand());
    bool eq = decideEQ0(s, fadd(needInt(old).f, needInt(cmp).f, -1)); if (eq) storeT(s, cx->getNewValOperand()->getType(), a, get(s, f, cx->getNewValOperand()));
    Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(vc(1, eq)); set(f, in, r); f.ip++; return; }
  case Instruction::Unreachable: throw Violation{"control reaches a point declared unreachable"};
  case Instruction::LandingPad: { Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(vc(64, s.exc)); r.agg->push_back(vc(32, s.sel)); set(f, in, r); f.ip++; return; }
  case Instruction::Resume: { Val a = get(s, f, in->getOperand(0)); if (a.k != Val::Agg) throw Stuck{"exception handling"}; s.exc = addrOf(s, (*a.agg)[0]); if (f.fi->F->doesNotThrow()) throw Violation{"an exception leaves a function that promises none"}; leave(s); unwind(s); unwound = false; return; }
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(in); Val v; bool has = r->getReturnValue(); if (has) v = get(s, f, r->getReturnValue());
    const CallBase *site = f.site; leave(s);
    if (s.fr.empty()) return;
    Frame &c = s.fr.back(); if (site) { if (has) set(c, site, v); afterCall(s, c, site); } return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(in); if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { afterCall(s, f, cb); return; } throw Stuck{"inline assembly"}; }
    Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
    if (!F) { Val p = get(s, f, cb->getCalledOperand()); if (p.k == Val::Undef) throw Violation{"call through an uninitialised pointer"}; I a = concretize(s, needInt(p).f, 300, "callees"); auto it = fnById.find(idOf(a)); if (a == 0 || it == fnById.end() || offOf(a) != 0) throw Violation{"call through an invalid pointer"}; F = it->second; }
    std::vector<Val> args; 
    if (!(F->isIntrinsic() && isa<DbgInfoIntrinsic>(cb))) for (unsigned i = 0; i < cb->arg_size(); i++) { const Value *av = cb->getArgOperand(i); if (av->getType()->isMetadataTy()) { args.push_back(Val()); continue; } Val x = get(s, f, av);
      if (cb->isByValArgument(i)) { int64_t sz = allocSize(cb->getParamByValType(i)); int id = newObj(s, Obj::Stack, sz, intern("argument passed by value")); f.allocas.push_back(id); copyMem(s, objBase(id), addrOf(s, x), sz); x = vc(64, objBase(id)); }
      args.push_back(x); }
    Val ret; 
    if (builtin(s, f, cb, F, args, ret)) { if (unwound) { unwound = false; return; } Frame &f2 = s.fr.back(); if (!cb->getType()->isVoidTy()) set(f2, cb, ret); afterCall(s, f2, cb); return; }
    if (F->isVarArg()) throw Stuck{"variadic function " + shortName(F->getName().str())};
    pushCall(s, F, args, cb); return; }
  default:
    if (auto *bo = dyn_cast<BinaryOperator>(in)) { Val a = get(s, f, bo->getOperand(0)), b = get(s, f, bo->getOperand(1)); set(f, in, binop(s, in, bo->getOpcode(), a, b)); f.ip++; return; }
    if (auto *ci = dyn_cast<CastInst>(in)) { Val a = get(s, f, ci->getOperand(0)); set(f, in, castop(s, ci, a)); f.ip++; return; }
    throw Stuck{std::string("instruction ") + in->getOpcodeName()};
  }
}
static bool gaveUp = false; static std::string gaveUpWhy;
void Machine::run(State init) {
  work.clear(); work.push_back(std::move(init)); nStates++;
  uint64_t tick = 0;
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back();
    for (;;) {
      if (s.fr.empty()) { nPaths++; if (keepFinal) finals.push_back(s); break; }
      if ((++tick & 0xfff) == 0 && secs() > maxSeconds) { gaveUp = true; gaveUpWhy = "time limit"; return; }
      nInstr++;
      if (++s.steps > maxPathSteps) { report(s, "no end within " + std::to_string(maxPathSteps) + " steps: the operation does not terminate"); return; }
      if (s.steps > longest) longest = s.steps;
      try { step(s); }
      catch (Split &sp) {
        nForks++; std::vector<State> kids;
        for (size_t i = 0; i < sp.ch.size(); i++) { if (i + 1 == sp.ch.size()) { State c = std::move(s); if (applyRefine(c, sp.ch[i])) kids.push_back(std::move(c)); } else { State c = s; if (applyRefine(c, sp.ch[i])) kids.push_back(std::move(c)); } }
        for (size_t i = kids.size(); i-- > 0;) { nStates++; work.push_back(std::move(kids[i])); }
        if (nStates - entryStates0 > maxStates) { gaveUp = true; gaveUpWhy = "state limit"; return; }
        break;
      }
      catch (Violation &v) { report(s, v.msg); if (violKeys.size() >= maxViol) return; break; }
      catch (Stuck &v) { report(s, v.msg, "stuck"); if (violKeys.size() >= maxViol) return; break; }
      catch (Killed &) { nKilled++; break; }
    }
  }
}
int main(int argc, char **argv) {
  std::vector<std::string> files, entries; bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a.rfind("--entry=", 0) == 0) entries.push_back(a.substr(8)); else if (a.rfind("--max-steps=", 0) == 0) maxPathSteps = strtoull(a.c_str() + 12, 0, 10); else if (a.rfind("--max-states=", 0) == 0) maxStates = strtoull(a.c_str() + 13, 0, 10);
    else if (a.rfind("--max-seconds=", 0) == 0) maxSeconds = atof(a.c_str() + 14); else if (a == "--list") list = true; else if (a.rfind("--warm=", 0) == 0) warmFn = a.substr(7); else if (a.rfind("--slice=", 0) == 0) sscanf(a.c_str() + 8, "%d/%d", &sliceK, &sliceN); else if (a.rfind("--slice-by=", 0) == 0) sliceName = a.substr(11); else if (a.rfind("--max-viol=", 0) == 0) maxViol = atoi(a.c_str() + 11); else files.push_back(a); }
  for (auto &fn : files) {
    SMDiagnostic d; auto m = parseIRFile(fn, d, Ctx); if (!m) { d.print("absint", errs()); return 3; }
    if (!M) { M = std::move(m); continue; }
    for (auto &F : *m) if (!F.isDeclaration() && !F.hasLocalLinkage()) { Function *o = M->getFunction(F.getName()); if (o && !o->isDeclaration() && F.hasExternalLinkage()) { F.deleteBody(); F.setComdat(nullptr); } }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 3; }
  }
  if (!M) return 3;
  if (list) { for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("check_")) printf("%s\n", F.getName().str().c_str()); return 0; }
  DL = &M->getDataLayout();
  int id = 1;
  for (auto &g : M->globals()) { Obj *o = new Obj; o->kind = Obj::Global; o->size = g.getValueType()->isSized() ? allocSize(g.getValueType()) : 0; o->name = intern("global " + shortName(g.getName().str())); if (g.hasInitializer()) o->gv = &g; globals.push_back(P<Obj>(o)); gvById[id] = &g; gid[&g] = id++; }
  for (auto &F : *M) { Obj *o = new Obj; o->kind = Obj::Func; o->name = intern("function " + shortName(F.getName().str())); globals.push_back(P<Obj>(o)); fnById[id] = &F; gid[&F] = id++; }
  NG = ((id + 1023) / 1024) * 1024;
  if (entries.empty()) for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("check_")) entries.push_back(F.getName().str());
  // dynamic initialisers of the program, if any, run first
  State base; { Machine mc; mc.keepFinal = true; State st; std::vector<std::pair<uint64_t, Function *>> ct;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : arr->operands()) { auto *cs = cast<ConstantStruct>(&*o); if (auto *F = dyn_cast<Function>(cs->getOperand(1))) ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(ct.begin(), ct.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ct) { mc.finals.clear(); uint64_t sv = maxPathSteps; maxPathSteps = 500000000; mc.pushCall(st, c.second, {}, nullptr); mc.run(st); maxPathSteps = sv; if (mc.finals.size() != 1) { printf("{\"stuck\":\"dynamic initialisation of the program could not be analysed\",\"at\":\"\",\"repo_at\":\"\",\"inputs\":{},\"trace\":[]}\n"); return 0; } st = mc.finals[0]; st.steps = 0; }
    base = st; }
  if (warmFn.size()) { // a history of calls before each entry
    Function *F = M->getFunction(warmFn); Machine mc; mc.keepFinal = true; State st = base; mc.t0 = std::chrono::steady_clock::now();
    uint64_t sv = maxPathSteps; maxPathSteps = 200000000;
    if (F && !F->isDeclaration()) { mc.pushCall(st, F, {}, nullptr); mc.run(st); }
    maxPathSteps = sv;
    if (mc.finals.size() != 1 || gaveUp) { printf("{\"stuck\":\"the calls before could not be followed\",\"at\":\"\",\"repo_at\":\"\",\"inputs\":{},\"trace\":[]}\n"); entries.clear(); }
    else base = mc.finals[0], base.steps = 0;
    if (getenv("VP_WARM")) fprintf(stderr, "%s %.1f s %llu instructions\n", warmFn.c_str(), mc.secs(), (unsigned long long)nInstr);
  }
  writtenGlobals.clear();
  Machine mc; 
  for (auto &en : entries) {
    Function *F = M->getFunction(en); if (!F || F->isDeclaration()) { printf("{\"stuck\":\"no entry %s\",\"at\":\"\",\"repo_at\":\"\",\"inputs\":{},\"trace\":[]}\n", en.c_str()); continue; }
    entryStates0 = nStates; uint64_t s0 = nStates, i0 = nInstr, a0 = nAssert, p0 = nPaths, f0 = nForks, l0 = nLoads, w0 = nStores, k0 = nKilled; mc.t0 = std::chrono::steady_clock::now(); gaveUp = false; 
    State st = base; printf("{\"begin\":\"%s\"}\n", en.c_str()); mc.pushCall(st, F, {}, nullptr); mc.run(st);
    if (gaveUp) printf("{\"stuck\":\"%s\",\"at\":\"\",\"repo_at\":\"\",\"inputs\":{},\"trace\":[]}\n", gaveUpWhy.c_str());
    printf("{\"entry\":\"%s\",\"states\":%llu,\"paths\":%llu,\"killed\":%llu,\"partitions\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"loads\":%llu,\"stores\":%llu,\"seconds\":%.2f,\"longest_path\":%llu}\n", en.c_str(), (unsigned long long)(nStates - s0), (unsigned long long)(nPaths - p0), (unsigned long long)(nKilled - k0), (unsigned long long)(nForks - f0), (unsigned long long)(nInstr - i0), (unsigned long long)(nAssert - a0), (unsigned long long)(nLoads - l0), (unsigned long long)(nStores - w0), mc.secs(), (unsigned long long)longest);
    fflush(stdout);
    if (violKeys.size() >= maxViol) break;
  }
  for (int id : writtenGlobals) if (gvById.count(id)) { auto *g = gvById[id]; SmallVector<DIGlobalVariableExpression *, 2> ds; g->getDebugInfo(ds);
    for (auto *d : ds) if (auto *v = d->getVariable()) { std::string f = v->getFilename().str(); if (f.size() && f[0] != '/' && v->getFile()) f = v->getFile()->getDirectory().str() + "/" + f; printf("{\"written_global\":\"%s\",\"file\":\"%s\"}\n", jesc(v->getName().str()).c_str(), jesc(f).c_str()); } }
  for (auto &c : covers) printf("{\"cover\":\"%s\",\"count\":%llu}\n", jesc(c.first).c_str(), (unsigned long long)c.second);
  for (auto &c : assertCount) printf("{\"obligation\":\"%s\",\"count\":%llu}\n", jesc(c.first).c_str(), (unsigned long long)c.second);
  for (auto *F : visitedFns) { auto *sp = F->getSubprogram(); std::string file = sp && sp->getFile() ? sp->getFile()->getFilename().str() : ""; if (sp && file.size() && file[0] != '/') file = sp->getFile()->getDirectory().str() + "/" + file; if (file.find("u5e/") != std::string::npos) printf("{\"function\":\"%s\",\"file\":\"%s\",\"line\":%u}\n", jesc(shortName(F->getName().str())).c_str(), jesc(file).c_str(), sp->getLine()); }
  printf("{\"done\":true}\n");
  fflush(stdout); _exit(0);
}
