// Effects of a set of functions on memory that outlives the call.
//   effects a.bc b.bc ... [--entry-prefix=all_]
// Inclusion-based points-to analysis over the linked module, then every write reachable from the entries is examined.
// Prints one JSON record per finding, and a summary.
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <cstdio>
#include <cstring>
using namespace llvm;
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string dem(StringRef n) { return demangle(n.str()); }

enum OK { OGlobal, OAlloca, OHeap, OFunction, OCaller };
struct Obj { OK k; const Value* v; int content; std::string name; };
static std::vector<Obj> objs; static std::vector<std::set<int>> pts; static std::vector<std::set<int>> succ;
struct Cx { std::set<int> loads, stores; const CallBase* none = nullptr; };
static std::vector<std::set<int>> loadsFrom, storesTo;      // node p -> nodes that load through p / are stored through p
static std::vector<std::vector<std::function<void(int)>>> on;   // node -> callbacks for each new object
static std::map<const Value*, int> node; static std::map<const Value*, int> objOf;
static std::deque<int> work; static std::vector<char> inwork;
static int mknode() { pts.emplace_back(); succ.emplace_back(); loadsFrom.emplace_back(); storesTo.emplace_back(); on.emplace_back(); inwork.push_back(0); done: return pts.size() - 1; }
static std::vector<std::set<int>> handled;
static void push(int n) { if (!inwork[n]) { inwork[n] = 1; work.push_back(n); } }
static bool addpt(int n, int o) { if (pts[n].insert(o).second) { push(n); return true; } return false; }
static void edge(int a, int b) { if (a < 0 || b < 0 || a == b) return; if (succ[a].insert(b).second) { bool ch = false; for (int o : pts[a]) ch |= pts[b].insert(o).second; if (ch) push(b); } }
static int mkobj(OK k, const Value* v, const std::string& name) { int c = mknode(); objs.push_back({k, v, c, name}); return objs.size() - 1; }
static int val(const Value* v);
static void init_content(int o, const Constant* c) {
  if (auto* g = dyn_cast<GlobalValue>(c)) { edge(val(g), objs[o].content); return; }
  for (auto& u : c->operands()) if (auto* k = dyn_cast<Constant>(u)) init_content(o, k);
}
static int constObj = -1;
static int val(const Value* v) {
  auto it = node.find(v); if (it != node.end()) return it->second;
  if (isa<ConstantData>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return node[v] = -1;
  if (auto* it = dyn_cast<IntegerType>(v->getType()); (it && it->getBitWidth() < 64) || v->getType()->isFloatingPointTy()) return node[v] = -1;   // too narrow to hold an address
  int n = mknode(); node[v] = n;
  if (auto* a = dyn_cast<GlobalAlias>(v)) { edge(val(a->getAliasee()), n); return n; }
  if (auto* g = dyn_cast<GlobalValue>(v)) {
    auto* cg = dyn_cast<GlobalVariable>(g);
    int o;
    if (cg && cg->isConstant()) {     // all constant objects are one
      if (constObj < 0) constObj = mkobj(OGlobal, g, "constants");
      o = constObj;
    } else o = mkobj(isa<Function>(g) ? OFunction : OGlobal, g, g->getName().str());
    objOf[g] = o; addpt(n, o);
    if (auto* gv = dyn_cast<GlobalVariable>(g)) if (gv->hasInitializer()) init_content(o, gv->getInitializer());
    return n;
  }
  if (auto* c = dyn_cast<Constant>(v)) for (auto& u : c->operands()) edge(val(u), n);
  return n;
}
static void load_into(int p, int n);
static int load_node(int p) { if (p < 0) return -1; int n = mknode(); load_into(p, n); return n; }
static void load_into(int p, int n) { if (p < 0 || n < 0) return; if (loadsFrom[p].insert(n).second) { std::vector<int> cur(pts[p].begin(), pts[p].end()); for (int o : cur) edge(objs[o].content, n); } }
static void store_into(int p, int v) { if (p < 0 || v < 0) return; if (storesTo[p].insert(v).second) { std::vector<int> cur(pts[p].begin(), pts[p].end()); for (int o : cur) edge(v, objs[o].content); } }
static void when(int p, std::function<void(int)> f) { if (p < 0) return; auto seen = std::make_shared<std::set<int>>(); auto g = f; f = [=](int o) { if (seen->insert(o).second) g(o); }; on[p].push_back(f); std::vector<int> cur(pts[p].begin(), pts[p].end()); for (int o : cur) f(o); }
static void solve() {
  while (!work.empty()) {
    int n = work.front(); work.pop_front(); inwork[n] = 0; handled.resize(pts.size());
    std::vector<int> fresh; for (int o : pts[n]) if (!handled[n].count(o)) fresh.push_back(o);
    for (int o : fresh) handled[n].insert(o);
    for (int o : fresh) {
      std::vector<int> l(loadsFrom[n].begin(), loadsFrom[n].end()), s(storesTo[n].begin(), storesTo[n].end());
      for (int d : l) edge(objs[o].content, d);
      for (int d : s) edge(d, objs[o].content);
      auto cbs = on[n]; for (auto& f : cbs) f(o);
    }
    std::vector<int> ss(succ[n].begin(), succ[n].end());
    for (int d : ss) { bool ch = false; for (int o : pts[n]) ch |= pts[d].insert(o).second; if (ch) push(d); }
  }
}

struct Finding { std::string kind, what; const Instruction* at; };
static std::vector<Finding> found; static std::set<std::string> unknown;
struct Write { const Instruction* i; int node; const char* how; bool ext; bool constOk; };
static std::vector<Write> writes;
static std::map<const Function*, std::set<const Function*>> callees; static std::map<const Function*, std::vector<const CallBase*>> extcalls;
static std::map<const Function*, int> retNode; static int callerObj = -1;

static const char* deny[] = {"getenv","secure_getenv","setenv","putenv","unsetenv","clearenv","rand","srand","random","srandom","initstate","setstate","drand48","lrand48","mrand48","srand48","strtok","setlocale","localeconv","newlocale","uselocale","signal","sigaction","raise",
  "printf","fprintf","vprintf","vfprintf","puts","fputs","putchar","fputc","putc","putw","fwrite","fread","fopen","fopen64","fclose","fflush","fgets","getchar","getc","gets","scanf","fscanf","perror","open","open64","read","write","close","lseek","remove","rename","unlink","tmpnam","tmpfile","mkstemp",
  "time","clock","gettimeofday","clock_gettime","localtime","gmtime","asctime","ctime","tzset","mktime","strerror","strsignal","getpid","fork","execve","system","popen","exit","_exit","quick_exit","atexit","__cxa_atexit","__cxa_thread_atexit","at_quick_exit","abort_handler_s","sleep","usleep","nanosleep",
  "mmap","munmap","mprotect","brk","sbrk","syscall","dlopen","dlsym","chdir","umask","fesetround","fesetenv","feenableexcept","mblen","mbtowc","wctomb","mbrlen","isalpha","isalnum","isspace","isupper","islower","isdigit","isprint","ispunct","toupper","tolower","towupper","towlower","iswalpha","iswspace","strcoll","strxfrm","wcscoll","malloc_trim","mallopt","longjmp","_setjmp","setjmp","srandom_r","pthread_create","pthread_mutex_lock","pthread_mutex_unlock","pthread_once","pthread_key_create","pthread_setspecific","pthread_getspecific","call_once","hsearch","hcreate","lsearch","strdup_s","ecvt","fcvt","l64a","crypt","encrypt","setkey","getopt","__ctype_b_loc","__ctype_toupper_loc","__ctype_tolower_loc","__errno_location",nullptr};
static std::set<std::string> denySet;
static bool heapfn(StringRef n) { return n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "strdup" || n.starts_with("_Znw") || n.starts_with("_Zna") || n == "__cxa_allocate_exception"; }
static bool harmless(StringRef n) {
  return n == "free" || n.starts_with("_Zdl") || n.starts_with("_Zda") || n.starts_with("_ZSt") && n.contains("__throw") || n == "__gxx_personality_v0" || n == "_Unwind_Resume" || n.starts_with("__cxa_begin_catch") || n == "__cxa_end_catch" || n == "__cxa_rethrow" || n == "__cxa_throw" || n == "__cxa_free_exception"
    || n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "__stack_chk_fail" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate" || n.starts_with("__ubsan") || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length" || n == "_ZSt7nothrow";
}
// arguments of the C library that the function only reads
static bool readsOnly(StringRef n, unsigned i) {
  static const char* ro[] = {"strlen","strcmp","strncmp","memcmp","bcmp","memchr","strchr","strrchr","strstr","wcslen","wmemcmp","wmemchr","bsearch","abs","labs","llabs","div","ldiv","lldiv","strnlen","strspn","strcspn","strpbrk","atoi","atol","strtol","strtoul", nullptr};
  for (const char** p = ro; *p; p++) if (n == *p) return true;
  static const char* first[] = {"memcpy","memmove","memset","strcpy","strncpy","strcat","strncat","memccpy","mempcpy","stpcpy","wmemcpy","wmemset","wmemmove","snprintf","sprintf","vsnprintf","qsort", nullptr};
  for (const char** p = first; *p; p++) if (n == *p) return i != 0;
  if (n.starts_with("_ZNKSt")) return i == 0;
  if (n.starts_with("__cxa_guard")) return false;
  return false;
}
static bool mathfn(StringRef n) { static std::set<std::string> m = {"sqrt","pow","log","log2","log10","exp","ceil","floor","round","trunc","fabs","fmod","sqrtf","powf","ceilf","floorf","fabsf","ldexp","frexp"}; return m.count(n.str()); }

static void function(const Function* f);
static std::set<const Function*> started; static std::vector<const Function*> todo;
static void start(const Function* f) { if (!f->isDeclaration() && started.insert(f).second) todo.push_back(f); }
static void connect(const Function* caller, const CallBase* cb, const Function* f, const std::vector<int>& args) {
  if (f->isDeclaration()) return;
  callees[caller].insert(f); start(f); unsigned k = 0;
  for (auto& a : f->args()) { if (k < args.size()) edge(args[k], val(&a)); k++; }
  if (cb && !cb->getType()->isVoidTy()) edge(retNode[f], val(cb));
}
static void external(const Function* caller, const CallBase* cb, const Function* f) {
  StringRef n = f->getName(); extcalls[caller].push_back(cb);
  auto A = [&](unsigned i) { return i < cb->arg_size() ? val(cb->getArgOperand(i)) : -1; };
  int r = cb->getType()->isVoidTy() ? -1 : val(cb);
  if (heapfn(n)) { int o = mkobj(OHeap, cb, "heap"); if (r >= 0) addpt(r, o); if (n == "realloc") edge(A(0), r); return; }
  if (harmless(n) || mathfn(n)) return;
  if (n == "bsearch" || n == "qsort" || n == "qsort_r") {
    int x = n == "bsearch" ? A(0) : A(0), y = n == "bsearch" ? A(1) : A(0); unsigned fp = n == "bsearch" ? 4 : 3;
    if (n == "bsearch") edge(A(1), r); else writes.push_back({cb, A(0), "qsort", true, false});
    when(A(fp), [=](int o) { if (objs[o].k == OFunction) connect(caller, nullptr, cast<Function>(objs[o].v), {x, y}); });
    return;
  }
  bool mem = n == "memcpy" || n == "memmove" || n == "strcpy" || n == "strncpy" || n == "mempcpy" || n == "wmemcpy" || n == "wmemmove";
  if (mem) { int t = load_node(A(1)); store_into(A(0), t); edge(A(0), r); writes.push_back({cb, A(0), "memory copy", true, false}); return; }
  if (denySet.count(n.str())) { return; }
  bool pure = f->doesNotAccessMemory() || f->onlyReadsMemory();
  int h = mkobj(OHeap, cb, "heap of " + n.str());
  if (r >= 0) addpt(r, h);
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue;
    if (r >= 0) { edge(A(i), r); load_into(A(i), r); }
    if (pure || readsOnly(n, i)) continue;
    int t = mknode(); addpt(t, h); store_into(A(i), t);
    writes.push_back({cb, A(i), "call", true, true});
  }
  bool std = n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt") || n.starts_with("_ZN9__gnu_cxx") || n.starts_with("_ZNK9__gnu_cxx") || n.starts_with("__cxa_guard") || n.starts_with("__atomic");
  bool lib = readsOnly(n, 1) || readsOnly(n, 0) || pure;
  if (!std && !lib) unknown.insert(n.str());
}
static void function(const Function* f) {
  if (f->isDeclaration()) return;
  for (auto& bb : *f) for (auto& in : bb) {
    const Instruction* i = &in;
    if (auto* a = dyn_cast<AllocaInst>(i)) { int o = mkobj(OAlloca, a, a->getName().str()); addpt(val(a), o); }
    else if (auto* l = dyn_cast<LoadInst>(i)) { load_into(val(l->getPointerOperand()), val(l)); }
    else if (auto* s = dyn_cast<StoreInst>(i)) { store_into(val(s->getPointerOperand()), val(s->getValueOperand())); writes.push_back({i, val(s->getPointerOperand()), s->isAtomic() ? "atomic store" : "store", false, false}); }
    else if (auto* x = dyn_cast<AtomicRMWInst>(i)) { load_into(val(x->getPointerOperand()), val(i)); store_into(val(x->getPointerOperand()), val(x->getValOperand())); writes.push_back({i, val(x->getPointerOperand()), "atomic update", false, false}); }
    else if (auto* x = dyn_cast<AtomicCmpXchgInst>(i)) { load_into(val(x->getPointerOperand()), val(i)); store_into(val(x->getPointerOperand()), val(x->getNewValOperand())); writes.push_back({i, val(x->getPointerOperand()), "atomic exchange", false, false}); }
    else if (auto* x = dyn_cast<ReturnInst>(i)) { if (x->getReturnValue()) edge(val(x->getReturnValue()), retNode[f]); }
    else if (auto* m = dyn_cast<MemTransferInst>(i)) { int t = load_node(val(m->getRawSource())); store_into(val(m->getRawDest()), t); writes.push_back({i, val(m->getRawDest()), "memory copy", false, false}); }
    else if (auto* m = dyn_cast<MemSetInst>(i)) writes.push_back({i, val(m->getRawDest()), "memory fill", false, false});
    else if (auto* c = dyn_cast<CallBase>(i)) {
      if (auto* ii = dyn_cast<IntrinsicInst>(c)) {
        if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) edge(val(ii->getArgOperand(0)), val(ii));
        else if (!ii->getType()->isVoidTy()) for (auto& u : ii->args()) edge(val(u), val(ii));
        continue;
      }
      if (c->isInlineAsm()) { auto* as = cast<InlineAsm>(c->getCalledOperand()); if (!as->getAsmString().empty()) unknown.insert("inline assembly"); continue; }
      std::vector<int> args; for (auto& u : c->args()) args.push_back(val(u));
      const Value* cal = c->getCalledOperand()->stripPointerCasts();
      if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
      if (auto* t = dyn_cast<Function>(cal)) { if (t->isDeclaration()) external(f, c, t); else connect(f, c, t, args); }
      else when(val(cal), [=](int o) { if (objs[o].k != OFunction) return; auto* t = cast<Function>(objs[o].v); if (t->isDeclaration()) external(f, c, t); else connect(f, c, t, args); });
    } else if (!i->getType()->isVoidTy()) { for (auto& u : i->operands()) if (!isa<BasicBlock>(u)) edge(val(u), val(i)); }
  }
}
static void where(const Instruction* i, std::string& at, std::string& chain) {
  const DILocation* d = i->getDebugLoc().get(); at = ""; chain = ""; std::string first;
  for (; d; d = d->getInlinedAt()) {
    std::string p = d->getFilename().starts_with("/") ? d->getFilename().str() : (d->getDirectory() + "/" + d->getFilename()).str();
    p += ":" + std::to_string(d->getLine()); auto* sp = d->getScope() ? d->getScope()->getSubprogram() : nullptr;
    if (first.empty()) first = p;
    if (at.empty() && p.find("/usr/") != 0) at = p;
    chain += (chain.empty() ? "" : " <- ") + (sp ? sp->getName().str() : std::string("?")) + " " + p;
  }
  if (at.empty()) {
    auto* sp = i->getFunction()->getSubprogram();
    at = sp ? sp->getFilename().str() + ":" + std::to_string(sp->getLine()) : first;
    if (sp && !sp->getFilename().starts_with("/")) at = (sp->getDirectory() + "/" + at).str();
  }
}
int main(int argc, char** argv) {
  LLVMContext cx; SMDiagnostic err; std::unique_ptr<Module> m; std::string prefix = "all_"; std::vector<std::string> files;
  for (const char** d = deny; *d; d++) denySet.insert(*d);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--entry-prefix=", 0) == 0) prefix = a.substr(15); else files.push_back(a); }
  std::vector<std::string> libfns; std::set<std::string> startup;
  // start-up code, by module, before linking
  for (auto& f : files) {
    auto x = parseIRFile(f, err, cx); if (!x) { err.print("effects", errs()); return 4; }
    std::string src = x->getSourceFileName(); bool harness = src.find("/verif/harness/") != std::string::npos || src.find("/harness/") != std::string::npos;
    for (auto& fn : *x) if (!fn.isDeclaration() && fn.hasExternalLinkage() && !fn.hasLinkOnceLinkage() && !harness) libfns.push_back(fn.getName().str());
    for (auto& g : x->ifuncs()) printf("{\"startup\":\"resolver of %s\",\"unit\":\"%s\",\"at\":\"\",\"benign\":0}\n", esc(dem(g.getName())).c_str(), esc(src).c_str());
    for (const char* nm : {"llvm.global_ctors", "llvm.global_dtors"}) if (auto* g = x->getGlobalVariable(nm)) if (g->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& e : arr->operands()) {
        auto* st = cast<ConstantStruct>(e); auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if (!fn) continue; startup.insert(fn->getName().str());
        // what it initialises: globals it or the functions it calls directly (of the same module) write or construct
        std::set<const Function*> seen; std::vector<const Function*> q{fn}; std::string at; bool benign = true; std::string what; 
        while (!q.empty()) { auto* y = q.back(); q.pop_back(); if (!seen.insert(y).second) continue;
          if (y->getSubprogram() && y != fn) { at = y->getSubprogram()->getFilename().str() + ":" + std::to_string(y->getSubprogram()->getLine()); }
          for (auto& bb : *y) for (auto& in : bb) {
            if (auto* c = dyn_cast<CallBase>(&in)) { auto* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases()); if (!t) { benign = false; what += "calls through a pointer"; continue; } if (t->isIntrinsic()) continue; StringRef tn = t->getName();
              if (tn == "_ZNSt8ios_base4InitC1Ev" || (tn == "__cxa_atexit" && c->arg_size() && isa<Function>(c->getArgOperand(0)->stripPointerCasts()) && cast<Function>(c->getArgOperand(0)->stripPointerCasts())->getName() == "_ZNSt8ios_base4InitD1Ev")) continue;
              if (t->getName().starts_with("__cxx_global_var_init") || t->getName().starts_with("_GLOBAL__")) { q.push_back(t); continue; }
              benign = false; what += (what.empty() ? "" : ", ") + ("calls " + dem(tn)); }
            else if (auto* s = dyn_cast<StoreInst>(&in)) { benign = false; if (auto* gv = dyn_cast<GlobalVariable>(s->getPointerOperand()->stripInBoundsOffsets())) what += (what.empty() ? "" : ", ") + ("sets " + dem(gv->getName())); }
          } }
        printf("{\"startup\":\"%s %s\",\"unit\":\"%s\",\"at\":\"%s\",\"benign\":%d}\n", esc(dem(fn->getName())).c_str(), esc(what.substr(0, 300)).c_str(), esc(src).c_str(), esc(at).c_str(), int(benign));
      }
    if (!m) m = std::move(x); else if (Linker::linkModules(*m, std::move(x))) { fprintf(stderr, "cannot link %s\n", f.c_str()); return 4; }
  }
  { LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager pm; if (auto e = pb.parsePassPipeline(pm, "inferattrs,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg))")) { errs() << toString(std::move(e)); return 4; }
    pm.run(*m, mam); }
  callerObj = mkobj(OCaller, nullptr, "caller's"); addpt(objs[callerObj].content, callerObj);
  for (auto& f : *m) if (!f.isDeclaration()) retNode[&f] = mknode();
  std::set<std::string> libset(libfns.begin(), libfns.end()); std::vector<const Function*> entries;
  for (auto& f : *m) if (!f.isDeclaration()) {
    std::string dn = dem(f.getName());
    if (libset.count(f.getName().str()) || dn.rfind(prefix, 0) == 0) { entries.push_back(&f); for (auto& a : f.args()) if (!a.hasStructRetAttr() || true) { int n = val(&a); if (n >= 0) addpt(n, callerObj); } }
    if (!entries.empty() && entries.back() == &f) start(&f);
    if (f.getName().starts_with("_GLOBAL__") || f.getName().starts_with("__cxx_global_var_init") || startup.count(f.getName().str())) start(&f);
  }
  while (!todo.empty() || !work.empty()) { while (!todo.empty()) { auto* f = todo.back(); todo.pop_back(); function(f); } solve(); }
  // reachable from the entries (not from start-up code)
  std::set<const Function*> reach; std::vector<const Function*> q(entries.begin(), entries.end()); std::map<const Function*, const Function*> from;
  while (!q.empty()) { auto* f = q.back(); q.pop_back(); if (!reach.insert(f).second) continue; for (auto* c : callees[f]) if (!reach.count(c)) { from[c] = f; q.push_back(c); } }
  // objects that outlive the call: globals and what they lead to
  std::set<int> shared; std::map<int, int> via; std::vector<int> sq;
  for (unsigned o = 0; o < objs.size(); o++) if (objs[o].k == OGlobal) { shared.insert(o); sq.push_back(o); }
  while (!sq.empty()) { int o = sq.back(); sq.pop_back(); for (int p : pts[objs[o].content]) if (objs[p].k == OHeap && shared.insert(p).second) { via[p] = o; sq.push_back(p); } }
  auto path = [&](const Function* f) { std::string s; for (int k = 0; f && k < 8; k++) { s += (s.empty() ? "" : " <- ") + dem(f->getName()).substr(0, 120); auto it = from.find(f); f = it == from.end() ? nullptr : it->second; } return s; };
  std::set<std::pair<std::string, std::string>> seen; long nw = 0, nf = 0, ni = 0, ne = 0;
  for (auto* f : reach) { nf++; for (auto& bb : *f) ni += bb.size(); ne += extcalls[f].size(); }
  for (auto& w : writes) {
    if (!reach.count(w.i->getFunction())) continue;
    nw++;
    if (w.node < 0) continue;
    for (int o : pts[w.node]) if (shared.count(o)) {
      int root = o; while (via.count(root)) root = via[root];
      auto* gv = dyn_cast<GlobalVariable>(objs[root].v);
      if (o == constObj || via.count(o) && root == constObj) {     // constants are one object here: only a write straight to one counts
        const Value* d = isa<StoreInst>(w.i) ? cast<StoreInst>(w.i)->getPointerOperand() : isa<MemIntrinsic>(w.i) ? cast<MemIntrinsic>(w.i)->getRawDest() : nullptr;
        auto* k = d ? dyn_cast<GlobalVariable>(getUnderlyingObject(d)) : nullptr; if (!k || !k->isConstant()) continue;
        gv = k;
      }
      if (gv && gv->getName().starts_with("_ZTV")) continue;
      std::string at, chain; where(w.i, at, chain);
      std::string name = gv ? dem(gv->getName()) : objs[root].name; bool guard = gv && gv->getName().starts_with("_ZGV");
      std::string kind = guard ? "one-time initialisation guarded by" : objs[o].k == OHeap ? "writes memory held by" : gv && gv->isThreadLocal() ? "writes the per-thread object" : gv && gv->isConstant() ? "writes a constant object, such as" : "writes the object of static storage";
      if (w.ext) { auto* c = cast<CallBase>(w.i); std::string t = c->getCalledFunction() ? dem(c->getCalledFunction()->getName()) : "a function"; if (!guard) kind = "hands to " + t.substr(0, 100) + " the object of static storage"; }
      if (!seen.insert({at, name}).second) continue;
      printf("{\"effect\":\"%s %s (%s)\",\"at\":\"%s\",\"function\":\"%s\",\"chain\":\"%s\",\"path\":\"%s\"}\n", esc(kind).c_str(), esc(name).c_str(), w.how, esc(at).c_str(), esc(dem(w.i->getFunction()->getName())).substr(0, 300).c_str(), esc(chain).substr(0, 900).c_str(), esc(path(w.i->getFunction())).c_str());
    }
  }
  for (auto* f : reach) for (auto* c : extcalls[f]) {
    const Function* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (!t) continue;
    if (denySet.count(t->getName().str())) { std::string at, chain; where(c, at, chain); if (seen.insert({at, t->getName().str()}).second)
      printf("{\"effect\":\"calls %s, which changes or depends on the state of the process\",\"at\":\"%s\",\"function\":\"%s\",\"chain\":\"%s\",\"path\":\"%s\"}\n", esc(dem(t->getName())).c_str(), esc(at).c_str(), esc(dem(f->getName())).substr(0, 300).c_str(), esc(chain).substr(0, 900).c_str(), esc(path(f)).c_str()); }
  }
  for (auto& u : unknown) printf("{\"unknown\":\"%s\"}\n", esc(dem(u)).c_str());
  long mut = 0, con = 0; for (auto& g : m->globals()) { if (g.getName().starts_with("llvm.")) continue; (g.isConstant() ? con : mut)++; }
  std::string en; for (auto* e : entries) en += (en.empty() ? "\"" : ",\"") + esc(dem(e->getName())).substr(0, 120) + "\"";
  printf("{\"summary\":1,\"functions\":%ld,\"instructions\":%ld,\"writes\":%ld,\"external_calls\":%ld,\"mutable_globals\":%ld,\"constant_globals\":%ld,\"objects\":%zu,\"entries\":[%s]}\n", nf, ni, nw, ne, mut, con, objs.size(), en.c_str());
}
