// Effect analyses over the operations of drivers/ops.cpp (entries op_<flags>__<config>__<name>).
// eff file.bc -m calls|rec|write|throw|loop -F list-of-entries | --list
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <regex>
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string base(StringRef f) { auto p = f.rfind("boost/intrusive/"); return p == StringRef::npos ? f.str() : f.substr(p + 16).str(); }
static std::string loc(const Instruction &I) {
  std::string r;
  for (DILocation *d = I.getDebugLoc().get(); d; d = d->getInlinedAt()) { if (!r.empty()) r += " < "; r += base(d->getFilename()) + ":" + std::to_string(d->getLine()); }
  return r.empty() ? "?" : r;
}
struct Viol { std::string cat, msg, loc; };
static bool isOp(const Function &F) { return F.getName().starts_with("op_"); }
static std::string flags(StringRef n) { n = n.substr(3); return n.substr(0, n.find("__")).str(); }
static bool isUser(const Function &F) { return F.getName().contains("3vfu"); }
static std::string dem(const Function &F) { return demangle(F.getName().str()); }
static bool allocFn(StringRef n) {
  if (n.ends_with("16boost_move_new_t") || n == "_ZnwmPv" || n == "_ZdlPvS_") return false; // placement forms
  return n.starts_with("_Zn") || n.starts_with("_Zd") || n == "malloc" || n == "calloc" || n == "realloc" || n == "free" || n == "aligned_alloc" || n == "posix_memalign" || n == "strdup" || n.starts_with("_ZNSt9allocator") || n.starts_with("__cxa_allocate");
}
static const std::set<std::string> pure = {"__assert_fail", "_ZSt9terminatev", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_rethrow", "__gxx_personality_v0", "_Unwind_Resume", "log", "logf", "log2", "pow", "powf", "sqrt", "sqrtf", "ceil", "floor", "ceilf", "floorf", "abs", "memcmp", "abort", "memset", "memcpy", "memmove"};
int main(int argc, char **argv) {
  std::string file, mode = "calls"; std::set<std::string> want; bool useSet = false, list = false; std::regex rx(".*");
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "-m")) mode = argv[++i];
    else if (!strcmp(argv[i], "-f")) rx = std::regex(argv[++i]);
    else if (!strcmp(argv[i], "-F")) { std::ifstream in(argv[++i]); std::string l; useSet = true; while (std::getline(in, l)) if (!l.empty()) want.insert(l); }
    else if (!strcmp(argv[i], "--list")) list = true;
    else file = argv[i];
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("eff", errs()); return 3; }
  std::vector<Function *> ops;
  for (auto &F : *M) if (!F.isDeclaration() && isOp(F)) {
    std::string n = F.getName().str();
    if (useSet ? want.count(n) : std::regex_match(n, rx)) ops.push_back(&F); else F.deleteBody();
  }
  if (list) { for (auto *F : ops) outs() << F->getName() << "\n"; return 0; }
  bool flat = mode == "write" || mode == "throw" || mode == "loop";
  std::map<std::string, std::vector<Viol>> res; std::map<std::string, std::vector<std::string>> und; std::map<std::string, long> checked;
  if (flat) {
    for (auto &F : *M) if (!F.isDeclaration()) {
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      if (!isOp(F)) { F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    }
    for (const char *n : {"__cxa_end_catch", "__cxa_begin_catch", "_ZSt9terminatev", "__assert_fail"}) if (auto *F = M->getFunction(n)) F->addFnAttr(Attribute::NoUnwind);
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    std::string p = "function(sroa<preserve-cfg>,simplifycfg),globaldce,always-inline,globaldce,function(sroa<modify-cfg>,simplifycfg,early-cse,instsimplify,sroa<modify-cfg>,simplifycfg,early-cse,instsimplify,dce,simplifycfg)";
    if (mode == "loop") p += ",function(instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-deletion),loop-unroll<O2;full-unroll-max=64;no-partial;no-runtime>,sroa<modify-cfg>,instcombine<no-verify-fixpoint>,simplifycfg)";
    if (mode == "throw") p = "cgscc(function-attrs,function(simplifycfg))," + p;
    if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
    for (auto *F : ops) {
      std::string n = F->getName().str(), fl = flags(n); auto &V = res[n]; auto &U = und[n]; long &k = checked[n];
      std::set<std::string> seen;
      auto add = [&](const char *cat, const std::string &m, const Instruction &I) { std::string l = loc(I); if (V.size() < 5 && seen.insert(m + l).second) V.push_back({cat, m, l}); };
      for (auto &I : instructions(*F)) {
        auto *cb = dyn_cast<CallBase>(&I); Function *callee = cb ? cb->getCalledFunction() : nullptr;
        if (cb && !callee && !cb->isInlineAsm()) U.push_back("indirect call at " + loc(I));
        if (callee && !callee->isDeclaration() && callee != F) U.push_back("call that could not be flattened: " + dem(*callee));
        if (mode == "write") {
          SmallVector<const Value *, 4> obj; const Value *ptr = nullptr;
          if (auto *s = dyn_cast<StoreInst>(&I)) ptr = s->getPointerOperand();
          else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) ptr = I.getOperand(0);
          else if (auto *m = dyn_cast<AnyMemIntrinsic>(&I)) ptr = m->getDest();
          if (!ptr) continue;
          ++k;
          getUnderlyingObjects(ptr, obj, nullptr, 0);
          for (auto *o : obj) if (!isa<AllocaInst>(o)) { std::string s; raw_string_ostream os(s); o->printAsOperand(os, false); add("write", "a read-only operation writes to memory that is not its own", I); break; }
        } else if (mode == "throw" && callee) {
          ++k;
          if (callee->getName() == "_ZSt9terminatev" || callee->getName() == "abort") {
            // find which call leads here
            std::string who;
            for (auto &J : instructions(*F)) if (auto *iv = dyn_cast<InvokeInst>(&J)) if (iv->getUnwindDest() == I.getParent()) { who = " after " + (iv->getCalledFunction() ? dem(*iv->getCalledFunction()) : std::string("?")) + " called at " + loc(J); break; }
            add("terminate", "an exception of a user functor reaches a noexcept boundary: std::terminate instead of propagating" + who, I);
          }
          else if (fl.find('n') != std::string::npos) {
            if (isUser(*callee) && !cb->doesNotThrow() && !callee->doesNotThrow()) add("throwing", "an operation documented not to throw calls user code that may throw: " + dem(*callee), I);
            if (callee->getName() == "__cxa_throw" || callee->getName() == "__cxa_allocate_exception") add("throwing", "an operation documented not to throw throws", I);
          }
        }
      }
      if (mode == "loop") {

        auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*F); auto &LI2 = FAM.getResult<LoopAnalysis>(*F);
        k += F->size();
        for (auto *L : LI2) {
          unsigned tc = SE.getSmallConstantMaxTripCount(L);
          if (tc && tc <= 64) continue;
          const Instruction *at = L->getHeader()->getTerminator();
          for (auto &I : *L->getHeader()) if (I.getDebugLoc() && !isa<PHINode>(I)) { at = &I; break; }
          add("loop", "an operation documented as constant time contains a loop", *at);
        }
        for (auto it = scc_begin(F); !it.isAtEnd(); ++it) if (it.hasCycle()) { bool in = false; for (auto *b : *it) if (LI2.getLoopFor(b)) in = true; if (!in) add("loop", "an operation documented as constant time contains a cycle", *(*it)[0]->getTerminator()); }
        for (auto &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == F) add("loop", "an operation documented as constant time is recursive", I);
      }
    }
  } else {
    CallGraph CG(*M);
    std::set<Function *> recursive; std::map<Function *, std::string> cycle;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      bool rec = it->size() > 1;
      if (!rec) for (auto &e : *(*it)[0]) if (e.second == (*it)[0]) rec = true;
      if (rec) { std::string s; for (auto *n : *it) if (n->getFunction()) s += (s.empty() ? "" : " -> ") + dem(*n->getFunction()); for (auto *n : *it) if (n->getFunction() && !isUser(*n->getFunction())) { recursive.insert(n->getFunction()); cycle[n->getFunction()] = s; } }
    }
    for (auto *F : ops) {
      std::string n = F->getName().str(); auto &V = res[n]; long &k = checked[n];
      std::set<Function *> seen; std::vector<Function *> wl{F}; std::map<Function *, std::pair<Function *, Instruction *>> from;
      while (!wl.empty()) {
        Function *G = wl.back(); wl.pop_back();
        if (!seen.insert(G).second) continue;
        ++k;
        auto path = [&](Function *x) { std::string s; for (int i = 0; i < 12 && x && from.count(x); ++i) { s += (s.empty() ? "" : " < ") + loc(*from[x].second); x = from[x].first; } return s; };
        if (mode == "rec" && recursive.count(G) && V.size() < 3) V.push_back({"recursion", "recursion: " + cycle[G].substr(0, 300), path(G)});
        if (mode == "calls") {
          StringRef nm = G->getName();
          if (allocFn(nm) && V.size() < 3) V.push_back({"alloc", "the library calls an allocation function: " + dem(*G), path(G)});
          else if (G->isDeclaration() && !isUser(*G) && !G->isIntrinsic() && !pure.count(nm.str()) && V.size() < 3) V.push_back({"extern", "the library calls an unexpected external function: " + dem(*G), path(G)});
        }
        for (auto &I : instructions(*G)) {
          if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { if (!from.count(c) && c != F) from[c] = {G, &I}; wl.push_back(c); }
            else if (!cb->isInlineAsm()) und[n].push_back("indirect call at " + loc(I));
          }
        }
      }
    }
  }
  bool any = false;
  for (auto *F : ops) {
    std::string n = F->getName().str();
    outs() << "{\"spec\":\"" << n << "\",\"checks\":" << checked[n] << ",\"ends\":1,\"undecided\":["; bool f = true;
    for (auto &u : und[n]) { outs() << (f ? "" : ",") << '"' << jesc(u) << '"'; f = false; }
    outs() << "],\"violations\":["; f = true;
    for (auto &v : res[n]) { any = true; outs() << (f ? "" : ",") << "{\"cat\":\"" << v.cat << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"trace\":[]}"; f = false; }
    outs() << "]}\n";
  }
  return any ? 1 : 0;
}
