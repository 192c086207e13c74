#include "alloc.h"
#include <sstream>
#include "engine.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <cstring>
#include <regex>
#include <fstream>
#include <set>
using namespace llvm;

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
int main(int argc, char **argv) {
  std::set<std::string> stopCats;
  std::string file, re = ".*"; int verbose = 0; double secs = 60; size_t maxStates = 60000; bool list = false, dump = false, useSet = false; std::set<std::string> want;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "-f")) re = argv[++i];
    else if (!strcmp(argv[i], "-F")) { std::ifstream in(argv[++i]); std::string l; useSet = true; while (std::getline(in, l)) if (!l.empty()) want.insert(l); }
    else if (!strcmp(argv[i], "-v")) ++verbose;
    else if (!strcmp(argv[i], "-x")) { std::stringstream ss(argv[++i]); std::string c; while (std::getline(ss, c, ',')) stopCats.insert(c); }
    else if (!strcmp(argv[i], "-t")) secs = atof(argv[++i]);
    else if (!strcmp(argv[i], "-n")) maxStates = atoll(argv[++i]);
    else if (!strcmp(argv[i], "--list")) list = true;
    else if (!strcmp(argv[i], "--ll")) dump = true;
    else file = argv[i];
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("vfa", errs()); return 3; }
  std::regex rx(re);
  auto wanted = [&](const std::string &n) { return useSet ? want.count(n) > 0 : std::regex_match(n, rx); };
  std::vector<std::string> specs;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string n = F.getName().str();
    if (n.compare(0, 5, "spec_") == 0) { if (wanted(n)) specs.push_back(n); }
    else { F.addFnAttr(Attribute::AlwaysInline); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
  }
  for (auto &F : *M) { // drop specs that are not requested: less to inline
    std::string n = F.getName().str();
    if (!F.isDeclaration() && n.compare(0, 5, "spec_") == 0 && !wanted(n)) F.deleteBody();
  }
  if (list) { for (auto &n : specs) outs() << n << "\n"; return 0; }
  {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa<preserve-cfg>,simplifycfg),globaldce,always-inline,function(sroa<preserve-cfg>,simplifycfg<no-keep-loops;no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,early-cse,sroa<modify-cfg>,simplifycfg,instsimplify,dce),globaldce")) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  }
  if (dump) { M->print(outs(), nullptr); return 0; }
  bool anyViol = false;
  for (auto &n : specs) {
    Function *F = M->getFunction(n);
    if (!F) continue;
    Engine E(*M);
    E.verbose = verbose; E.maxSeconds = secs; E.maxStates = maxStates; E.stopCats = stopCats;
    auto t0 = std::chrono::steady_clock::now();
    E.run(*F);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    size_t entries = 0;
    for (auto &v : E.visited) entries += v.second.size();
    outs() << "{\"spec\":\"" << n << "\",\"states\":" << E.nStates << ",\"forks\":" << E.nForks << ",\"ends\":" << E.nEnds << ",\"joins\":" << E.nJoins << ",\"pruned\":" << E.nPrunes
           << ",\"checks\":" << E.nChecks << ",\"expected_asserts\":" << E.nExpectPaths << ",\"abstract_states\":" << entries << ",\"loops\":" << E.loopHead.size() << ",\"heap_reads\":" << E.nLoads << ",\"heap_writes\":" << E.nStores << ",\"sites\":" << E.sites.size()
           << ",\"secs\":" << format("%.2f", dt) << ",\"undecided\":[";
    bool first = true;
    for (auto &u : E.undecided) { outs() << (first ? "" : ",") << '"' << jesc(u) << '"'; first = false; }
    outs() << "],\"violations\":[";
    first = true;
    for (auto &v : E.viols) {
      anyViol = true;
      outs() << (first ? "" : ",") << "{\"cat\":\"" << jesc(v.cat) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"trace\":[";
      for (size_t i = 0; i < v.trace.size(); ++i) outs() << (i ? "," : "") << '"' << jesc(v.trace[i]) << '"';
      outs() << "]}";
      first = false;
    }
    outs() << "]}\n";
    outs().flush();
  }
  return anyViol ? 1 : 0;
}
