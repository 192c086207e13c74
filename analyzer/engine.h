// Abstract interpreter over LLVM IR.
#pragma once
#include "canon.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>

struct Violation { std::string cat, msg, loc; std::vector<std::string> trace; };
struct ViolEx { std::string cat, msg; };
struct PathEnd {};

inline std::string shortFile(const std::string &f) {
  size_t p = f.find("boost/intrusive/");
  if (p != std::string::npos) return f.substr(p + 6);
  p = f.rfind('/');
  return p == std::string::npos ? f : f.substr(p + 1);
}
inline std::string locOf(const llvm::Instruction *I, bool chain = false) {
  if (!I) return "?";
  const llvm::DILocation *L = I->getDebugLoc().get();
  if (!L) return "?";
  std::string r = shortFile(L->getFilename().str()) + ":" + std::to_string(L->getLine());
  if (auto *sp = L->getScope()->getSubprogram()) r += " (" + sp->getName().str() + ")";
  if (chain)
    while ((L = L->getInlinedAt())) {
      r += " <- " + shortFile(L->getFilename().str()) + ":" + std::to_string(L->getLine());
      if (auto *sp = L->getScope()->getSubprogram()) r += " (" + sp->getName().str() + ")";
    }
  return r;
}

struct Engine {
  llvm::Module &M;
  const llvm::DataLayout &DL;
  llvm::Function *F = nullptr;
  std::map<const llvm::Value *, int> valNo;
  std::map<const llvm::BasicBlock *, std::vector<int>> liveIn;
  std::set<const llvm::BasicBlock *> loopHead, mergeBB;
  std::map<const llvm::Instruction *, int> allocNo;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::set<std::string> undecided;
  // statistics
  size_t nStates = 0, nForks = 0, nEnds = 0, nJoins = 0, nPrunes = 0, nChecks = 0, nExpectPaths = 0, nStores = 0, nLoads = 0;
  std::set<std::string> sites; // heap accesses analysed (file:line)
  size_t maxStates = 60000;
  double maxSeconds = 60;
  int verbose = 0; std::map<const llvm::Instruction *, int> forkAt;
  size_t softLimit = getenv("SL") ? atoi(getenv("SL")) : 300, phiLimit = getenv("PL") ? atoi(getenv("PL")) : 1000, looseLimit = getenv("LL") ? atoi(getenv("LL")) : 30;
  std::set<std::string> stopCats; // end the analysis of an obligation at its first violation of these categories
  struct VisitSet { std::vector<Packed> entries; int joins = 0; };
  std::map<const llvm::BasicBlock *, std::map<Key128, VisitSet>> visited;
  std::deque<State> work;

  Engine(llvm::Module &m) : M(m), DL(m.getDataLayout()) {}

  // ---------- preparation
  void prepare(llvm::Function &f) {
    F = &f;
    valNo.clear(); liveIn.clear(); loopHead.clear(); mergeBB.clear(); allocNo.clear(); visited.clear();
    int n = 0, al = 1000;
    for (auto &A : f.args()) valNo[&A] = n++;
    for (auto &B : f) for (auto &I : B) {
      if (!I.getType()->isVoidTy()) valNo[&I] = n++;
      if (llvm::isa<llvm::AllocaInst>(I)) allocNo[&I] = al++;
    }
    // loop heads: targets of DFS back edges
    std::map<const llvm::BasicBlock *, int> st;
    std::vector<std::pair<const llvm::BasicBlock *, llvm::const_succ_iterator>> stk;
    const llvm::BasicBlock *e = &f.getEntryBlock();
    st[e] = 1; stk.push_back({e, llvm::succ_begin(e)});
    while (!stk.empty()) {
      auto &t = stk.back();
      if (t.second == llvm::succ_end(t.first)) { st[t.first] = 2; stk.pop_back(); continue; }
      const llvm::BasicBlock *s = *t.second; ++t.second;
      if (st[s] == 1) loopHead.insert(s);
      else if (st[s] == 0) { st[s] = 1; stk.push_back({s, llvm::succ_begin(s)}); }
    }
    for (auto &B : f) if (std::distance(llvm::pred_begin(&B), llvm::pred_end(&B)) > 1) mergeBB.insert(&B);
    // liveness
    std::map<const llvm::BasicBlock *, std::set<int>> in, use, def;
    for (auto &B : f) {
      auto &u = use[&B]; auto &d = def[&B];
      for (auto &I : B) {
        if (auto *P = llvm::dyn_cast<llvm::PHINode>(&I)) { d.insert(valNo[P]); continue; }
        for (auto &o : I.operands()) { auto it = valNo.find(o.get()); if (it != valNo.end() && !d.count(it->second)) u.insert(it->second); }
        auto it = valNo.find(&I);
        if (it != valNo.end()) d.insert(it->second);
      }
    }
    bool ch = true;
    std::vector<const llvm::BasicBlock *> bbs;
    for (auto &B : f) bbs.push_back(&B);
    while (ch) {
      ch = false;
      for (size_t i = bbs.size(); i-- > 0;) {
        auto *B = bbs[i];
        std::set<int> out;
        for (auto *S : llvm::successors(B)) {
          for (int x : in[S]) out.insert(x);
          for (auto &P : S->phis()) { auto it = valNo.find(P.getIncomingValueForBlock(B)); if (it != valNo.end()) out.insert(it->second); }
        }
        std::set<int> ni = use[B];
        for (int x : out) if (!def[B].count(x)) ni.insert(x);
        if (ni != in[B]) { in[B].swap(ni); ch = true; }
      }
    }
    // live-in including phis of the block
    for (auto *B : bbs) {
      std::set<int> l = in[B];
      for (auto &P : B->phis()) l.insert(valNo[&P]);
      liveIn[B] = std::vector<int>(l.begin(), l.end());
    }
  }

  // ---------- values
  std::map<const llvm::GlobalVariable *, int> globalIds;
  Val constVal(State &s, const llvm::Constant *c) {
    using namespace llvm;
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      Val v = vInt(Lin(ci->getBitWidth() <= 64 ? (ci->getBitWidth() == 1 ? (i64)ci->getZExtValue() : ci->getSExtValue()) : 0));
      v.off = ci->getBitWidth();
      return v;
    }
    if (isa<ConstantPointerNull>(c)) { Val v = vInt(Lin(0)); return v; }
    if (isa<UndefValue>(c)) {
      if (c->getType()->isAggregateType()) {
        Val v; v.k = VK::Agg;
        unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
        v.agg = std::make_shared<std::vector<Val>>(n);
        return v;
      }
      return Val();
    }
    if (isa<ConstantAggregateZero>(c)) {
      Val v; v.k = VK::Agg;
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
      v.agg = std::make_shared<std::vector<Val>>();
      for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(s, c->getAggregateElement(i)));
      return v;
    }
    if (auto *f = dyn_cast<Function>(c)) { Val v = vK(VK::Fn, (int)(std::hash<std::string>()(f->getName().str()) & 0x7fffffff)); return v; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) return vPtr(globalObj(s, g), 0);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) {
          Val b = constVal(s, cast<Constant>(ce->getOperand(0)));
          if (b.k == VK::Ptr) { b.off += off.getSExtValue(); return b; }
          if (b.k == VK::Int) { b.lin.c += off.getSExtValue(); return b; }
        }
      }
      if (ce->isCast()) return constVal(s, cast<Constant>(ce->getOperand(0)));
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
      Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
      for (auto &o : cs->operands()) v.agg->push_back(constVal(s, cast<Constant>(o.get())));
      return v;
    }
    return vOpq(0);
  }
  int globalObj(State &s, const llvm::GlobalVariable *g) {
    auto it = globalIds.find(g);
    if (it == globalIds.end()) it = globalIds.insert({g, -(int)globalIds.size() - 10}).first;
    if (!s.objs.count(it->second)) {
      Obj o; o.ok = OGlobal; o.name = g->getName().str(); o.allocId = it->second;
      o.dflt = vOpq(0);
      if (g->hasInitializer()) o.size = DL.getTypeAllocSize(g->getValueType());
      s.objs[it->second] = o;
    }
    return it->second;
  }
  std::map<int, const llvm::GlobalVariable *> globalById() {
    std::map<int, const llvm::GlobalVariable *> r;
    for (auto &p : globalIds) r[p.second] = p.first;
    return r;
  }
  Val get(State &s, const llvm::Value *v) {
    if (auto *c = llvm::dyn_cast<llvm::Constant>(v)) return constVal(s, c);
    auto it = valNo.find(v);
    if (it != valNo.end()) { const Val *x = s.find(it->second); if (x) return *x; }
    if (llvm::isa<llvm::MetadataAsValue>(v)) return Val();
    return Val();
  }
  void setv(State &s, const llvm::Value *v, const Val &x) { s.set(valNo.at(v), x); }

  [[noreturn]] void viol(const char *cat, const std::string &m) { throw ViolEx{cat, m}; }

  std::string desc(const State &s, const Val &v) {
    switch (v.k) {
    case VK::Undef: return "an uninitialised value";
    case VK::Int: return v.isNull() ? "null" : "integer " + v.lin.str();
    case VK::Ptr: {
      auto it = s.objs.find(v.id);
      if (it == s.objs.end()) return "a dead object";
      std::string n = it->second.name.empty() ? "node#" + std::to_string(v.id) : it->second.name;
      return "&" + n + (v.off ? "+" + std::to_string(v.off) : "") + (it->second.dead ? " (disposed)" : "");
    }
    case VK::Probe: return "poisoned memory";
    case VK::Opq: return "an unknown value";
    case VK::Front: case VK::Back: case VK::Root: case VK::Top: case VK::Bot: return "part of summary #" + std::to_string(v.id);
    case VK::First: return "first of a word";
    case VK::Last: return "last of a word";
    default: return "?";
    }
  }
  // ---------- memory
  // make sure that the cell value is directly usable (materialise summaries)
  void settle(State &s, const Val &v) {
    switch (v.k) {
    case VK::Front: throw Fork{State::matSeg(s, v.id, true)};
    case VK::Back: throw Fork{State::matSeg(s, v.id, false)};
    case VK::Root: throw Fork{State::matTree(s, v.id)};
    case VK::Top: throw Fork{State::pathUnfold(s, v.id, true)};
    case VK::Bot: throw Fork{State::pathUnfold(s, v.id, false)};
    default: return;
    }
  }
  // resolve a pointer operand to be dereferenced
  Val derefPtr(State &s, Val v, const char *what) {
    s.normVal(v);
    settle(s, v);
    if (v.k == VK::First || v.k == VK::Last) {
      const Item it = v.k == VK::First ? v.w.front() : v.w.back();
      if (!s.itemNE(it)) throw Fork{State::forkEmpty(s, it)};
      if (it.ik != IN) throw Fork{State::exposeExtreme(s, it, v.k == VK::First)};
      return s.ptrToNode(it.id);
    }
    if (v.k == VK::Ptr) {
      auto o = s.objs.find(v.id);
      if (o == s.objs.end()) viol("mem", std::string(what) + " through a pointer to an object that is no longer reachable");
      if (o->second.dead) viol("mem", std::string(what) + " of disposed element " + desc(s, v));
      return v;
    }
    if (v.k == VK::Fn) throw Undecided{"access to code"};
    if (v.k == VK::Opq && v.id == 77) throw Undecided{"access through a link lost by summarisation"};
    viol("mem", std::string(what) + " through " + desc(s, v));
  }
  Val loadBytes(State &s, const Val &p, i64 size, llvm::Type *ty) {
    Obj &o = s.objs.at(p.id);
    if (o.ok == OGlobal) {
      for (auto &g : globalIds) if (g.second == p.id && g.first->hasInitializer() && g.first->isConstant()) {
        if (auto *c = llvm::ConstantFoldLoadFromConst(const_cast<llvm::Constant *>(g.first->getInitializer()), ty, llvm::APInt(64, p.off), DL)) return constVal(s, c);
      }
    }
    auto it = o.cells.find(p.off);
    if (it != o.cells.end() && it->second.size == size) {
      Val v = it->second.v;
      settle(s, v);
      if (v.k == VK::Int) v.off = size * 8;
      return v;
    }
    // overlap?
    for (auto c = o.cells.lower_bound(p.off - 16); c != o.cells.end() && c->first < p.off + size; ++c)
      if (c->first + c->second.size > p.off) {
        if (c->second.v.isConst() && c->first <= p.off && c->first + c->second.size >= p.off + size) {
          uint64_t x = (uint64_t)c->second.v.lin.c >> (8 * (p.off - c->first));
          if (size < 8) x &= (1ull << (8 * size)) - 1;
          Val v = vInt(Lin((i64)x)); v.off = size * 8; return v;
        }
        throw Undecided{"load of part of a cell"};
      }
    if (o.dflt.k == VK::Probe) { Val v; v.k = VK::Probe; v.id = p.id; v.off = p.off; return v; }
    if (o.ok == ONode && o.size && (p.off < 0 || p.off + size > o.size)) viol("mem", "read outside of an element");
    if (o.ok == ONode && o.kind >= 0 && size == 8 && s.kinds[o.kind].hoff >= 0 && p.off == s.kinds[o.kind].nodeOff + s.kinds[o.kind].hoff && o.dflt.k == VK::Opq)
      return classHash(s, p.id);
    return o.dflt;
  }
  Val load(State &s, const Val &p, llvm::Type *ty) {
    if (auto *st = llvm::dyn_cast<llvm::StructType>(ty)) {
      Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
      auto *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.off += sl->getElementOffset(i); v.agg->push_back(load(s, q, st->getElementType(i))); }
      return v;
    }
    if (ty->isArrayTy()) {
      Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
      i64 es = DL.getTypeAllocSize(ty->getArrayElementType());
      for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) { Val q = p; q.off += i * es; v.agg->push_back(load(s, q, ty->getArrayElementType())); }
      return v;
    }
    return loadBytes(s, p, DL.getTypeStoreSize(ty), ty);
  }
  void checkWrite(State &s, const Val &p, i64 size) {
    Obj &o = s.objs.at(p.id);
    if (o.ok == ONode) {
      if (o.size && (p.off < 0 || p.off + size > o.size)) viol("mem", "write outside of an element");
      if (o.kind >= 0) {
        const Kind &K = s.kinds[o.kind];
        if (K.hookLo < K.hookHi && (p.off < K.nodeOff + K.hookLo || p.off + size > K.nodeOff + K.hookHi) && !s.flags[15])
          viol("payload", "write to bytes of the element that do not belong to its hook");
      }
    }
  }
  void storeVal(State &s, const Val &p, const Val &v, llvm::Type *ty) {
    if (v.k == VK::Agg) {
      if (auto *st = llvm::dyn_cast<llvm::StructType>(ty)) {
        auto *sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.off += sl->getElementOffset(i); storeVal(s, q, (*v.agg)[i], st->getElementType(i)); }
        return;
      }
      if (ty->isArrayTy()) {
        i64 es = DL.getTypeAllocSize(ty->getArrayElementType());
        for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) { Val q = p; q.off += i * es; storeVal(s, q, (*v.agg)[i], ty->getArrayElementType()); }
        return;
      }
      throw Undecided{"aggregate store"};
    }
    i64 size = DL.getTypeStoreSize(ty);
    checkWrite(s, p, size);
    s.store(p.id, p.off, size, v);
  }
  // ---------- comparison of pointers / integers
  // returns 0/1, or forks
  bool eqVals(State &s, Val a, Val b) {
    if ((a.k == VK::Opq && a.id == 77) || (b.k == VK::Opq && b.id == 77)) throw Undecided{"comparison with a link lost by summarisation"};
    s.normVal(a); s.normVal(b);
    auto sym = [](const Val &v) { return v.k == VK::Root || v.k == VK::Top || v.k == VK::Bot || v.k == VK::Front || v.k == VK::Back; };
    if (sym(a) || sym(b)) {
      if (a == b) return true;
      if (!sym(a)) std::swap(a, b);
      bool ne = a.k == VK::Root ? s.treeNE(s.atom(a.id)) : a.k == VK::Top || a.k == VK::Bot ? s.pathIsNE(a.id) : s.lbOf(s.atom(a.id).len) >= 1;
      if (ne && (b.isNull() || b.k == VK::Ptr)) return false; // the summarised node is not one of the explicit nodes
      settle(s, a);
    }
    if (a.k == VK::First || a.k == VK::Last || b.k == VK::First || b.k == VK::Last) {
      if (b.k == VK::First || b.k == VK::Last) std::swap(a, b);
      bool first = a.k == VK::First;
      if (b.k == VK::First || b.k == VK::Last) {
        if (a == b) return true;
        // compare two extremes: resolve the first one
        const Item it = first ? a.w.front() : a.w.back();
        if (!s.itemNE(it)) throw Fork{State::forkEmpty(s, it)};
        throw Fork{State::exposeExtreme(s, it, first)};
      }
      if (b.k == VK::Ptr) {
        bool in = false;
        for (auto &x : a.w) if (x.ik == IN && x.id == b.id) in = true;
        if (!in) return false;
        const Item it = first ? a.w.front() : a.w.back();
        if (it.ik == IN) return it.id == b.id && s.ptrToNode(it.id) == b;
        if (s.itemNE(it)) return false;
        throw Fork{State::forkEmpty(s, it)};
      }
      if (b.isNull()) return false;
      if (b.k == VK::Undef) viol("mem", "comparison with an uninitialised pointer");
      return false;
    }
    if (a.k == VK::Ptr && b.k == VK::Ptr) return a.id == b.id && a.off == b.off;
    if ((a.k == VK::Ptr && b.k == VK::Int) || (a.k == VK::Int && b.k == VK::Ptr)) return false;
    if (a.k == VK::Int && b.k == VK::Int) {
      Lin d = a.lin - b.lin;
      if (d.isConst()) {
        i64 w = a.off ? a.off : b.off;
        if (w && w < 64) return ((uint64_t)d.c << (64 - w)) == 0;
        return d.c == 0;
      }
      Lin n; n.addScaled(d, -1);
      if (s.lbOf(d) > 0 || s.lbOf(n) > 0) return false;
      // split
      std::vector<State> alts;
      State s1 = s, s2 = s;
      try { s1.requireZero(d); tidyAll(s1); alts.push_back(s1); } catch (Infeasible &) {}
      bool exact = false;
      if (s.lbOf(d) == 0 && d.isPure()) { try { s2.requireGE(d, 1); exact = true; } catch (Infeasible &) {} }
      else if (s.lbOf(n) == 0 && n.isPure()) { try { s2.requireGE(n, 1); exact = true; } catch (Infeasible &) {} }
      if (!exact) s2.assumedNe.insert(s2.assumedNe.end(), d);
      for (auto &x : s.assumedNe) if (x == d || x == n) return false;
      tidyAll(s2);
      alts.push_back(s2);
      throw Fork{alts};
    }
    if (a.k == VK::Fn && b.k == VK::Fn) return a.id == b.id;
    if (a.k == VK::Fn || b.k == VK::Fn) return false;
    if (a.k == VK::Opq && b.k == VK::Opq && a.id == b.id && a.id) return true;
    if (a.k == VK::Probe && b.k == VK::Probe && a == b) return true;
    return choice(s);
  }
  void tidyAll(State &s) {
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &a : s.atoms) {
        size_t before = s.atoms.size();
        int id = a.first;
        if (a.second.ak == ASeg) s.segTidy(id);
        else if (a.second.ak == ATree) s.treeTidy(id);
        else s.pathTidy(id);
        if (s.atoms.size() != before) { ch = true; break; }
      }
    }
  }
  bool icmp(State &s, llvm::CmpInst::Predicate P, const Val &a0, const Val &b0, unsigned width) {
    using namespace llvm;
    Val a = a0, b = b0;
    if (a.k == VK::Word) a = mk32(a.id);
    if (b.k == VK::Word) b = mk32(b.id);
    if (P == CmpInst::ICMP_EQ) return eqVals(s, a, b);
    if (P == CmpInst::ICMP_NE) return !eqVals(s, a, b);
    if (a.k == VK::Int && b.k == VK::Int) {
      Lin d = a.lin - b.lin; // a - b
      if (a.lin.isConst() && b.lin.isConst()) {
        unsigned w = std::min(64u, width);
        APInt x(w, (uint64_t)a.lin.c, true), y(w, (uint64_t)b.lin.c, true);
        switch (P) {
        case CmpInst::ICMP_UGT: return x.ugt(y); case CmpInst::ICMP_UGE: return x.uge(y);
        case CmpInst::ICMP_ULT: return x.ult(y); case CmpInst::ICMP_ULE: return x.ule(y);
        case CmpInst::ICMP_SGT: return x.sgt(y); case CmpInst::ICMP_SGE: return x.sge(y);
        case CmpInst::ICMP_SLT: return x.slt(y); case CmpInst::ICMP_SLE: return x.sle(y);
        default: break;
        }
      }
      Lin n; n.addScaled(d, -1);
      // decide a<b etc. with bounds (symbolic quantities are sizes / heights: no wrap-around)
      auto gt = [&](bool strict) -> int { // a > b (strict) or a >= b
        i64 k = strict ? 1 : 0;
        if (s.lbOf(d) >= k) return 1;
        if (s.lbOf(n) >= (strict ? 0 : 1)) return 0;
        return -1;
      };
      int r; bool neg = false; bool strict;
      switch (P) {
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: strict = true; break;
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: strict = false; break;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: strict = false; neg = true; break;
      default: strict = true; neg = true; break;
      }
      r = gt(strict);
      if (r >= 0) return neg ? !r : r;
      std::vector<State> alts;
      { State s1 = s; s1.flags[14] = 2; try { if (d.isPure()) s1.requireGE(d, strict ? 1 : 0); alts.push_back(s1); } catch (Infeasible &) {} }
      { State s1 = s; s1.flags[14] = 1; try { if (n.isPure()) s1.requireGE(n, strict ? 0 : 1); alts.push_back(s1); } catch (Infeasible &) {} }
      if (s.flags[14]) { bool v = s.flags[14] == 2; s.flags[14] = 0; return neg ? !v : v; }
      throw Fork{alts};
    }
    if (a.k == VK::Ptr && b.k == VK::Ptr && a.id == b.id) {
      switch (P) {
      case CmpInst::ICMP_UGT: return a.off > b.off; case CmpInst::ICMP_UGE: return a.off >= b.off;
      case CmpInst::ICMP_ULT: return a.off < b.off; case CmpInst::ICMP_ULE: return a.off <= b.off;
      default: break;
      }
    }
    if (s.flags[9] && a.k == VK::Ptr && b.k == VK::Ptr) { // distinct objects: elements lie all below or all above the other objects
      auto node = [&](const Val &v) { auto it = s.objs.find(v.id); return it != s.objs.end() && it->second.ok == ONode; };
      bool na = node(a), nb = node(b);
      if (na != nb && !s.flags[7]) { State x = s, y = s; x.flags[7] = 1; y.flags[7] = 2; throw Fork{{x, y}}; }
      if (!na || !nb) {
        bool less = na != nb ? (na == (s.flags[7] == 1)) : a.id < b.id;
        return P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE ? less : !less;
      }
    }
    return choice(s);
  }
  // unconstrained boolean
  bool choice(State &s) {
    if (s.flags[13]) { bool v = s.flags[13] == 2; s.flags[13] = 0; return v; }
    throw Fork{{s.withFlagChoice(0), s.withFlagChoice(1)}};
  }
  bool asBool(State &s, const Val &v) {
    if (v.isConst()) return v.lin.c & 1;
    if (v.k == VK::Undef) viol("mem", "branch on an uninitialised value");
    return choice(s);
  }
#include "builtins.inc"
#include "exec.inc"
};
