  // ---------- execution (members of Engine)
  void enter(State &s, const llvm::BasicBlock *to, const llvm::BasicBlock *from) {
    std::vector<std::pair<int, Val>> ph;
    for (auto &P : to->phis()) { ph.push_back({valNo[&P], get(s, P.getIncomingValueForBlock(from))}); }
    s.bb = to; s.pred = from;
    for (auto &p : ph) s.set(p.first, p.second);
    auto *I = to->getFirstNonPHI();
    s.pc = I;
    // keep live values only
    const auto &l = liveIn[to];
    std::vector<std::pair<int, Val>> e;
    for (int n : l) if (auto *v = s.find(n)) e.push_back({n, *v});
    s.env.swap(e);
  }
  // Non-volatile slots that can never be read again keep stale pointers alive; clear allocas at lifetime.end.
  void clearAlloca(State &s, const llvm::Value *p) {
    Val v = get(s, p);
    if (v.k == VK::Ptr) { auto it = s.objs.find(v.id); if (it != s.objs.end() && it->second.ok == OAlloca) it->second.cells.clear(); }
  }
  // forget details that later obligations do not need, to keep the number of shapes small
  void weaken(State &s) {
    for (auto &p : s.atoms) {
      Atom &a = p.second;
      if (a.ak != APath) continue;
      int m = a.loose ? 0 : s.kinds[a.kind].mode;
      bool held = false;
      for (auto &e : s.env) if (e.second.k != VK::Root && (e.second == vK(VK::Top, p.first) || e.second == vK(VK::Bot, p.first))) held = true;
      if (!held) a.one = false;
      a.ne = held || (m == 1 && (a.color != CAny || a.bot != CAny) && s.pathIsNE(p.first));
      if (a.color == CRed) a.color = CAny;
      if (a.bot == CRed) a.bot = CAny;
    }
  }
  // returns false if the state is subsumed
  bool admit(State &s) {
    if (!mergeBB.count(s.bb)) return true;
    bool loop = loopHead.count(s.bb);
    s.dropWords();
    s.assumedNe.clear();
    s.normFL();
    if (loop) {
      Folder f(s);
      f.run();
      if (visited[s.bb].size() > 20) { f.forgetDetached(); f.run(); }
      bool anyLoose = false;
      for (auto &a : s.atoms) if (a.second.loose) anyLoose = true;
      if (!anyLoose && visited[s.bb].size() > softLimit) {
        if (visited[s.bb].size() < phiLimit) for (auto &P : s.bb->phis()) f.phis.insert(valNo[&P]);
        f.foldSoft = true; f.run();
      }
      bool tree = false;
      for (auto &k : s.kinds) if (k.type == 1) tree = true;
      if (tree && (anyLoose || (visited[s.bb].size() > looseLimit && (f.compute(), f.torn())))) { f.allowLoose = true; f.run(); f.run(); f.spreadLoose(); }
      weaken(s);
      s.normFL();
    }
    if (s.flags[9]) for (auto &a : s.atoms) if (a.second.ak == ASeg && s.itemNE(Item{IA, a.first})) a.second.ne = true;
    Canon c(s);
    c.build();
    c.gc();
    if (verbose > 3 && loop && !visited[s.bb].count(hashKey(c.key))) { llvm::errs() << "HEAD " << locOf(s.pc, true) << " #" << visited[s.bb].size() << "\n"; llvm::errs() << "KEY "; for (char ch : c.key) llvm::errs() << (ch == 10 ? (char)47 : ch); llvm::errs() << "\n"; if (verbose > 4) dumpState(s); }
    VisitSet &vs = visited[s.bb][hashKey(c.key)];
    std::vector<Lin> v;
    for (auto *l : c.nums) v.push_back(*l);
    for (auto &e : vs.entries) if (instanceOf(e.get(), v, s.lb)) { ++nPrunes; return false; }
    if (loop && !vs.entries.empty()) {
      // generalise with the last entry, unless only plain integers (loop indices) differ
      Entry e = vs.entries.back().get();
      bool atomDiff = false;
      Entry g;
      affineJoin(e, v, s.lb, g, c.atomic, s.flags[9] != 0);
      for (size_t i = 0; i < v.size(); ++i) if (c.atomic[i] && !g.v[i].isConst()) { if (!(e.v[i].isConst() && v[i].isConst() && e.v[i] == v[i])) atomDiff = true; }
      if (atomDiff || vs.entries.size() > 200) {
        ++nJoins;
        if (verbose > 4) { llvm::errs() << "JOIN "; for (auto &x : e.v) llvm::errs() << x.str() << " "; llvm::errs() << " WITH "; for (auto &x : v) llvm::errs() << x.str() << " "; llvm::errs() << " = "; for (auto &x : g.v) llvm::errs() << x.str() << " "; llvm::errs() << "\n"; dumpState(s); }
        if (++vs.joins > 30) { for (auto &x : g.lb) x.second = NEGINF; }
        for (size_t i = 0; i < v.size(); ++i) *c.nums[i] = g.v[i];
        s.lb = g.lb;
        if (verbose == 5) for (auto &o : s.objs) if (o.second.ok == ONode && o.second.kind >= 0 && !o.second.dead && s.kinds[o.second.kind].mode == 2) {
          Val pn = s.ptrToNode(o.first); const Kind &K = s.kinds[o.second.kind];
          Val l = s.field(pn, K.left), r = s.field(pn, K.right);
          auto hh = [&](const Val &v, Lin &h) { if (v.isNull()) { h = Lin(0); return true; } if (v.k == VK::Root) { h = s.atom(v.id).h; return true; } return false; };
          Lin a, b; if (hh(l, a) && hh(r, b) && !(a - b).isConst()) { llvm::errs() << "LOST " << o.first << " " << (a - b).str() << "\n"; }
        }
        vs.entries.back() = Packed(g);
        return true;
      }
    }
    vs.entries.push_back(Packed(Entry{v, s.lb}));
    return true;
  }
  void report(State &s, const ViolEx &e, const llvm::Instruction *I) {
    if (verbose) { llvm::errs() << "VIOLATION STATE " << e.msg << "\n"; dumpState(s); }
    std::string loc = locOf(I, true);
    std::string key = e.cat + "|" + e.msg.substr(0, 60) + "|" + locOf(I);
    if (!violKeys.insert(key).second) return;
    Violation v; v.cat = e.cat; v.msg = e.msg; v.loc = loc;
    for (auto t = s.trace; t; t = t->up) v.trace.push_back(t->s);
    std::reverse(v.trace.begin(), v.trace.end());
    viols.push_back(v);
    if (verbose > 1) dumpState(s);
  }
  void run(llvm::Function &f) {
    prepare(f);
    viols.clear(); violKeys.clear(); undecided.clear(); work.clear(); sites.clear();
    nStates = nForks = nEnds = nJoins = nPrunes = nChecks = nExpectPaths = nStores = nLoads = 0;
    State s0;
    s0.bb = &f.getEntryBlock();
    s0.pc = &s0.bb->front();
    work.push_back(s0);
    auto t0 = std::chrono::steady_clock::now();
    while (!work.empty()) {
      State s = std::move(work.front());
      work.pop_front();
      ++nStates;
      if (nStates > maxStates) { undecided.insert("state budget exhausted"); break; }
      if ((nStates & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSeconds) { undecided.insert("time budget exhausted"); break; }
      if (viols.size() >= 12) break;
      if (!stopCats.empty()) { bool st = false; for (auto &v : viols) if (stopCats.count(v.cat) || stopCats.count("*")) st = true; if (st) break; }
      step(std::move(s));
    }
  }
  void fork(const llvm::Instruction *I, std::vector<State> &alts, bool advance) {
    ++nForks;
    size_t i = 0, n = alts.size();
    for (auto &a : alts) {
      ++i;
      if (n > 1) a.note(locOf(I) + " case " + std::to_string(i) + "/" + std::to_string(n));
      if (advance) a.pc = I->getNextNode();
      if (a.flags[9]) try { a.tighten(); } catch (Infeasible &) { ++nPrunes; continue; }
      work.push_front(std::move(a));
    }
  }
  void step(State s) {
    for (;;) {
      const llvm::Instruction *I = s.pc;
      try {
        int r = exec(s, I);
        if (r == 0) { s.pc = I->getNextNode(); continue; }
        if (r == 1) { // moved to another block
          if (mergeBB.count(s.bb)) { if (!admit(s)) return; if (loopHead.count(s.bb)) work.push_back(std::move(s)); else work.push_front(std::move(s)); return; }
          continue;
        }
        return; // ended
      } catch (Fork &f) {
        if (verbose) if (++forkAt[I] == 200) { llvm::errs() << "MANY FORKS " << locOf(I) << "\n"; I->print(llvm::errs()); llvm::errs() << "\n"; dumpState(s); for (auto &a : f.alts) { llvm::errs() << "ALT\n"; dumpState(a); } }
        fork(I, f.alts, false);
        return;
      } catch (ForkRet &f) {
        ++nForks;
        size_t i = 0;
        for (auto &a : f.alts) {
          ++i;
          if (!I->getType()->isVoidTy()) setv(a.first, I, a.second);
          if (f.alts.size() > 1) a.first.note(locOf(I) + " outcome " + std::to_string(i) + "/" + std::to_string(f.alts.size()));
          if (auto *inv = llvm::dyn_cast<llvm::InvokeInst>(I)) {
            enter(a.first, inv->getNormalDest(), I->getParent());
            if (mergeBB.count(a.first.bb) && !admit(a.first)) continue;
          } else
            a.first.pc = I->getNextNode();
          work.push_front(std::move(a.first));
        }
        return;
      } catch (Infeasible &) {
        return;
      } catch (PathEnd &) {
        ++nEnds;
        return;
      } catch (ViolEx &e) {
        report(s, e, I);
        return;
      } catch (std::exception &x) {
        undecided.insert(std::string("internal: ") + x.what() + " at " + locOf(I));
        return;
      } catch (Undecided &u) {
        undecided.insert(u.why + " at " + locOf(I));
        return;
      }
    }
  }
  Val arith(State &s, unsigned op, const Val &a, const Val &b, unsigned w) {
    using namespace llvm;
    if (a.k == VK::Undef || b.k == VK::Undef) return Val();
    auto wrap = [&](i64 x) { if (w < 64 && w > 1) { x = (i64)((uint64_t)x << (64 - w)) >> (64 - w); } else if (w == 1) x &= 1; Val v = vInt(Lin(x)); v.off = w; return v; };
    bool ptrA = a.k == VK::Ptr, ptrB = b.k == VK::Ptr;
    if (a.k == VK::Int && b.k == VK::Int) {
      if (a.isConst() && b.isConst()) {
        i64 x = a.lin.c, y = b.lin.c;
        uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1), ux = (uint64_t)x & m, uy = (uint64_t)y & m;
        switch (op) {
        case Instruction::Add: return wrap((i64)((uint64_t)x + (uint64_t)y));
        case Instruction::Sub: return wrap((i64)((uint64_t)x - (uint64_t)y));
        case Instruction::Mul: return wrap((i64)((uint64_t)x * (uint64_t)y));
        case Instruction::And: return wrap(x & y);
        case Instruction::Or: return wrap(x | y);
        case Instruction::Xor: return wrap(x ^ y);
        case Instruction::Shl: return wrap((i64)(ux << (uy & 63)));
        case Instruction::LShr: return wrap((i64)(ux >> (uy & 63)));
        case Instruction::AShr: return wrap(x >> (uy & 63));
        case Instruction::UDiv: if (!uy) viol("mem", "division by zero"); return wrap((i64)(ux / uy));
        case Instruction::URem: if (!uy) viol("mem", "division by zero"); return wrap((i64)(ux % uy));
        case Instruction::SDiv: if (!y) viol("mem", "division by zero"); return wrap(x / y);
        case Instruction::SRem: if (!y) viol("mem", "division by zero"); return wrap(x % y);
        }
      }
      Val v;
      if (op == Instruction::Add) { v = vInt(a.lin + b.lin); v.off = w; return v; }
      if (op == Instruction::Sub) { v = vInt(a.lin - b.lin); v.off = w; return v; }
      if (op == Instruction::Mul && b.isConst()) { Lin l; l.addScaled(a.lin, b.lin.c); v = vInt(l); v.off = w; return v; }
      if (op == Instruction::Shl && b.isConst() && b.lin.c < 32) { Lin l; l.addScaled(a.lin, (i64)1 << b.lin.c); v = vInt(l); v.off = w; return v; }
      if ((op == Instruction::SDiv || op == Instruction::UDiv) && b.isConst() && b.lin.c == 1) return a;
      return vOpq(0);
    }
    if (ptrA && b.isConst()) {
      i64 y = b.lin.c;
      Val v = a;
      switch (op) {
      case Instruction::Add: v.off += y; return v;
      case Instruction::Sub: v.off -= y; return v;
      case Instruction::And: // objects are at least 16-byte aligned
        if (y >= 0 && y < 16) return wrap(a.off & y);
        if (y < 0 && y >= -16) { v.off &= y; return v; }
        break;
      case Instruction::Or: if (y >= 0 && y < 16) { v.off |= y; return v; } break;
      case Instruction::Xor: if (y >= 0 && y < 16) { v.off ^= y; return v; } break;
      }
      return vOpq(0);
    }
    if (ptrB && a.isConst()) {
      if (op == Instruction::Add || op == Instruction::Or || op == Instruction::And) return arith(s, op, b, a, w);
    }
    if (ptrA && ptrB && op == Instruction::Sub && a.id == b.id) { Val v = vInt(Lin(a.off - b.off)); v.off = 64; return v; }
    if ((op == Instruction::And && (a.isNull() || b.isNull()))) return wrap(0);
    return vOpq(0);
  }
  int exec(State &s, const llvm::Instruction *I) {
    using namespace llvm;
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto *al = cast<AllocaInst>(I);
      int id = allocNo.at(al) + 1000000;
      Obj o; o.ok = OAlloca; o.allocId = allocNo.at(al); o.name = al->getName().str(); o.size = DL.getTypeAllocSize(al->getAllocatedType());
      s.objs[id] = o;
      setv(s, I, vPtr(id, 0));
      return 0;
    }
    case Instruction::Load: {
      Val p = derefPtr(s, get(s, I->getOperand(0)), "read");
      if (s.objs.at(p.id).ok == ONode || s.objs.at(p.id).allocId < 1000) { ++nLoads; sites.insert(locOf(I)); }
      setv(s, I, load(s, p, I->getType()));
      return 0;
    }
    case Instruction::Store: {
      Val p = derefPtr(s, get(s, I->getOperand(1)), "write");
      settle(s, get(s, I->getOperand(0)));
      if (s.objs.at(p.id).ok == ONode || s.objs.at(p.id).allocId < 1000) { ++nStores; sites.insert(locOf(I)); }
      storeVal(s, p, get(s, I->getOperand(0)), I->getOperand(0)->getType());
      return 0;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(I);
      Val b = get(s, g->getPointerOperand());
      i64 off = 0;
      auto gti = gep_type_begin(g);
      for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++gti) {
        if (auto *st = gti.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(it->get())->getZExtValue());
        else {
          Val x = get(s, it->get());
          if (!x.isConst()) throw Undecided{"symbolic index"};
          off += x.lin.c * (i64)DL.getTypeAllocSize(gti.getIndexedType());
        }
      }
      if (off) settle(s, b);
      if (b.k == VK::First || b.k == VK::Last) { if (off) b = derefPtr(s, b, "address computation"); }
      if (b.k == VK::Ptr || b.k == VK::Probe) b.off += off;
      else if (b.k == VK::Int) b.lin.c += off;
      setv(s, I, b);
      return 0;
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      setv(s, I, get(s, I->getOperand(0)));
      return 0;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      Val v = get(s, I->getOperand(0));
      unsigned sw = I->getOperand(0)->getType()->getScalarSizeInBits(), dw = I->getType()->getScalarSizeInBits();
      if (v.isConst()) {
        uint64_t x = (uint64_t)v.lin.c;
        if (I->getOpcode() == Instruction::ZExt && sw < 64) x &= ((1ull << sw) - 1);
        if (I->getOpcode() == Instruction::SExt && sw < 64) x = (uint64_t)((i64)(x << (64 - sw)) >> (64 - sw));
        if (I->getOpcode() == Instruction::Trunc && dw < 64) x &= ((1ull << dw) - 1);
        v = vInt(Lin((i64)x)); v.off = dw;
      } else if (v.k == VK::Int) v.off = dw;
      setv(s, I, v);
      return 0;
    }
    case Instruction::ICmp: {
      auto *c = cast<ICmpInst>(I);
      bool r = icmp(s, c->getPredicate(), get(s, I->getOperand(0)), get(s, I->getOperand(1)), I->getOperand(0)->getType()->isPointerTy() ? 64 : I->getOperand(0)->getType()->getScalarSizeInBits());
      Val v = vInt(Lin(r ? 1 : 0)); v.off = 1;
      setv(s, I, v);
      return 0;
    }
    case Instruction::FCmp: { bool r = choice(s); Val v = vInt(Lin(r)); v.off = 1; setv(s, I, v); return 0; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
      settle(s, a); settle(s, b);
      if (a.k == VK::First || a.k == VK::Last) a = derefPtr(s, a, "arithmetic");
      if (b.k == VK::First || b.k == VK::Last) b = derefPtr(s, b, "arithmetic");
      setv(s, I, arith(s, I->getOpcode(), a, b, I->getType()->getScalarSizeInBits()));
      return 0;
    }
    case Instruction::Select: {
      bool c = asBool(s, get(s, I->getOperand(0)));
      setv(s, I, get(s, I->getOperand(c ? 1 : 2)));
      return 0;
    }
    case Instruction::ExtractValue: {
      auto *e = cast<ExtractValueInst>(I);
      Val v = get(s, I->getOperand(0));
      for (unsigned i : e->indices()) { if (v.k != VK::Agg) { v = Val(); break; } Val t = (*v.agg)[i]; v = t; }
      setv(s, I, v);
      return 0;
    }
    case Instruction::InsertValue: {
      auto *e = cast<InsertValueInst>(I);
      Val v = get(s, I->getOperand(0));
      if (v.k != VK::Agg) v = constVal(s, UndefValue::get(I->getType()));
      if (e->getNumIndices() != 1) throw Undecided{"nested insertvalue"};
      v.agg = std::make_shared<std::vector<Val>>(*v.agg);
      (*v.agg)[e->getIndices()[0]] = get(s, I->getOperand(1));
      setv(s, I, v);
      return 0;
    }
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { enter(s, b->getSuccessor(0), I->getParent()); return 1; }
      bool c = asBool(s, get(s, b->getCondition()));
      enter(s, b->getSuccessor(c ? 0 : 1), I->getParent());
      return 1;
    }
    case Instruction::Switch: {
      auto *w = cast<SwitchInst>(I);
      Val v = get(s, w->getCondition());
      if (!v.isConst()) throw Undecided{"switch on a symbolic value"};
      const BasicBlock *d = w->getDefaultDest();
      unsigned bits = w->getCondition()->getType()->getIntegerBitWidth();
      for (auto &cs : w->cases()) if (cs.getCaseValue()->getValue() == APInt(bits, (uint64_t)v.lin.c, true)) d = cs.getCaseSuccessor();
      enter(s, d, I->getParent());
      return 1;
    }
    case Instruction::Ret: ++nEnds; return 2;
    case Instruction::Unreachable: ++nEnds; return 2;
    case Instruction::LandingPad: {
      Val v; v.k = VK::Agg; v.agg = std::make_shared<std::vector<Val>>();
      v.agg->push_back(vOpq(1)); v.agg->push_back(mk32(1));
      setv(s, I, v);
      return 0;
    }
    case Instruction::Resume:
      viol("exc", "an exception of a user functor escapes the specification harness");
    case Instruction::Call: case Instruction::Invoke: return call(s, cast<CallBase>(I));
    default:
      if (I->getType()->isFPOrFPVectorTy()) { setv(s, I, vOpq(0)); return 0; }
      if (I->getOpcode() == Instruction::FPToUI || I->getOpcode() == Instruction::FPToSI) { Val v = mk64(s.newSym(0)); setv(s, I, v); return 0; }
      throw Undecided{std::string("instruction ") + I->getOpcodeName()};
    }
  }
  int finishCall(State &s, const llvm::CallBase *C) {
    if (auto *inv = llvm::dyn_cast<llvm::InvokeInst>(C)) { enter(s, inv->getNormalDest(), C->getParent()); return 1; }
    return 0;
  }
  int call(State &s, const llvm::CallBase *C) {
    using namespace llvm;
    const Function *f = C->getCalledFunction();
    if (!f) { if (auto *fn = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) f = fn; }
    if (!f) throw Undecided{"indirect call"};
    std::string n = f->getName().str();
    if (auto *II = dyn_cast<IntrinsicInst>(C)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        clearAlloca(s, II->getArgOperand(1)); return 0; }
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing:
      case Intrinsic::experimental_noalias_scope_decl: return 0;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        setv(s, C, get(s, C->getArgOperand(0))); return 0;
      case Intrinsic::eh_typeid_for: setv(s, C, mk32(1)); return 0;
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        Val d = get(s, C->getArgOperand(0)), r = get(s, C->getArgOperand(1)), len = get(s, C->getArgOperand(2));
        if (!len.isConst()) throw Undecided{"memcpy of symbolic size"};
        if (len.lin.c == 0) return 0;
        d = derefPtr(s, d, "copy"); r = derefPtr(s, r, "copy");
        Obj &so = s.objs.at(r.id);
        std::vector<std::pair<i64, Cell>> cp;
        for (auto &c : so.cells) if (c.first + c.second.size > r.off && c.first < r.off + len.lin.c) { settle(s, c.second.v); cp.push_back({c.first - r.off, c.second}); }
        checkWrite(s, d, len.lin.c);
        Obj &o2 = s.objs.at(d.id);
        for (auto it = o2.cells.lower_bound(d.off); it != o2.cells.end() && it->first < d.off + len.lin.c;) it = o2.cells.erase(it);
        for (auto &c : cp) s.store(d.id, d.off + c.first, c.second.size, c.second.v);
        return 0;
      }
      case Intrinsic::memset: {
        Val d = derefPtr(s, get(s, C->getArgOperand(0)), "fill"), v = get(s, C->getArgOperand(1)), len = get(s, C->getArgOperand(2));
        if (!len.isConst() || !v.isConst() || v.lin.c != 0) throw Undecided{"memset"};
        checkWrite(s, d, len.lin.c);
        i64 o = 0;
        for (; o + 8 <= len.lin.c; o += 8) s.store(d.id, d.off + o, 8, vInt(Lin(0)));
        for (; o < len.lin.c; ++o) s.store(d.id, d.off + o, 1, vInt(Lin(0)));
        return 0;
      }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
      case Intrinsic::abs: case Intrinsic::fshl: case Intrinsic::fshr:
        setv(s, C, vOpq(0)); return 0;
      case Intrinsic::trap: viol("assert", "trap reached");
      default:
        if (C->getType()->isFPOrFPVectorTy()) { setv(s, C, vOpq(0)); return 0; }
        throw Undecided{"intrinsic " + n};
      }
    }
    if (isUserFunctor(n) && s.mayThrow && s.flags[12] == 0) {
      State a = s, b = s;
      a.flags[12] = 1; b.flags[12] = 2;
      b.note(locOf(C) + " user functor throws");
      throw Fork{{a, b}};
    }
    if (isUserFunctor(n) && s.flags[12] == 2) {
      s.flags[12] = 0;
      s.mayThrow = false; // one exception per execution
      s.inflight = true;
      if (auto *inv = dyn_cast<InvokeInst>(C)) { enter(s, inv->getUnwindDest(), C->getParent()); return 1; }
      viol("exc", "an exception of a user functor escapes the specification harness");
    }
    s.flags[12] = 0;
    Val ret;
    if (builtin(s, C, n, ret)) {
      if (!C->getType()->isVoidTy()) setv(s, C, ret);
      return finishCall(s, C);
    }
    if (n == "__cxa_begin_catch") { if (!C->getType()->isVoidTy()) setv(s, C, vOpq(1)); return finishCall(s, C); }
    if (n == "__cxa_end_catch") { return finishCall(s, C); }
    if (n == "__cxa_rethrow") {
      if (auto *inv = dyn_cast<InvokeInst>(C)) { enter(s, inv->getUnwindDest(), C->getParent()); return 1; }
      viol("exc", "an exception of a user functor escapes the specification harness");
    }
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") viol("terminate", "a user functor's exception meets a noexcept boundary: the program is terminated");
    if (n == "__gxx_personality_v0") return finishCall(s, C);
    throw Undecided{"call to " + n};
  }
