// Abstract state and its heap operations: materialisation (unfolding) of summary atoms.
#pragma once
#include "dom.h"

struct FRef { // treap facts: 'n' node, 't' root of tree, 'p' top of path, 'b' bottom of path
  char k; int id;
  bool operator<(const FRef &o) const { return std::tie(k, id) < std::tie(o.k, o.id); }
  bool operator==(const FRef &o) const { return k == o.k && id == o.id; }
};
struct Header { int obj; i64 off; int kind; };

struct State {
  std::map<int, Obj> objs;
  std::map<int, Atom> atoms;
  std::map<int, i64> lb;
  std::map<std::string, int> names;   // node / atom names of the specification
  std::vector<Word> words;
  std::vector<Kind> kinds;
  std::vector<Header> headers;
  std::vector<std::pair<int, Val>> env; // sorted by SSA number
  std::set<std::pair<FRef, FRef>> geq;
  std::vector<int> keyObj;
  int nkeys = 0;
  bool mayThrow = false, inflight = false;
  i64 excType = 0;
  int flags[16] = {0};
  const llvm::BasicBlock *bb = nullptr, *pred = nullptr;
  const llvm::Instruction *pc = nullptr;
  std::shared_ptr<Trace> trace;
  int steps = 0;
  static int &nextId() { static int x = 1; return x; }
  static int &nextSym() { static int x = 1; return x; }
  int newId() { return nextId()++; }
  Lin newSym(i64 low) { int s = nextSym()++; lb[s] = low; return Lin::sym(s); }

  const Val *find(int n) const {
    auto it = std::lower_bound(env.begin(), env.end(), n, [](const std::pair<int, Val> &a, int b) { return a.first < b; });
    return it != env.end() && it->first == n ? &it->second : nullptr;
  }
  void set(int n, const Val &v) {
    auto it = std::lower_bound(env.begin(), env.end(), n, [](const std::pair<int, Val> &a, int b) { return a.first < b; });
    if (it != env.end() && it->first == n) it->second = v;
    else env.insert(it, {n, v});
  }
  State withFlagChoice(int v) const { State s = *this; s.flags[13] = v + 1; return s; }
  std::vector<Lin> assumedNe; // linear forms assumed non-zero
  void note(const std::string &s) { trace = std::make_shared<Trace>(trace, s); }

  // ---- numeric reasoning
  i64 lbOf(const Lin &l) const {
    i64 r = l.c;
    for (auto &p : l.t) {
      if (p.second < 0) return NEGINF;
      auto it = lb.find(p.first);
      if (it == lb.end() || it->second <= NEGINF) return NEGINF;
      r += p.second * it->second;
    }
    return r;
  }
  void valEach(Val &v, const std::function<void(Val &)> &f) {
    f(v);
    if (v.k == VK::Agg) {
      v.agg = std::make_shared<std::vector<Val>>(*v.agg);
      for (auto &x : *v.agg) valEach(x, f);
    }
  }
  void forEachVal(const std::function<void(Val &)> &f) {
    for (auto &o : objs) for (auto &c : o.second.cells) valEach(c.second.v, f);
    for (auto &a : atoms) { f(a.second.in); f(a.second.out); f(a.second.up); f(a.second.hole); }
    for (auto &e : env) valEach(e.second, f);
  }
  void forEachLin(const std::function<void(Lin &)> &f) {
    for (auto &a : atoms) { f(a.second.len); f(a.second.lenR); f(a.second.h); f(a.second.hTop); f(a.second.hHole); }
    for (auto &l : assumedNe) f(l);
    forEachVal([&](Val &v) { if (v.k == VK::Int) f(v.lin); });
  }
  void substSym(int s, const Lin &e) {
    i64 b = NEGINF;
    auto it = lb.find(s);
    if (it != lb.end()) b = it->second;
    forEachLin([&](Lin &l) { l.subst(s, e); });
    lb.erase(s);
    if (b > NEGINF) requireGE(e, b);
  }
  void requireGE(const Lin &l, i64 k) { // assume l >= k
    if (l.isConst()) { if (l.c < k) throw Infeasible(); return; }
    if (l.isPure()) { auto &x = lb[l.t[0].first]; x = std::max(x, k - l.c); }
  }
  void requireZero(const Lin &l0) { // assume l == 0
    Lin l = l0;
    if (l.isConst()) { if (l.c) throw Infeasible(); return; }
    i64 low = lbOf(l);
    if (low > 0) throw Infeasible();
    if (low == 0) { // every symbol at its lower bound
      auto t = l.t;
      for (auto &p : t) { i64 b = lb[p.first]; substSym(p.first, Lin(b)); }
      return;
    }
    Lin n; n.addScaled(l, -1);
    if (lbOf(n) > 0) throw Infeasible();
    if (lbOf(n) == 0) { auto t = n.t; for (auto &p : t) { i64 b = lb[p.first]; substSym(p.first, Lin(b)); } return; }
    for (int pass = 0; pass < 2; ++pass)
    for (auto &p : l.t)
      if (p.second == 1 || p.second == -1) {
        int s = p.first; i64 k = p.second;
        if (!pass) { Lin e; e.addScaled(l, -k); e.addScaled(Lin::sym(s), 1); if (lbOf(e) <= NEGINF || lbOf(e) < lb[s]) continue; }
        Lin e; e.addScaled(l, -k); // s = s - k*l
        e.addScaled(Lin::sym(s), 1);
        substSym(s, e);
        return;
      }
  }
  void requireEq(const Lin &a, const Lin &b) { requireZero(a - b); }

  // ---- items
  Atom &atom(int id) { return atoms.at(id); }
  const Atom &atom(int id) const { return atoms.at(id); }
  bool treeNE(const Atom &a) const {
    if (a.ne || lbOf(a.len) >= 1) return true;
    int m = a.loose ? 0 : kinds[a.kind].mode;
    if (m == 1) return a.color == CRed || lbOf(a.h) >= 1;
    if (m == 2) return lbOf(a.h) >= 1;
    return false;
  }
  bool itemNE(const Item &i) const {
    switch (i.ik) {
    case IN: return true;
    case IA: { auto it = atoms.find(i.id); if (it == atoms.end()) return false; return it->second.ak == ASeg ? it->second.ne || lbOf(it->second.len) >= 1 : treeNE(it->second); }
    case IL: return atom(i.id).Lst == 1;
    case IR: return atom(i.id).Rst == 1;
    }
    return false;
  }
  void normFL() {
    forEachVal([&](Val &v) { normVal(v); });
  }
  void normVal(Val &v) {
    if (v.k == VK::First) {
      for (size_t i = 0; i < v.w.size(); ++i) if (itemNE(v.w[i])) { v.w.resize(i + 1); break; }
      if (v.w.size() && v.w[0].ik == IN) { int id = v.w[0].id; v = ptrToNode(id); }
    } else if (v.k == VK::Last) {
      for (size_t i = v.w.size(); i-- > 0;) if (itemNE(v.w[i])) { v.w.erase(v.w.begin(), v.w.begin() + i); break; }
      if (v.w.size() && v.w.back().ik == IN) { int id = v.w.back().id; v = ptrToNode(id); }
    }
  }
  Val ptrToNode(int id) const { return vPtr(id, kinds[objs.at(id).kind].nodeOff); }
  // replace every occurrence of item (ik,id) by a sequence
  static Items expand(const Item &occ, const Items &repl) {
    Items r;
    if (!occ.rev) { for (auto &x : repl) { Item y = x; if (y.mod == M0) y.mod = occ.mod; r.push_back(y); } }
    else for (size_t i = repl.size(); i-- > 0;) { Item y = repl[i]; if (y.ik != IN) y.rev = !y.rev; if (y.mod == M0) y.mod = occ.mod; r.push_back(y); }
    return r;
  }
  void replaceItem(IKind ik, int id, const Items &repl) {
    auto doIt = [&](Items &w) {
      bool any = false;
      for (auto &x : w) if (x.ik == ik && x.id == id) { any = true; break; }
      if (!any) return;
      Items r;
      for (auto &x : w) {
        if (x.ik == ik && x.id == id) { Items e = expand(x, repl); r.insert(r.end(), e.begin(), e.end()); }
        else r.push_back(x);
      }
      w.swap(r);
    };
    for (auto &w : words) if (w.live) doIt(w.items);
    if (ik == IA) for (auto &n : names) if (n.second == id) n.second = repl.empty() ? 0 : -1;
    forEachVal([&](Val &v) { if (v.k == VK::First || v.k == VK::Last) { doIt(v.w); if (v.w.empty()) throw Infeasible(); } });
  }
  void replaceVal(const Val &from, const Val &to) {
    forEachVal([&](Val &v) { if (v == from) v = to; });
  }
  void replaceRef(FRef a, FRef b) {
    std::set<std::pair<FRef, FRef>> r;
    for (auto p : geq) { if (p.first == a) p.first = b; if (p.second == a) p.second = b; r.insert(p); }
    geq.swap(r);
  }
  // forget a reference, keeping what follows through it
  void composeRef(FRef a) {
    std::vector<FRef> in, out;
    for (auto &p : geq) { if (p.second == a) in.push_back(p.first); if (p.first == a) out.push_back(p.second); }
    for (auto it = geq.begin(); it != geq.end();) if (it->first == a || it->second == a) it = geq.erase(it); else ++it;
    for (auto &x : in) for (auto &y : out) if (!(x == y)) geq.insert({x, y});
  }
  void dropRef(FRef a) {
    for (auto it = geq.begin(); it != geq.end();) if (it->first == a || it->second == a) it = geq.erase(it); else ++it;
  }
  FRef refOf(const Val &v) const { // root reference of a child value
    if (v.k == VK::Ptr) return {'n', v.id};
    if (v.k == VK::Root) return {'t', v.id};
    if (v.k == VK::Top) return {'p', v.id};
    return {'0', 0};
  }

  // words whose handle can no longer be used are dropped
  void dropWords() {
    std::set<int> used;
    for (auto &o : objs) if (!o.second.dead || o.second.ok != ONode) for (auto &c : o.second.cells) valEach(c.second.v, [&](Val &v) { if (v.k == VK::Word) used.insert(v.id); });
    for (auto &e : env) valEach(e.second, [&](Val &v) { if (v.k == VK::Word) used.insert(v.id); });
    for (size_t i = 0; i < words.size(); ++i) if (!words[i].sorted && !used.count((int)i)) { words[i].live = false; words[i].items.clear(); }
  }
  // ---- cells
  void store(int obj, i64 off, int size, const Val &v) {
    auto &cells = objs.at(obj).cells;
    for (auto it = cells.lower_bound(off - 16); it != cells.end() && it->first < off + size;) {
      if (it->first + it->second.size > off) {
        if (it->first < off || it->first + it->second.size > off + size) {
          if (!it->second.v.isConst()) throw Undecided{"partial overwrite of a cell"};
          i64 b = it->first, e = b + it->second.size; uint64_t x = (uint64_t)it->second.v.lin.c;
          cells.erase(it);
          auto part = [&](i64 lo, i64 hi) { // remaining bytes keep their value
            if (lo >= hi) return;
            uint64_t y = x >> (8 * (lo - b)); if (hi - lo < 8) y &= (1ull << (8 * (hi - lo))) - 1;
            cells[lo] = Cell{(int)(hi - lo), vInt(Lin((i64)y))};
          };
          part(b, off); part(off + size, e);
          it = cells.lower_bound(off - 16);
          continue;
        }
        it = cells.erase(it);
      } else ++it;
    }
    cells[off] = Cell{size, v};
  }
  const Val *cell(int obj, i64 off, int size) const {
    auto o = objs.find(obj);
    if (o == objs.end()) return nullptr;
    auto it = o->second.cells.find(off);
    if (it == o->second.cells.end() || it->second.size != size) return nullptr;
    return &it->second.v;
  }
  // link field accessors of a node (node pointer value p)
  Val field(const Val &p, i64 rel, int size = 8) const {
    if (p.k != VK::Ptr) return Val();
    const Val *v = cell(p.id, p.off + rel, size);
    return v ? *v : Val();
  }
  void setField(const Val &p, i64 rel, const Val &v, int size = 8) { store(p.id, p.off + rel, size, v); }

  int newNode(int kind, const std::string &name) {
    int id = newId();
    Obj o;
    o.ok = ONode; o.name = name; o.size = kinds[kind].objSize; o.kind = kind; o.dflt = vOpq(0);
    o.zone.assign(nkeys, {0, 2});
    objs[id] = o;
    return id;
  }
  void dropAtom(int id) { atoms.erase(id); }

  // ---- list segments
  void segEmpty(int id) { // precondition: length assumed zero
    Atom a = atom(id);
    if (a.ne) throw Infeasible();
    replaceVal(vK(VK::Front, id), a.out);
    if (kinds[a.kind].hasPrev()) replaceVal(vK(VK::Back, id), a.in);
    replaceItem(IA, id, {});
    dropAtom(id);
  }
  // are the constraints (each >= 0) satisfiable over the rationals? (Fourier-Motzkin; gives up with true)
  static bool feasible(std::vector<Lin> c) {
    for (;;) {
      std::map<int, std::pair<int, int>> occ;
      std::vector<Lin> d;
      for (auto &l : c) { if (l.isConst()) { if (l.c < 0) return false; continue; } bool dup = false; for (auto &m : d) if (m == l) dup = true; if (!dup) d.push_back(l); }
      if (d.empty() || d.size() > 160) return true;
      for (auto &l : d) for (auto &p : l.t) (p.second > 0 ? occ[p.first].first : occ[p.first].second)++;
      int v = -1; long best = 0;
      for (auto &o : occ) { long k = (long)o.second.first * o.second.second; if (v < 0 || k < best) { v = o.first; best = k; } }
      std::vector<Lin> pos, neg; c.clear();
      auto co = [&](const Lin &l) { for (auto &p : l.t) if (p.first == v) return p.second; return (i64)0; };
      for (auto &l : d) { i64 k = co(l); if (k > 0) pos.push_back(l); else if (k < 0) neg.push_back(l); else c.push_back(l); }
      for (auto &x : pos) for (auto &y : neg) { Lin r; r.addScaled(x, -co(y)); r.addScaled(y, co(x)); c.push_back(r); }
    }
  }
  // consequences of all lengths being non-negative
  void tighten() {
    for (bool again = true; again;) {
      again = false;
      std::vector<Lin> c; std::set<int> syms;
      for (auto &a : atoms) if (a.second.ak == ASeg) { Lin l = a.second.len; if (a.second.ne) l.c -= 1; c.push_back(l); for (auto &p : l.t) syms.insert(p.first); }
      for (int v : syms) { auto b = lb.find(v); if (b != lb.end() && b->second > NEGINF) { Lin l = Lin::sym(v); l.c -= b->second; c.push_back(l); } }
      if (!feasible(c)) throw Infeasible();
      for (auto &a : atoms) {
        if (a.second.ak != ASeg || a.second.ne || lbOf(a.second.len) >= 1) continue;
        Lin l = a.second.len; bool neg = false; for (auto &p : l.t) if (p.second < 0) neg = true;
        auto d = c; Lin m = l; m.c -= 1; d.push_back(m);
        if (!feasible(d)) { int id = a.first; requireZero(l); segEmpty(id); again = true; break; }
        if (neg) { d = c; Lin k; k.addScaled(l, -1); d.push_back(k); if (!feasible(d)) { a.second.ne = true; again = true; break; } }
      }
    }
  }
  void segTidy(int id) {
    if (!atoms.count(id)) return;
    Lin l = atom(id).len;
    if (l.isConst() && l.c == 0) segEmpty(id);
  }
  static std::vector<State> matSeg(const State &s0, int id, bool front) {
    std::vector<State> r;
    { State s = s0;
      try { s.requireZero(s.atom(id).len); s.segEmpty(id); r.push_back(std::move(s)); } catch (Infeasible &) {} }
    { State s = s0;
      try {
        s.requireGE(s.atom(id).len, 1);
        int kd = s.atom(id).kind;
        const Kind &K = s.kinds[kd];
        int n = s.newNode(kd, "");
        s.objs[n].zone = s.atom(id).zone;
        Val pn = s.ptrToNode(n);
        if (front) {
          s.replaceVal(vK(VK::Front, id), pn);
          s.setField(pn, K.next, vK(VK::Front, id));
          if (K.hasPrev()) { s.setField(pn, K.prev, s.atom(id).in); s.atom(id).in = pn; }
          s.replaceItem(IA, id, {Item{IN, n}, Item{IA, id}});
        } else {
          s.replaceVal(vK(VK::Back, id), pn);
          if (K.hasPrev()) s.setField(pn, K.prev, vK(VK::Back, id));
          s.setField(pn, K.next, s.atom(id).out);
          s.atom(id).out = pn;
          s.replaceItem(IA, id, {Item{IA, id}, Item{IN, n}});
        }
        s.atom(id).len.c -= 1; s.atom(id).ne = false;
        s.segTidy(id);
        r.push_back(std::move(s));
      } catch (Infeasible &) {} }
    return r;
  }

  // ---- trees
  int newTree(int kind, const Val &up, const Lin &len) {
    int id = newId();
    Atom a; a.ak = ATree; a.kind = kind; a.up = up; a.len = len; a.zone.assign(nkeys, {0, 2});
    atoms[id] = a;
    return id;
  }
  int newPath(int kind, const Val &up, const Val &hole, const Lin &lenL, const Lin &lenR) {
    int id = newId();
    Atom a; a.ak = APath; a.kind = kind; a.up = up; a.hole = hole; a.len = lenL; a.lenR = lenR;
    a.zone.assign(nkeys, {0, 2}); a.zoneL = a.zone; a.zoneR = a.zone;
    atoms[id] = a;
    return id;
  }
  void treeEmpty(int id) { // assume empty and remove
    { Atom &a = atom(id);
      int m = a.loose ? 0 : kinds[a.kind].mode;
      if (a.ne) throw Infeasible();
      if (m == 1) { if (a.color == CRed) throw Infeasible(); }
      Lin h = a.h, len = a.len;
      requireZero(len);
      if (m == 1 || m == 2) requireZero(atom(id).h); }
    replaceVal(vK(VK::Root, id), vInt(0));
    dropRef({'t', id});
    replaceItem(IA, id, {});
    dropAtom(id);
  }
  void treeTidy(int id) {
    auto it = atoms.find(id);
    if (it == atoms.end()) return;
    Atom &a = it->second;
    bool e = a.len.isConst() && a.len.c == 0;
    int m = a.loose ? 0 : kinds[a.kind].mode;
    if (m == 2 && a.h.isConst() && a.h.c == 0) e = true;
    if (m == 1 && a.h.isConst() && a.h.c == 0 && a.color == CBlack) e = true;
    if (e) treeEmpty(id);
  }
  // split the length l of a tree into n + T1 + T2
  void splitLen(const Lin &l, Lin &l1, Lin &l2, i64 extra = 1) {
    if (l.isPure()) {
      int s = l.t[0].first; i64 c = l.c;
      l1 = newSym(0); l2 = newSym(0);
      Lin e = l1 + l2; e.c += extra - c;
      substSym(s, e);
    } else if (l.isConst() && l.c == extra) { l1 = Lin(0); l2 = Lin(0); }
    else { l1 = newSym(0); l2 = l - l1; l2.c -= extra; }
  }
  // all ways in which tree id is a non-empty node; each result has node id in .second
  static std::vector<std::pair<State, int>> treeNonEmpty(const State &s0, int id) {
    std::vector<std::pair<State, int>> r;
    int mode = s0.kinds[s0.atom(id).kind].mode;
    if (s0.atom(id).loose) mode = 0;
    int ncase = mode == 1 ? 2 : mode == 2 ? 3 : 1;
    for (int cs = 0; cs < ncase; ++cs) {
      State s = s0;
      try {
        Atom a = s.atom(id);
        const Kind K = s.kinds[a.kind];
        if (mode == 1 && cs == 0 && a.color == CRed) continue;
        if (mode == 1 && cs == 1 && a.color == CBlack) continue;
        s.requireGE(a.len, 1);
        a = s.atom(id);
        Lin l1, l2;
        s.splitLen(a.len, l1, l2);
        a = s.atom(id);
        int n = s.newNode(a.kind, "");
        s.objs[n].zone = a.zone;
        Val pn = s.ptrToNode(n);
        int t1 = s.newTree(a.kind, pn, l1), t2 = s.newTree(a.kind, pn, l2);
        Atom &A1 = s.atom(t1), &A2 = s.atom(t2);
        A1.zone = A2.zone = a.zone;
        A1.loose = A2.loose = a.loose;
        if (mode == 1) {
          s.setField(pn, K.extra, vInt(cs == 0 ? K.v0 : K.v1), K.extraSize);
          Lin ch = a.h;
          if (cs == 0) { ch.c -= 1; s.requireGE(a.h, 1); }
          A1.h = A2.h = ch;
          if (cs == 0) { ch = s.atom(id).h; ch.c -= 1; A1.h = A2.h = ch; }
          if (cs == 1) A1.color = A2.color = CBlack;
        } else if (mode == 2) {
          s.requireGE(a.h, 1);
          Lin h1 = s.atom(id).h, h2 = h1;
          h1.c -= 1; h2.c -= 1;
          if (cs == 0) { h2.c -= 1; s.requireGE(h2, 0); }
          if (cs == 2) { h1.c -= 1; s.requireGE(h1, 0); }
          A1.h = h1; A2.h = h2;
          s.setField(pn, K.extra, vInt(cs == 0 ? K.v0 : cs == 1 ? K.v1 : K.v2), K.extraSize);
        }
        s.replaceVal(vK(VK::Root, id), pn);
        s.setField(pn, K.left, vK(VK::Root, t1));
        s.setField(pn, K.right, vK(VK::Root, t2));
        s.setField(pn, K.parent, a.loose ? vOpq(77) : a.up);
        if (a.loose && K.mode) { s.atom(t1).up = s.atom(t2).up = vOpq(77); if (K.mode != 3) s.setField(pn, K.extra, vOpq(77), K.extraSize); }
        if (mode == 3) { s.replaceRef({'t', id}, {'n', n}); s.geq.insert({{'n', n}, {'t', t1}}); s.geq.insert({{'n', n}, {'t', t2}}); }
        s.replaceItem(IA, id, {Item{IA, t1}, Item{IN, n}, Item{IA, t2}});
        s.dropAtom(id);
        s.treeTidy(t1); s.treeTidy(t2);
        r.push_back({std::move(s), n});
      } catch (Infeasible &) {}
    }
    return r;
  }
  static std::vector<State> matTree(const State &s0, int id) {
    std::vector<State> r;
    if (!s0.treeNE(s0.atom(id))) {
      State s = s0;
      try { s.treeEmpty(id); r.push_back(std::move(s)); } catch (Infeasible &) {}
    }
    for (auto &p : treeNonEmpty(s0, id)) r.push_back(p.first);
    return r;
  }
  void setColorOfHole(const Val &hole, Color c) { // constrain original content
    if (hole.k == VK::Root) {
      Atom &a = atom(hole.id);
      if (c == CBlack) { if (a.color == CRed) throw Infeasible(); a.color = CBlack; treeTidy(hole.id); }
    }
  }
  void pathEmpty(int id) {
    if (atom(id).loose) {
      { Lin l = atom(id).len; requireZero(l); }
      { Lin l = atom(id).lenR; requireZero(l); }
      if (atom(id).Lst == 1 || atom(id).Rst == 1) throw Infeasible();
      Atom a = atom(id);
      replaceVal(vK(VK::Top, id), a.hole);
      if (a.Lst != 2) replaceItem(IL, id, {});
      if (a.Rst != 2) replaceItem(IR, id, {});
      dropAtom(id);
      return;
    }
    if (kinds[atom(id).kind].mode == 1 && (atom(id).color == CRed || atom(id).bot == CRed)) throw Infeasible();
    { Lin l = atom(id).len; requireZero(l); }
    { Lin l = atom(id).lenR; requireZero(l); }
    if (atom(id).ne || atom(id).Lst == 1 || atom(id).Rst == 1) throw Infeasible();
    int m = kinds[atom(id).kind].mode;
    if (m == 1 || m == 2) requireEq(atom(id).hTop, atom(id).hHole);
    if (m == 1 && atom(id).color == CBlack) setColorOfHole(atom(id).hole, CBlack);
    Atom a = atom(id);
    replaceVal(vK(VK::Top, id), a.hole);
    replaceVal(vK(VK::Bot, id), a.up);
    if (m == 3) {
      FRef h = refOf(a.hole);
      if (h.k != '0') replaceRef({'p', id}, h); else dropRef({'p', id});
      if (a.up.k == VK::Ptr) replaceRef({'b', id}, {'n', a.up.id});
      else if (a.up.k == VK::Bot) replaceRef({'b', id}, {'b', a.up.id});
      else dropRef({'b', id});
    }
    if (a.Lst != 2) replaceItem(IL, id, {});
    if (a.Rst != 2) replaceItem(IR, id, {});
    dropAtom(id);
  }
  void setLempty(int id, bool left) {
    Atom &a = atom(id);
    int &st = left ? a.Lst : a.Rst;
    if (st == 1) throw Infeasible();
    if (st == 2) return;
    st = 2;
    { Lin l = left ? a.len : a.lenR; requireZero(l); }
    replaceItem(left ? IL : IR, id, {});
    if (atom(id).Lst == 2 && atom(id).Rst == 2) pathEmpty(id);
  }
  void pathNE(int id) { atom(id).ne = true; Lin l = atom(id).len + atom(id).lenR; requireGE(l, 1); }
  void pathTidy(int id) {
    auto it = atoms.find(id);
    if (it == atoms.end()) return;
    Atom &a = it->second;
    if (a.len.isConst() && a.len.c == 0 && a.lenR.isConst() && a.lenR.c == 0) { pathEmpty(id); return; }
    if (a.len.isConst() && a.len.c == 0 && a.Lst != 2) { if (a.Lst == 1) throw Infeasible(); a.Lst = 2; replaceItem(IL, id, {}); }
    if (a.lenR.isConst() && a.lenR.c == 0 && a.Rst != 2) { if (a.Rst == 1) throw Infeasible(); a.Rst = 2; replaceItem(IR, id, {}); }
    if (a.Lst == 2 && a.Rst == 2) { pathEmpty(id); return; }
    if (!a.Lst && lbOf(a.len) >= 1) a.Lst = 1;
    if (!a.Rst && lbOf(a.lenR) >= 1) a.Rst = 1;
    if (a.Lst == 2 && a.Rst == 0 && pathIsNE(id)) a.Rst = 1;
    else if (a.Rst == 2 && a.Lst == 0 && pathIsNE(id)) a.Lst = 1;
    if (a.Lst == 1) requireGE(a.len, 1);
    if (a.Rst == 1) requireGE(a.lenR, 1);
  }
  bool pathIsNE(int id) const { const Atom &a = atom(id); return a.ne || lbOf(a.len) >= 1 || lbOf(a.lenR) >= 1 || lbOf(a.len + a.lenR) >= 1 || a.Lst == 1 || a.Rst == 1; }

  // unfold one node at the top (top=true) or bottom of a path, going to the given direction
  // (left = the hole side is the left child).
  static std::vector<State> pathUnfold(const State &s0, int id, bool top) {
    std::vector<State> r;
    int mode = s0.kinds[s0.atom(id).kind].mode;
    if (s0.atom(id).loose) mode = 0;
    if (!s0.pathIsNE(id)) {
      State s = s0;
      try { s.pathEmpty(id); r.push_back(std::move(s)); } catch (Infeasible &) {}
    }
    int ncase = mode == 1 ? 2 : mode == 2 ? 3 : 1;
    for (int left = 0; left < 2; ++left)
      for (int cs = 0; cs < ncase; ++cs) {
        if (left ? s0.atom(id).Rst == 2 : s0.atom(id).Lst == 2) continue;
        // after a left turn the node is in the right part; the remaining right part may be empty or not
        State s = s0;
        try { for (auto &x : pathUnfoldCase(s, id, top, left, cs)) r.push_back(x); } catch (Infeasible &) {}
      }
    return r;
  }
  static std::vector<State> pathUnfoldCase(State s, int id, bool top, bool left, int cs) {
    std::vector<State> r;
    s.pathNE(id);
    const Kind K = s.kinds[s.atom(id).kind];
    int mode = K.mode;
    bool loose = s.atom(id).loose;
    if (loose) { mode = 0; if (!top) throw Undecided{"bottom of a loose path"}; }
    { Atom &a = s.atom(id);
      if (mode == 1) {
        Color bad = cs == 1 ? CBlack : CRed;
        if (top && a.color == bad) throw Infeasible();
        if (!top && a.bot == bad) throw Infeasible();
      } }
    Lin l1, l2;
    bool one = s.atom(id).one;
    if (one) { l1 = left ? s.atom(id).lenR : s.atom(id).len; l1.c -= 1; l2 = Lin(0); s.atom(id).one = false; }
    else { Lin l = left ? s.atom(id).lenR : s.atom(id).len; s.requireGE(l, 1); s.splitLen(l, l1, l2); }
    Atom a0 = s.atom(id);
    int n = s.newNode(a0.kind, "");
    Val pn = s.ptrToNode(n);
    s.objs[n].zone = left ? a0.zoneR : a0.zoneL;
    int t = s.newTree(a0.kind, pn, l1); // side tree
    s.atom(t).zone = left ? a0.zoneR : a0.zoneL;
    Atom &a = s.atom(id);
    (left ? a.lenR : a.len) = l2; a.ne = false;
    Atom &T = s.atom(t);
    if (mode == 1) {
      s.setField(pn, K.extra, vInt(cs == 0 ? K.v0 : K.v1), K.extraSize);
      if (top) {
        Lin ch = a.hTop;
        if (cs == 0) { s.requireGE(ch, 1); ch = s.atom(id).hTop; ch.c -= 1; }
        T.h = ch; a.hTop = ch;
        if (cs == 1) { T.color = CBlack; a.color = CBlack; } else a.color = CAny;
      } else {
        T.h = a.hHole;
        if (cs == 1) { T.color = CBlack; a.bot = CBlack; }
        else { a.hHole.c += 1; a.bot = CAny; }
      }
    } else if (mode == 2) {
      // cs 0: left-heavy, 1: balanced, 2: right-heavy
      s.setField(pn, K.extra, vInt(cs == 0 ? K.v0 : cs == 1 ? K.v1 : K.v2), K.extraSize);
      bool holeHeavy = (cs == 0 && left) || (cs == 2 && !left), bal = cs == 1;
      if (top) {
        s.requireGE(s.atom(id).hTop, 1);
        Lin H = s.atom(id).hTop, c = H, o = H;
        c.c -= 1; o.c -= 1;
        if (!bal) { if (holeHeavy) { o.c -= 1; s.requireGE(o, 0); } else { c.c -= 1; s.requireGE(c, 0); } }
        // re-read after possible lower-bound changes (no substitution happens in requireGE)
        s.atom(id).hTop = c; s.atom(t).h = o;
      } else {
        Lin k = a.hHole, o = k, nh = k;
        nh.c += 1;
        if (!bal) { if (holeHeavy) { o.c -= 1; s.requireGE(o, 0); } else { o.c += 1; nh.c += 1; } }
        T.h = o; a.hHole = nh;
      }
    }
    Atom &b = s.atom(id);
    Val other = vK(VK::Root, t);
    if (top) {
      s.replaceVal(vK(VK::Top, id), pn);
      s.setField(pn, left ? K.left : K.right, vK(VK::Top, id));
      s.setField(pn, left ? K.right : K.left, other);
      s.setField(pn, K.parent, b.up);
      s.atom(id).up = pn;
      if (loose) { s.atom(id).up = vOpq(77); s.atom(t).loose = true; s.atom(t).up = vOpq(77); if (K.mode == 1 || K.mode == 2) s.setField(pn, K.extra, vOpq(77), K.extraSize); }
      if (left) s.replaceItem(IR, id, {Item{IR, id}, Item{IN, n}, Item{IA, t}});
      else s.replaceItem(IL, id, {Item{IA, t}, Item{IN, n}, Item{IL, id}});
      if (mode == 3) { s.replaceRef({'p', id}, {'n', n}); s.geq.insert({{'n', n}, {'p', id}}); s.geq.insert({{'n', n}, {'t', t}}); }
    } else {
      Val hole = b.hole;
      s.replaceVal(vK(VK::Bot, id), pn);
      s.setField(pn, left ? K.left : K.right, hole);
      s.setField(pn, left ? K.right : K.left, other);
      s.setField(pn, K.parent, vK(VK::Bot, id));
      s.atom(id).hole = pn;
      if (left) s.replaceItem(IR, id, {Item{IN, n}, Item{IA, t}, Item{IR, id}});
      else s.replaceItem(IL, id, {Item{IL, id}, Item{IA, t}, Item{IN, n}});
      if (mode == 3) { s.replaceRef({'b', id}, {'n', n}); s.geq.insert({{'b', id}, {'n', n}}); s.geq.insert({{'n', n}, {'t', t}}); }
    }
    // emptiness of the remaining path parts: side from which the node came becomes unknown
    { Atom &x = s.atom(id); if (left) x.Rst = 0; else x.Lst = 0; }
    s.treeTidy(t);
    s.pathTidy(id);
    if (mode == 1 && top && a0.bot != CAny && a0.bot != (cs == 1 ? CRed : CBlack)) {
      if (!s.atoms.count(id)) throw Infeasible();
      s.pathNE(id); s.pathTidy(id);
    }
    if (mode == 1 && !top && a0.color == CRed && cs == 0) {
      if (!s.atoms.count(id)) throw Infeasible();
      s.pathNE(id); s.pathTidy(id);
    }
    if (mode == 1 && cs == 1 && s.atoms.count(id)) {
      // a red node just under a black-required top, or over... : remaining path must be non-empty when up requires black
      if (!top && s.atom(id).color == CBlack && !s.pathIsNE(id)) {
        // node would be the top: must be black, hence remaining path non-empty
        s.pathNE(id);
        s.pathTidy(id);
      }
    } else if (mode == 1 && cs == 1 && !s.atoms.count(id) && !top && a0.color == CBlack) throw Infeasible();
    r.push_back(std::move(s));
    return r;
  }
  // deeper resolution of First/Last: expose the first (last) node of item it (known non-empty)
  static std::vector<State> exposeExtreme(const State &s0, const Item &it, bool first) {
    std::vector<State> r;
    if (it.ik == IA && s0.atom(it.id).ak == ASeg) return matSeg(s0, it.id, first);
    if (it.ik == IA) {
      // T = path of only-left turns (first) with hole node m having null left child
      const Atom a0 = s0.atom(it.id);
      int mode = s0.kinds[a0.kind].mode;
      if (a0.loose) throw Undecided{"extreme of a loose tree"};
      int ncase = mode == 1 ? 2 : mode == 2 ? 2 : 1;
      for (int cs = 0; cs < ncase; ++cs) {
        State s = s0;
        try {
          int id = it.id;
          s.requireGE(s.atom(id).len, 1);
          Lin lp, lt; // path length, tree length of m's other child
          { Lin l = s.atom(id).len; s.splitLen(l, lp, lt); }
          Atom a = s.atom(id);
          const Kind K = s.kinds[a.kind];
          int m = s.newNode(a.kind, "");
          s.objs[m].zone = a.zone;
          Val pm = s.ptrToNode(m);
          int p = s.newPath(a.kind, a.up, pm, first ? Lin(0) : lp, first ? lp : Lin(0));
          int t = s.newTree(a.kind, pm, lt);
          s.atom(t).zone = a.zone;
          Atom &P = s.atom(p), &T = s.atom(t);
          P.zone = P.zoneL = P.zoneR = a.zone;
          if (first) P.Lst = 2; else P.Rst = 2;
          if (mode == 1) {
            P.hTop = a.h; P.color = a.color;
            T.h = Lin(0);
            if (cs == 0) { P.hHole = Lin(1); P.bot = CAny; T.color = CAny; }
            else { P.hHole = Lin(0); P.bot = CBlack; T.color = CBlack; }
            s.setField(pm, K.extra, vInt(cs == 0 ? K.v0 : K.v1), K.extraSize);
          } else if (mode == 2) {
            P.hTop = a.h;
            if (cs == 0) { P.hHole = Lin(1); T.h = Lin(0); }
            else { P.hHole = Lin(2); T.h = Lin(1); }
            s.setField(pm, K.extra, vInt(cs == 0 ? K.v1 : first ? K.v2 : K.v0), K.extraSize);
          }
          s.setField(pm, first ? K.left : K.right, vInt(0));
          s.setField(pm, first ? K.right : K.left, vK(VK::Root, t));
          s.setField(pm, K.parent, vK(VK::Bot, p));
          s.replaceVal(vK(VK::Root, id), vK(VK::Top, p));
          if (mode == 3) { s.replaceRef({'t', id}, {'p', p}); s.geq.insert({{'b', p}, {'n', m}}); s.geq.insert({{'n', m}, {'t', t}}); }
          if (first) s.replaceItem(IA, id, {Item{IN, m}, Item{IA, t}, Item{IR, p}});
          else s.replaceItem(IA, id, {Item{IL, p}, Item{IA, t}, Item{IN, m}});
          s.dropAtom(id);
          s.treeTidy(t);
          if (mode == 1 && a.color != CAny && a.color != (cs == 1 ? CRed : CBlack)) s.pathNE(p);
          s.pathTidy(p);
          r.push_back(std::move(s));
        } catch (Infeasible &) {}
      }
    } else if (it.ik == IL || it.ik == IR) {
      // First of L(P): the topmost right turn k; P = P1(only left turns) . k . P2.   (mirror for Last of R(P))
      bool L = it.ik == IL;
      if (L != first) throw Undecided{"extreme of inner path part"};
      const Atom a0 = s0.atom(it.id);
      int mode = s0.kinds[a0.kind].mode;
      int ncase = mode == 1 ? 2 : mode == 2 ? 3 : 1;
      for (int cs = 0; cs < ncase; ++cs) {
        State s = s0;
        try {
          int id = it.id;
          s.pathNE(id);
          Lin l1, lr, lt, l2;
          // lt: side tree, l2: what is left on the same side; l1, lr: split of the other side
          if (s.atom(id).one) { lt = L ? s.atom(id).len : s.atom(id).lenR; lt.c -= 1; l1 = l2 = lr = Lin(0); s.atom(id).one = false; }
          else { { Lin l = L ? s.atom(id).len : s.atom(id).lenR; s.requireGE(l, 1); s.splitLen(l, lt, l2); }
            Lin o = L ? s.atom(id).lenR : s.atom(id).len;
            if (o.isConst() && o.c == 0) l1 = lr = Lin(0); else s.splitLen(o, l1, lr, 0); }
          Atom a = s.atom(id);
          const Kind K = s.kinds[a.kind];
          int k = s.newNode(a.kind, "");
          Val pk = s.ptrToNode(k);
          int p1 = s.newPath(a.kind, a.up, pk, L ? Lin(0) : l1, L ? l1 : Lin(0));
          int t = s.newTree(a.kind, pk, lt);
          s.atom(t).zone = L ? a.zoneL : a.zoneR;
          s.objs[k].zone = s.atom(t).zone;
          Atom &P1 = s.atom(p1), &T = s.atom(t), &P2 = s.atom(id);
          P1.zoneL = a.zoneL; P1.zoneR = a.zoneR;
          (L ? P2.len : P2.lenR) = l2; (L ? P2.lenR : P2.len) = lr; P2.ne = false;
          if (L) P1.Lst = 2; else P1.Rst = 2;
          P1.color = a.color;
          P2.color = CAny;
          if (L) { P2.Lst = 0; P1.Rst = a.Rst == 2 ? 2 : 0; P2.Rst = a.Rst == 2 ? 2 : 0; }
          else { P2.Rst = 0; P1.Lst = a.Lst == 2 ? 2 : 0; P2.Lst = a.Lst == 2 ? 2 : 0; }
          Lin hk;
          if (mode == 1) {
            P1.hTop = a.hTop; hk = s.newSym(0); s.atom(p1).hHole = hk;
            Lin ch = hk;
            if (cs == 0) { s.requireGE(hk, 1); ch.c -= 1; } else { s.atom(p1).bot = CBlack; }
            s.atom(t).h = ch; s.atom(id).hTop = ch;
            if (cs == 1) { s.atom(t).color = CBlack; s.atom(id).color = CBlack; }
            s.setField(pk, K.extra, vInt(cs == 0 ? K.v0 : K.v1), K.extraSize);
          } else if (mode == 2) {
            P1.hTop = a.hTop; hk = s.newSym(1); s.atom(p1).hHole = hk;
            Lin c = hk, o = hk; c.c -= 1; o.c -= 1;
            bool holeHeavy = (cs == 2 && L) || (cs == 0 && !L);
            if (cs != 1) { if (holeHeavy) { o.c -= 1; s.requireGE(o, 0); } else { c.c -= 1; s.requireGE(c, 0); } }
            s.atom(t).h = o; s.atom(id).hTop = c;
            s.setField(pk, K.extra, vInt(cs == 0 ? K.v0 : cs == 1 ? K.v1 : K.v2), K.extraSize);
          }
          (void)T;
          s.setField(pk, L ? K.left : K.right, vK(VK::Root, t));
          s.setField(pk, L ? K.right : K.left, vK(VK::Top, id));
          s.setField(pk, K.parent, vK(VK::Bot, p1));
          { Val top1 = vK(VK::Top, p1), topo = vK(VK::Top, id);
            s.forEachVal([&](Val &v) { if (v == topo) v = top1; });
            s.setField(pk, L ? K.right : K.left, topo); }
          s.atom(id).up = pk;
          if (mode == 3) {
            s.replaceRef({'p', id}, {'p', p1});
            s.geq.insert({{'b', p1}, {'n', k}}); s.geq.insert({{'n', k}, {'t', t}}); s.geq.insert({{'n', k}, {'p', id}});
          }
          if (L) {
            s.replaceItem(IL, id, {Item{IA, t}, Item{IN, k}, Item{IL, id}});
            if (a.Rst != 2) s.replaceItem(IR, id, {Item{IR, id}, Item{IR, p1}});
          } else {
            s.replaceItem(IR, id, {Item{IR, id}, Item{IN, k}, Item{IA, t}});
            if (a.Lst != 2) s.replaceItem(IL, id, {Item{IL, p1}, Item{IL, id}});
          }
          s.treeTidy(t); s.pathTidy(id); s.pathTidy(p1);
          if (mode == 1 && cs == 1 && a.color == CBlack) {
            if (!s.atoms.count(p1)) throw Infeasible();
            s.pathNE(p1); s.pathTidy(p1);
          }
          if (mode == 1 && cs == 0 && a.color == CRed) {
            if (!s.atoms.count(p1)) throw Infeasible();
            s.pathNE(p1); s.pathTidy(p1);
          }
          if (mode == 1 && a.bot != CAny && a.bot != (cs == 1 ? CRed : CBlack)) {
            if (!s.atoms.count(id)) throw Infeasible();
            s.pathNE(id); s.pathTidy(id);
          }
          r.push_back(std::move(s));
        } catch (Infeasible &) {}
      }
    }
    return r;
  }
  // make item it known empty / non-empty
  static std::vector<State> forkEmpty(const State &s0, const Item &it) {
    std::vector<State> r;
    { State s = s0;
      try {
        if (it.ik == IA) { if (s.atom(it.id).ak == ASeg) { s.requireZero(s.atom(it.id).len); s.segEmpty(it.id); } else s.treeEmpty(it.id); }
        else s.setLempty(it.id, it.ik == IL);
        r.push_back(std::move(s));
      } catch (Infeasible &) {} }
    { State s = s0;
      try {
        if (it.ik == IA) { s.requireGE(s.atom(it.id).len, 1); if (s.atom(it.id).ak == ASeg) s.atom(it.id).ne = true; }
        else { Atom &a = s.atom(it.id); (it.ik == IL ? a.Lst : a.Rst) = 1; s.pathTidy(it.id); }
        r.push_back(std::move(s));
      } catch (Infeasible &) {} }
    return r;
  }
};
struct Fork { std::vector<State> alts; };
