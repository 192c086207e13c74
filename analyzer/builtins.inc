  // ---------- specification builtins (members of Engine)
  struct ForkRet { std::vector<std::pair<State, Val>> alts; };
  State *curS = nullptr;
  std::string strArg(const llvm::Value *v) {
    llvm::StringRef r;
    if (llvm::getConstantStringInfo(v, r)) return r.str();
    if (curS) { // selected among constants on this path
      Val x = get(*curS, v);
      if (x.k == VK::Ptr) for (auto &g : globalIds) if (g.second == x.id && llvm::getConstantStringInfo(g.first, r)) return r.str().substr(x.off);
    }
    throw Undecided{"string argument expected"};
  }
  static std::vector<std::string> split(const std::string &t) {
    std::vector<std::string> r; std::string c;
    for (char x : t) { if (x == ' ') { if (c.size()) r.push_back(c); c.clear(); } else c += x; }
    if (c.size()) r.push_back(c);
    return r;
  }
  i64 intArg(State &s, const llvm::CallBase *C, unsigned i) {
    Val v = get(s, C->getArgOperand(i));
    if (v.k == VK::Word) return v.id;
    if (!v.isConst()) throw Undecided{"constant argument expected"};
    return v.lin.c;
  }
  std::string dumpItems(const State &s, const Items &w) {
    std::string r;
    for (auto &x : w) {
      if (r.size()) r += ' ';
      if (x.mod) r += (x.mod == MKeep ? "keep:" : x.mod == MDrop ? "drop:" : "clone:");
      if (x.ik == IN) { auto it = s.objs.find(x.id); r += it != s.objs.end() && it->second.name.size() ? it->second.name : "n" + std::to_string(x.id); }
      else r += (x.ik == IA ? "A" : x.ik == IL ? "L" : "R") + std::to_string(x.id);
      if (x.rev) r += "^r";
      if (!s.itemNE(x)) r += "?";
    }
    return r.empty() ? "(empty)" : r;
  }
  // ---- reading structures back
  Items readRing(State &s, const Val &h, int kind, bool linear) {
    const Kind &K = s.kinds[kind];
    Items w;
    std::set<int> seen;
    Val cur = s.field(h, K.next), who = h;
    for (int guard = 0; guard < 10000; ++guard) {
      if (linear && cur.isNull()) return w;
      if (cur == h) {
        if (K.hasPrev()) { Val p = s.field(h, K.prev); if (p != who) viol("struct", "the list end's back link is " + desc(s, p) + ", expected " + desc(s, who)); }
        return w;
      }
      if (cur.k == VK::Ptr) {
        auto it = s.objs.find(cur.id);
        if (it == s.objs.end() || it->second.ok != ONode) viol("struct", "a list link leads to " + desc(s, cur) + ", which is not an element");
        if (it->second.dead) viol("struct", "a disposed element is still linked");
        if (it->second.kind != kind || cur.off != K.nodeOff) viol("struct", "a link points inside an element, not to its hook");
        if (!seen.insert(cur.id).second) viol("struct", "the list links form a cycle that misses the end node");
        if (K.hasPrev()) { Val p = s.field(cur, K.prev); if (p != who) viol("struct", "back link of " + desc(s, cur) + " is " + desc(s, p) + ", expected " + desc(s, who)); }
        w.push_back(Item{IN, cur.id});
        who = cur;
        cur = s.field(cur, K.next);
      } else if (cur.k == VK::Front) {
        Atom &a = s.atom(cur.id);
        if (!seen.insert(cur.id).second) viol("struct", "the list links form a cycle that misses the end node");
        if (K.hasPrev() && a.in != who) viol("struct", "back link of the first element of a run is " + desc(s, a.in) + ", expected " + desc(s, who));
        w.push_back(Item{IA, cur.id});
        who = vK(VK::Back, cur.id);
        cur = a.out;
      } else
        viol("struct", "a next link holds " + desc(s, cur));
    }
    viol("struct", "list does not terminate");
  }
  struct TR { Lin h; Color c = CBlack; bool empty = false; };
  std::string balErr;
  void bal(const std::string &m) { if (balErr.empty()) balErr = m; }
  bool hasGeq(State &s, FRef a, FRef b) { // transitive closure
    std::set<FRef> seen{a}; std::vector<FRef> todo{a};
    while (!todo.empty()) {
      FRef x = todo.back(); todo.pop_back();
      if (x == b) return true;
      for (auto &p : s.geq) if (p.first == x && seen.insert(p.second).second) todo.push_back(p.second);
    }
    return false;
  }
  TR readTreeRec(State &s, const Val &v, const Val &up, int kind, Items &w, std::set<int> &seen, FRef parentRef) {
    const Kind &K = s.kinds[kind];
    TR r;
    if (v.isNull()) { r.empty = true; return r; }
    if (K.mode == 3 && parentRef.k != '0' && !hasGeq(s, parentRef, s.refOf(v)))
      bal("an element may have a higher priority than its parent");
    if (v.k == VK::Root) {
      Atom &a = s.atom(v.id);
      if (!seen.insert(v.id).second) viol("struct", "a subtree is reachable twice");
      if (a.loose) throw Undecided{"parent links of a subtree are not known"};
      if (a.up != up) viol("struct", "parent link of a subtree root is " + desc(s, a.up) + ", expected " + desc(s, up));
      w.push_back(Item{IA, v.id});
      r.h = a.h; r.c = a.color;
      return r;
    }
    if (v.k == VK::Top) {
      Atom a = s.atom(v.id);
      if (!seen.insert(v.id).second) viol("struct", "a subtree is reachable twice");
      if (a.loose) throw Undecided{"parent links of a subtree are not known"};
      if (a.up != up) viol("struct", "parent link of a subtree root is " + desc(s, a.up) + ", expected " + desc(s, up));
      if (a.Lst != 2) w.push_back(Item{IL, v.id});
      TR in = readTreeRec(s, a.hole, vK(VK::Bot, v.id), kind, w, seen, FRef{'b', v.id});
      if (a.Rst != 2) w.push_back(Item{IR, v.id});
      if (K.mode == 1) {
        if (in.h != a.hHole) bal("black height differs between sibling paths");
        if (in.c != CBlack && a.bot != CBlack) bal("a red element may have a red child");
        if (in.c != CBlack && a.color == CBlack && !s.pathIsNE(v.id)) bal("a red element may sit where a black one is required");
      } else if (K.mode == 2) {
        if (in.h != a.hHole) bal("subtree height differs from the height its ancestors' balance factors record (" + in.h.str() + " vs " + a.hHole.str() + ")");
      }
      r.h = a.hTop; r.c = a.color;
      if (K.mode == 1 && a.color != CBlack && in.c == CBlack && !s.pathIsNE(v.id)) r.c = a.color;
      return r;
    }
    if (v.k != VK::Ptr) viol("struct", "a child link holds " + desc(s, v));
    auto it = s.objs.find(v.id);
    if (it == s.objs.end() || it->second.ok != ONode) viol("struct", "a child link leads to " + desc(s, v) + ", which is not an element");
    if (it->second.dead) viol("struct", "a disposed element is still linked");
    if (it->second.kind != kind || v.off != K.nodeOff) viol("struct", "a link points inside an element, not to its hook");
    if (!seen.insert(v.id).second) viol("struct", "an element is reachable twice");
    Val p = s.field(v, K.parent);
    if (p.k == VK::Opq && p.id == 77) throw Undecided{"parent link not known"};
    if (p != up) viol("struct", "parent link of " + desc(s, v) + " is " + desc(s, p) + ", expected " + desc(s, up));
    TR L = readTreeRec(s, s.field(v, K.left), v, kind, w, seen, FRef{'n', v.id});
    w.push_back(Item{IN, v.id});
    TR R = readTreeRec(s, s.field(v, K.right), v, kind, w, seen, FRef{'n', v.id});
    if (K.mode == 1) {
      const Val *e = s.cell(v.id, K.nodeOff + K.extra, K.extraSize);
      if (!e || !e->isConst() || (e->lin.c != K.v0 && e->lin.c != K.v1)) { bal("colour of " + desc(s, v) + " is not set"); return r; }
      bool red = e->lin.c == K.v1;
      if (L.h != R.h) bal("black heights of the subtrees of " + desc(s, v) + " differ (" + L.h.str() + " vs " + R.h.str() + ")");
      if (red && (L.c != CBlack || R.c != CBlack)) bal("a red element has a red child");
      r.h = L.h; if (!red) r.h.c += 1;
      r.c = red ? CRed : CBlack;
    } else if (K.mode == 2) {
      const Val *e = s.cell(v.id, K.nodeOff + K.extra, K.extraSize);
      i64 d = 0;
      if (!e || !e->isConst()) { bal("balance factor of " + desc(s, v) + " is not set"); return r; }
      if (e->lin.c == K.v0) d = 1; else if (e->lin.c == K.v1) d = 0; else if (e->lin.c == K.v2) d = -1; else bal("balance factor of " + desc(s, v) + " is invalid");
      Lin df = L.h - R.h;
      if (!(df.isConst() && df.c == d)) bal("balance factor of " + desc(s, v) + " does not match the heights of its subtrees (difference " + df.str() + ", recorded " + std::to_string(d) + ")");
      r.h = d >= 0 ? L.h : R.h; r.h.c += 1;
    }
    return r;
  }
  Items readTree(State &s, const Val &h, int kind, bool cache = true) {
    const Kind &K = s.kinds[kind];
    Items w; std::set<int> seen;
    balErr.clear();
    Val root = s.field(h, K.parent), l = s.field(h, K.left), r = s.field(h, K.right);
    for (auto &x : {root, l, r}) if (x.k == VK::Opq && x.id == 77) throw Undecided{"header link not known"};
    TR t = readTreeRec(s, root, h, kind, w, seen, FRef{'0', 0});
    if (K.mode == 1 && !t.empty && t.c != CBlack) bal("the root may be red");
    if (cache) {
      if (t.empty) {
        if (l != h) viol("cache", "header's first-element link of an empty tree is " + desc(s, l));
        if (r != h) viol("cache", "header's last-element link of an empty tree is " + desc(s, r));
      } else {
        s.normVal(l); s.normVal(r);
        auto okF = [&](const Val &v, bool first) {
          if (v.k == VK::Ptr) { const Item &x = first ? w.front() : w.back(); return x.ik == IN && s.ptrToNode(x.id) == v; }
          if (v.k != (first ? VK::First : VK::Last)) return false;
          if (v.w.size() > w.size()) return false;
          for (size_t i = 0; i < v.w.size(); ++i) if (!v.w[i].same(w[first ? i : w.size() - v.w.size() + i])) return false;
          return true;
        };
        if (!okF(l, true)) viol("cache", "header's first-element link is not the first element in order (it is " + desc(s, l) + "; contents " + dumpItems(s, w) + ")");
        if (!okF(r, false)) viol("cache", "header's last-element link is not the last element in order (it is " + desc(s, r) + "; contents " + dumpItems(s, w) + ")");
      }
    }
    return w;
  }
  void compareWords(State &s, const Items &got, const Items &want, const char *cat) {
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) if (!(got[i].same(want[i]) && got[i].rev == want[i].rev && !want[i].mod)) ok = false;
    if (!ok) viol(cat, "contents are [" + dumpItems(s, got) + "], expected [" + dumpItems(s, want) + "]");
  }
  void compareBags(State &s, Items got, Items want, const char *cat) {
    auto f = [](const Item &a, const Item &b) { return std::tie(a.ik, a.id) < std::tie(b.ik, b.id); };
    std::sort(got.begin(), got.end(), f); std::sort(want.begin(), want.end(), f);
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) if (!got[i].same(want[i]) || want[i].mod) ok = false;
    if (!ok) viol(cat, "contents are {" + dumpItems(s, got) + "}, expected (any order) {" + dumpItems(s, want) + "}");
  }
  // ---- building trees
  struct Desc { int t = 0; int node = -1; std::shared_ptr<Desc> l, r; }; // 0 tree, 1 node, 2 path(hole=l), 3 null
  typedef std::shared_ptr<Desc> DP;
  static DP dTree() { return std::make_shared<Desc>(); }
  static DP dNull() { auto d = std::make_shared<Desc>(); d->t = 3; return d; }
  static DP dNode(int n, DP l, DP r) { auto d = std::make_shared<Desc>(); d->t = 1; d->node = n; d->l = l; d->r = r; return d; }
  static DP dPath(DP h) { auto d = std::make_shared<Desc>(); d->t = 2; d->l = h; return d; }
  struct BR { Val v; Lin h; Color c = CAny; bool ne = false; };
  void setUp(State &s, const Val &child, const Val &up, const Kind &K) {
    if (child.k == VK::Root || child.k == VK::Top) s.atom(child.id).up = up;
    else if (child.k == VK::Ptr) s.setField(child, K.parent, up);
  }
  void requireBlack(State &s, const BR &b) {
    if (b.v.k == VK::Root) s.atom(b.v.id).color = CBlack;
    else if (b.v.k == VK::Ptr) { if (b.c == CRed) throw Infeasible(); }
    else if (b.v.k == VK::Top) {
      Atom &a = s.atom(b.v.id);
      a.color = CBlack;
      if (a.hole.k == VK::Ptr && a.bot == CBlack) s.pathNE(b.v.id); // red content: marked through bot
    }
  }
  BR buildDesc(State &s, DP d, int kind, const std::map<int, int> &attr) {
    const Kind K = s.kinds[kind];
    BR b;
    if (d->t == 3) { b.v = vInt(0); b.c = CBlack; return b; }
    if (d->t == 0) {
      int id = s.newTree(kind, Val(), s.newSym(0));
      if (K.mode == 1 || K.mode == 2) s.atom(id).h = s.newSym(0);
      b.v = vK(VK::Root, id); b.h = s.atom(id).h; b.c = CAny;
      return b;
    }
    if (d->t == 2) {
      BR in = buildDesc(s, d->l, kind, attr);
      int id = s.newPath(kind, Val(), in.v, s.newSym(0), s.newSym(0));
      if (K.mode == 1 || K.mode == 2) { s.atom(id).hTop = s.newSym(0); s.atom(id).hHole = in.h; }
      if (K.mode == 1 && in.c == CRed) s.atom(id).bot = CBlack;
      setUp(s, in.v, vK(VK::Bot, id), K);
      b.v = vK(VK::Top, id); b.h = s.atom(id).hTop; b.c = CAny;
      if (K.mode == 3 && s.refOf(in.v).k != '0') s.geq.insert({{'b', id}, s.refOf(in.v)});
      return b;
    }
    int n = d->node;
    if (n < 0) n = s.newNode(kind, "r");
    Val pn = s.ptrToNode(n);
    BR l = buildDesc(s, d->l, kind, attr), r = buildDesc(s, d->r, kind, attr);
    int at = 0;
    { auto it = attr.find(d->node); if (it != attr.end()) at = it->second; }
    s.setField(pn, K.left, l.v); s.setField(pn, K.right, r.v);
    setUp(s, l.v, pn, K); setUp(s, r.v, pn, K);
    if (K.mode == 1) {
      s.requireEq(l.h, r.h);
      s.setField(pn, K.extra, vInt(at ? K.v1 : K.v0), K.extraSize);
      // re-read heights after unification
      b.h = heightOf(s, l.v, kind); if (!at) b.h.c += 1;
      b.c = at ? CRed : CBlack;
      if (at) { requireBlack(s, l); requireBlack(s, r); }
    } else if (K.mode == 2) {
      Lin d0 = l.h - r.h; d0.c -= at == 0 ? 1 : at == 1 ? 0 : -1;
      s.requireZero(d0);
      s.setField(pn, K.extra, vInt(at == 0 ? K.v0 : at == 1 ? K.v1 : K.v2), K.extraSize);
      b.h = heightOf(s, at == 2 ? r.v : l.v, kind); b.h.c += 1;
    } else if (K.mode == 3) {
      if (s.refOf(l.v).k != '0') s.geq.insert({{'n', n}, s.refOf(l.v)});
      if (s.refOf(r.v).k != '0') s.geq.insert({{'n', n}, s.refOf(r.v)});
    }
    b.v = pn;
    return b;
  }
  Lin heightOf(State &s, const Val &v, int kind) {
    const Kind &K = s.kinds[kind];
    if (v.isNull()) return Lin(0);
    if (v.k == VK::Root) return s.atom(v.id).h;
    if (v.k == VK::Top) return s.atom(v.id).hTop;
    Val l = s.field(v, K.left), r = s.field(v, K.right);
    const Val *e = s.cell(v.id, K.nodeOff + K.extra, K.extraSize);
    Lin h;
    if (K.mode == 1) { h = heightOf(s, l, kind); if (e->lin.c == K.v0) h.c += 1; }
    else if (K.mode == 2) { h = heightOf(s, e->lin.c == K.v2 ? r : l, kind); h.c += 1; }
    return h;
  }
  void collectNodes(DP d, std::vector<int> &v) { if (!d) return; if (d->t == 1) v.push_back(d->node); collectNodes(d->l, v); collectNodes(d->r, v); }
  // all states in which the tree headed at h has the described shape
  void buildTree(const State &s0, const Val &h, int kind, DP d, std::vector<State> &out) {
    const Kind K = s0.kinds[kind];
    std::vector<int> nodes; collectNodes(d, nodes);
    int base = K.mode == 1 ? 2 : K.mode == 2 ? 3 : 1, total = 1;
    for (size_t i = 0; i < nodes.size(); ++i) total *= base;
    for (int c = 0; c < total; ++c) {
      State s = s0;
      std::map<int, int> attr;
      int x = c;
      for (int n : nodes) { attr[n] = x % base; x /= base; }
      try {
        BR b = buildDesc(s, d, kind, attr);
        if (K.mode == 1) requireBlack(s, b);
        s.setField(h, K.parent, b.v);
        setUp(s, b.v, h, K);
        if (b.v.k == VK::Root) s.requireGE(s.atom(b.v.id).len, 1);
        Items w; std::set<int> seen;
        balErr.clear();
        if (b.v.isNull()) { s.setField(h, K.left, h); s.setField(h, K.right, h); }
        else {
          readTreeRec(s, b.v, h, kind, w, seen, FRef{'0', 0});
          Val f; f.k = VK::First; f.w = w; s.setField(h, K.left, f);
          f.k = VK::Last; s.setField(h, K.right, f);
          s.normFL();
        }
        Word wd; wd.items = w; s.words.push_back(wd);
        tidyAll(s);
        out.push_back(s);
      } catch (Infeasible &) {}
    }
  }
  int nodeArg(State &s, const Val &v0) { // object id of an element given by element pointer or node pointer
    Val v = v0; s.normVal(v);
    if (v.k == VK::First || v.k == VK::Last) v = derefPtr(s, v, "use");
    if (v.k == VK::Ptr) { auto it = s.objs.find(v.id); if (it != s.objs.end() && it->second.ok == ONode) return v.id; }
    return -1;
  }
  // zones
  bool narrow(State &s, std::vector<std::pair<int, int>> &z, int key, int lo, int hi) {
    auto &p = z.at(key);
    p.first = std::max(p.first, lo); p.second = std::min(p.second, hi);
    return p.first <= p.second;
  }
  std::pair<int, int> zoneOf(const State &s, const Item &x, int key) {
    const auto &z = x.ik == IN ? s.objs.at(x.id).zone : x.ik == IA ? s.atom(x.id).zone : x.ik == IL ? s.atom(x.id).zoneL : s.atom(x.id).zoneR;
    return key < (int)z.size() ? z[key] : std::make_pair(0, 2);
  }
  void refineZone(State &s, int n, int key, int lo, int hi) {
    if (!narrow(s, s.objs.at(n).zone, key, lo, hi)) throw Infeasible();
    propagate(s, key);
    if (s.flags[10]) { // keys are registered in strictly increasing order
      auto it = s.objs.find(n);
      if (it == s.objs.end()) return;
      auto z = it->second.zone.at(key);
      if (z.first >= 1) for (int k = 0; k < key; ++k) if (it->second.zone[k].first < 2) { if (!narrow(s, s.objs.at(n).zone, k, 2, 2)) throw Infeasible(); propagate(s, k); }
      if (z.second <= 1) for (int k = key + 1; k < s.nkeys; ++k) if (s.objs.at(n).zone[k].second > 0) { if (!narrow(s, s.objs.at(n).zone, k, 0, 0)) throw Infeasible(); propagate(s, k); }
    }
  }
  void propagate(State &s, int key) {
    for (size_t wi = 0; wi < s.words.size(); ++wi) {
      if (!s.words[wi].sorted) continue;
    again:
      Items w = s.words[wi].items;
      int lo = 0;
      for (size_t i = 0; i < w.size(); ++i) {
        if (w[i].ik == IN && !s.objs.count(w[i].id)) continue;
        auto z = zoneOf(s, w[i], key);
        if (z.first < lo || z.second < lo) if (setZone(s, w[i], key, lo, 2)) goto again;
        z = zoneOf(s, w[i], key);
        if (s.itemNE(w[i])) lo = std::max(lo, z.first);
      }
      int hi = 2;
      for (size_t i = w.size(); i-- > 0;) {
        if (w[i].ik == IN && !s.objs.count(w[i].id)) continue;
        auto z = zoneOf(s, w[i], key);
        if (z.second > hi) if (setZone(s, w[i], key, 0, hi)) goto again;
        z = zoneOf(s, w[i], key);
        if (s.itemNE(w[i])) hi = std::min(hi, z.second);
      }
    }
  }
  bool setZone(State &s, const Item &x, int key, int lo, int hi) { // true if the item vanished
    auto &z = x.ik == IN ? s.objs.at(x.id).zone : x.ik == IA ? s.atom(x.id).zone : x.ik == IL ? s.atom(x.id).zoneL : s.atom(x.id).zoneR;
    if (narrow(s, z, key, lo, hi)) return false;
    if (s.itemNE(x)) throw Infeasible();
    if (x.ik == IA && s.atom(x.id).ak == ASeg) { s.requireZero(s.atom(x.id).len); s.segEmpty(x.id); } else if (x.ik == IA) s.treeEmpty(x.id); else s.setLempty(x.id, x.ik == IL);
    tidyAll(s);
    return true;
  }
  int keyIndex(State &s, const Val &v) { for (size_t i = 0; i < s.keyObj.size(); ++i) if (v.k == VK::Ptr && s.keyObj[i] == v.id) return (int)i; return -1; }
  // comparator: user calls less(a,b)
  Val lessCall(State &s, const Val &a0, const Val &b0) {
    Val a = a0, b = b0;
    a = derefPtr(s, a, "comparison"); b = derefPtr(s, b, "comparison");
    int ka = keyIndex(s, a), kb = keyIndex(s, b);
    auto done = [&](State t, int v) { return std::make_pair(t, mk32(v)); };
    if (ka >= 0 && kb >= 0) {
      if (ka == kb) return mk32(0);
      if (ka > kb) return mk32(0); // keys are registered in increasing order
      if (s.flags[10]) return mk32(1);
      throw ForkRet{{done(s, 0), done(s, 1)}};
    }
    if (kb >= 0) { // less(node, key): true <=> zone L
      auto z = zoneOf(s, Item{IN, a.id}, kb);
      if (z.second == 0) return mk32(1);
      if (z.first >= 1) return mk32(0);
      ForkRet f;
      { State t = s; try { refineZone(t, a.id, kb, 0, 0); f.alts.push_back(done(t, 1)); } catch (Infeasible &) {} }
      { State t = s; try { refineZone(t, a.id, kb, 1, 2); f.alts.push_back(done(t, 0)); } catch (Infeasible &) {} }
      throw f;
    }
    if (ka >= 0) { // less(key, node): true <=> zone G
      auto z = zoneOf(s, Item{IN, b.id}, ka);
      if (z.first == 2) return mk32(1);
      if (z.second <= 1) return mk32(0);
      ForkRet f;
      { State t = s; try { refineZone(t, b.id, ka, 2, 2); f.alts.push_back(done(t, 1)); } catch (Infeasible &) {} }
      { State t = s; try { refineZone(t, b.id, ka, 0, 1); f.alts.push_back(done(t, 0)); } catch (Infeasible &) {} }
      throw f;
    }
    if (a == b) return mk32(0);
    for (auto &w : s.words) {
      if (!w.sorted) continue;
      int pa = -1, pb = -1;
      for (size_t i = 0; i < w.items.size(); ++i) { if (w.items[i].ik == IN && w.items[i].id == a.id) pa = i; if (w.items[i].ik == IN && w.items[i].id == b.id) pb = i; }
      if (pa >= 0 && pb >= 0 && pa > pb) return mk32(0);
    }
    throw ForkRet{{done(s, 0), done(s, 1)}};
  }
  // ---- hash classes: key dimension 0 is the class of the hash value, dimension 1 tells equality with the key
  // (E equal, G not equal); the key's class is flags[8] - 1, equal elements have equal hashes
  void hashSync(State &s, int n) {
    if (s.nkeys < 2 || !s.flags[8]) return;
    auto &z = s.objs.at(n).zone; int kc = s.flags[8] - 1;
    if (z[1].second == 1) { if (!narrow(s, z, 0, kc, kc)) throw Infeasible(); }
    if (z[0].first > kc || z[0].second < kc) { if (!narrow(s, z, 1, 2, 2)) throw Infeasible(); }
  }
  Val classHash(State &s, int n) {
    const auto z = s.objs.at(n).zone.at(0);
    const Kind &K = s.kinds[s.objs.at(n).kind];
    if (z.first == z.second) return mk64(K.hv[z.first]);
    std::vector<State> alts;
    for (int c = z.first; c <= z.second; ++c) { State t = s; try { refineZone(t, n, 0, c, c); hashSync(t, n); alts.push_back(t); } catch (Infeasible &) {} }
    if (alts.empty()) throw Infeasible();
    throw Fork{alts};
  }
  Val equalCall(State &s, const Val &a0, const Val &b0) {
    Val a = derefPtr(s, a0, "comparison"), b = derefPtr(s, b0, "comparison");
    if (a == b) return mk32(1);
    bool ka = a.id == s.keyObj[1], kb = b.id == s.keyObj[1];
    ForkRet f;
    if (ka || kb) {
      int n = ka ? b.id : a.id;
      auto z = s.objs.at(n).zone.at(1);
      if (z.first == 2) return mk32(0);
      if (z.second == 1) return mk32(1);
      for (int r = 0; r < 2; ++r) { State t = s; try { refineZone(t, n, 1, r ? 0 : 2, r ? 1 : 2); hashSync(t, n); f.alts.push_back({t, mk32(r)}); } catch (Infeasible &) {} }
      throw f;
    }
    auto za = s.objs.at(a.id).zone, zb = s.objs.at(b.id).zone;
    if (za[1].second == 1 && zb[1].second == 1) return mk32(1);
    if ((za[1].second == 1 && zb[1].first == 2) || (zb[1].second == 1 && za[1].first == 2)) return mk32(0);
    if (za[0].first > zb[0].second || zb[0].first > za[0].second) return mk32(0);
    for (auto &p : s.geq) if ((p.first == FRef{'n', a.id} && p.second == FRef{'n', b.id}) || (p.first == FRef{'n', b.id} && p.second == FRef{'n', a.id})) return mk32(1); // declared equal
    f.alts = {{s, mk32(0)}, {s, mk32(1)}};
    throw f;
  }
  static Val mk32(i64 v) { Val x = vInt(Lin(v)); x.off = 32; return x; }
  static Val mk64(const Lin &v) { Val x = vInt(v); x.off = 64; return x; }
  void resolveMod(State &s, int n, IMod m, bool keep) {
    for (auto &w : s.words) {
      if (!w.live) continue;
      Items r;
      for (auto &x : w.items) {
        if (x.ik == IN && x.id == n && x.mod == m) { if (!keep) continue; Item y = x; y.mod = M0; r.push_back(y); }
        else r.push_back(x);
      }
      w.items.swap(r);
    }
  }
  int wordIdx(State &s, i64 i) { if (i < 0 || i >= (i64)s.words.size() || !s.words[i].live) throw Undecided{"bad word"}; return (int)i; }
  size_t findNode(const Items &w, int n) { for (size_t i = 0; i < w.size(); ++i) if (w[i].ik == IN && w[i].id == n) return i; return w.size(); }
  Lin lenOf(State &s, const Items &w) {
    Lin l;
    for (auto &x : w) {
      if (x.mod && x.mod != MClone) throw Undecided{"length of an unresolved word"};
      if (x.ik == IN) l.c += 1;
      else if (x.ik == IA) l = l + s.atom(x.id).len;
      else l = l + (x.ik == IL ? s.atom(x.id).len : s.atom(x.id).lenR);
    }
    return l;
  }
  Items parseWord(State &s, const std::string &txt, bool create, int kind) {
    Items w;
    for (auto t : split(txt)) {
      Item it;
      size_t c = t.find(':');
      if (c != std::string::npos) {
        std::string m = t.substr(0, c);
        it.mod = m == "keep" ? MKeep : m == "drop" ? MDrop : MClone;
        t = t.substr(c + 1);
      }
      if (t.size() > 1 && t.back() == '~') { it.rev = true; t.pop_back(); }
      bool atom = isupper((unsigned char)t[0]);
      it.ik = atom ? IA : IN;
      auto f = s.names.find(t);
      if (f == s.names.end()) {
        if (!create || !atom) throw Undecided{"unknown name in word: " + t};
        int id = s.newId();
        Atom a; a.ak = ASeg; a.kind = kind; a.len = s.newSym(0); a.zone.assign(s.nkeys, {0, 2});
        s.atoms[id] = a; s.names[t] = id;
        it.id = id;
      } else if (f->second == 0) continue;
      else if (f->second < 0) throw Undecided{"name " + t + " no longer denotes one summary"};
      else it.id = f->second;
      w.push_back(it);
    }
    return w;
  }
  void linkRing(State &s, const Val &h, int kind, const Items &w, bool linear) {
    const Kind K = s.kinds[kind];
    // sequence h, items..., end
    auto fwd = [&](size_t i) -> Val { if (i == w.size()) return linear ? vInt(0) : h; return w[i].ik == IN ? s.ptrToNode(w[i].id) : vK(VK::Front, w[i].id); };
    auto bwd = [&](size_t i) -> Val { if (i == (size_t)-1) return h; return w[i].ik == IN ? s.ptrToNode(w[i].id) : vK(VK::Back, w[i].id); };
    s.setField(h, K.next, fwd(0));
    if (K.hasPrev()) s.setField(h, K.prev, bwd(w.size() - 1));
    for (size_t i = 0; i < w.size(); ++i) {
      if (w[i].ik == IN) { Val p = s.ptrToNode(w[i].id); s.setField(p, K.next, fwd(i + 1)); if (K.hasPrev()) s.setField(p, K.prev, bwd(i - 1)); }
      else { s.atom(w[i].id).out = fwd(i + 1); s.atom(w[i].id).in = bwd(i - 1); }
    }
  }
  static bool isUserFunctor(const std::string &n) {
    return n == "vf_pred" || n == "vf_bpred" || n == "vf_less" || n == "vf_clone_of" || n == "vf_equal" || n == "vf_hash" || n == "vf_prio" || n == "vf_user";
  }
  bool builtin(State &s, const llvm::CallBase *C, const std::string &n, Val &ret) {
    auto A = [&](unsigned i) { return get(s, C->getArgOperand(i)); };
    curS = &s;
    if (n.compare(0, 3, "vf_") != 0) return false;
    for (unsigned i = 0; i < C->arg_size(); ++i) if (C->getArgOperand(i)->getType()->isPointerTy()) settle(s, A(i));
    if (n == "vf_obj") { // container storage
      int id = s.newId(); Obj o; o.ok = OAlloca; o.size = intArg(s, C, 0); o.name = strArg(C->getArgOperand(1));
      o.allocId = 1 + (int)s.names.size(); s.names["obj:" + o.name] = id; s.objs[id] = o; ret = vPtr(id, 0); return true;
    }
    if (n == "vf_kind_new") { Kind k; k.type = (int)intArg(s, C, 0); k.objSize = intArg(s, C, 1); k.nodeOff = intArg(s, C, 2); s.kinds.push_back(k); ret = mk32(s.kinds.size() - 1); return true; }
    if (n == "vf_kind_field") {
      Kind &k = s.kinds.at(intArg(s, C, 0)); i64 f = intArg(s, C, 1), v = intArg(s, C, 2);
      switch (f) { case 0: k.next = v; break; case 1: k.prev = v; break; case 2: k.left = v; break; case 3: k.right = v; break; case 4: k.parent = v; break;
        case 5: k.extra = v; break; case 6: k.extraSize = (int)v; break; case 7: k.mode = (int)v; break; case 8: k.v0 = v; break; case 9: k.v1 = v; break; case 10: k.v2 = v; break;
        case 11: k.hookLo = v; break; case 12: k.hookHi = v; break; case 13: k.hoff = v; break; case 14: k.hv[0] = v; break; case 15: k.hv[1] = v; break; case 16: k.hv[2] = v; break; }
      return true;
    }
    if (n == "vf_poison") { Val p = derefPtr(s, A(0), "poison"); Obj &o = s.objs.at(p.id); o.cells.clear(); o.dflt = vK(VK::Probe, p.id); return true; }
    if ((n == "vf_probe_off" || n == "vf_probe_off_i")) { Val v = A(0); if (v.k != VK::Probe) throw Undecided{"layout probe: the accessor does not return a plain field"}; ret = mk64(Lin(v.off)); return true; }
    if ((n == "vf_store_at" || n == "vf_store_ptr")) { // store integer/pointer v at byte offset off of object p
      Val p = derefPtr(s, A(0), "store"); p.off += intArg(s, C, 1); Val v = A(2); s.store(p.id, p.off, n == "vf_store_ptr" ? 8 : (int)intArg(s, C, 3), v); return true;
    }
    if (n == "vf_node") { // raw element
      int id = s.newNode((int)intArg(s, C, 0), strArg(C->getArgOperand(1)));
      s.objs[id].dflt = Val(); s.names[s.objs[id].name] = id; ret = vPtr(id, 0); return true;
    }
    if (n == "vf_header") { Val p = A(0); if (p.k != VK::Ptr) viol("struct", "end node is " + desc(s, p)); s.headers.push_back({p.id, p.off, (int)intArg(s, C, 1)}); return true; }
    if (n == "vf_ring") { // (hdr, kind, linear, text)
      int k = (int)intArg(s, C, 1);
      Items w = parseWord(s, strArg(C->getArgOperand(3)), true, k);
      linkRing(s, A(0), k, w, intArg(s, C, 2) != 0);
      Word wd; wd.items = w; s.words.push_back(wd); ret = vK(VK::Word, (int)s.words.size() - 1); return true;
    }
    if (n == "vf_word" || n == "vf_bag") { Word w; w.items = parseWord(s, strArg(C->getArgOperand(0)), false, 0); w.bag = n == "vf_bag"; s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wcopy") { Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wbag") { Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; w.bag = true; s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wcat") { Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; auto &o = s.words[wordIdx(s, intArg(s, C, 1))].items; w.items.insert(w.items.end(), o.begin(), o.end()); s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wmod") { // copy with modifier: (w, 1 keep / 2 drop / 3 clone, bag)
      Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; for (auto &x : w.items) x.mod = (IMod)intArg(s, C, 1); w.bag = intArg(s, C, 2) != 0; s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wrev") { Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; std::reverse(w.items.begin(), w.items.end()); for (auto &x : w.items) if (x.ik != IN) x.rev = !x.rev; s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_wdead") { s.words[wordIdx(s, intArg(s, C, 0))].live = false; return true; }
    if (n == "vf_wsorted") { s.words[wordIdx(s, intArg(s, C, 0))].sorted = true; return true; }
    if (n == "vf_werase") { auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items; size_t i = findNode(w, nodeArg(s, A(1))); if (i == w.size()) throw Undecided{"werase"}; w.erase(w.begin() + i); return true; }
    if (n == "vf_winsert") { // (w, v, before or null = end)
      auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items; int v = nodeArg(s, A(1)); size_t i = w.size(); Val b = A(2);
      if (!b.isNull()) { i = findNode(w, nodeArg(s, b)); if (i == w.size()) throw Undecided{"winsert"}; }
      w.insert(w.begin() + i, Item{IN, v}); return true;
    }
    if (n == "vf_wsub") { // (w, from or null, to or null) half-open sub word
      Word w = s.words[wordIdx(s, intArg(s, C, 0))]; w.sorted = false; size_t i = 0, j = w.items.size(); Val a = A(1), b = A(2);
      if (!a.isNull()) i = findNode(w.items, nodeArg(s, a));
      if (!b.isNull()) j = findNode(w.items, nodeArg(s, b));
      if (i > j) throw Undecided{"wsub"};
      Word r = w; r.items.assign(w.items.begin() + i, w.items.begin() + j); s.words.push_back(r); ret = vK(VK::Word, (int)s.words.size() - 1); return true;
    }
    if (n == "vf_last" || n == "vf_expect_last") { // last element of a word (as a possibly symbolic reference)
      const Items &w = s.words[wordIdx(s, intArg(s, C, 0))].items;
      Val l;
      if (w.empty()) l = A(n == "vf_last" ? 1 : 2);
      else if (!s.itemNE(w.back())) throw Fork{State::forkEmpty(s, w.back())};
      else if (w.back().ik == IN) l = s.ptrToNode(w.back().id);
      else { l.k = VK::Last; l.w = {w.back()}; }
      if (n == "vf_last") { ret = l; return true; }
      ++nChecks;
      Val p = A(1); s.normVal(p);
      if (!(p == l) && !(p.k == VK::Ptr && l.k == VK::Last && eqVals(s, p, l))) viol(strArg(C->getArgOperand(3)).c_str(), "the cached last element is " + desc(s, p) + ", contents are [" + dumpItems(s, w) + "]");
      return true;
    }
    if (n == "vf_len") { ret = mk64(lenOf(s, s.words[wordIdx(s, intArg(s, C, 0))].items)); return true; }
    if (n == "vf_expect_ring") { ++nChecks; // (hdr, kind, linear, word or -1, bagmode)
      Items w = readRing(s, A(0), (int)intArg(s, C, 1), intArg(s, C, 2) != 0);
      i64 e = intArg(s, C, 3);
      if (e >= 0) { if (intArg(s, C, 4)) compareBags(s, w, s.words[wordIdx(s, e)].items, "content"); else compareWords(s, w, s.words[wordIdx(s, e)].items, "content"); }
      return true;
    }
    if (n == "vf_ring_word") { Word w; w.items = readRing(s, A(0), (int)intArg(s, C, 1), intArg(s, C, 2) != 0); s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_tree_word") { Word w; w.items = readTree(s, A(0), (int)intArg(s, C, 1)); s.words.push_back(w); ret = vK(VK::Word, (int)s.words.size() - 1); return true; }
    if (n == "vf_tree") { // (hdr, kind, p or null, q or null) -> word; arbitrary tree containing p (before q) anywhere
      Val h = A(0); int k = (int)intArg(s, C, 1); int p = nodeArg(s, A(2)), q = nodeArg(s, A(3));
      std::vector<State> out;
      if (p < 0) { buildTree(s, h, k, dNull(), out); buildTree(s, h, k, dTree(), out); }
      else if (q < 0) buildTree(s, h, k, dPath(dNode(p, dTree(), dTree())), out);
      else {
        buildTree(s, h, k, dPath(dNode(p, dTree(), dPath(dNode(q, dTree(), dTree())))), out);
        buildTree(s, h, k, dPath(dNode(q, dPath(dNode(p, dTree(), dTree())), dTree())), out);
        buildTree(s, h, k, dPath(dNode(-1, dPath(dNode(p, dTree(), dTree())), dPath(dNode(q, dTree(), dTree())))), out);
      }
      ForkRet f;
      for (auto &x : out) { Val r = vK(VK::Word, (int)x.words.size() - 1); f.alts.push_back({x, r}); }
      throw f;
    }
    if (n == "vf_expect_tree") { ++nChecks; // (hdr, kind, word or -1, bag, cache)
      Items w = readTree(s, A(0), (int)intArg(s, C, 1), intArg(s, C, 4) != 0);
      i64 e = intArg(s, C, 2);
      if (e >= 0) { if (intArg(s, C, 3)) compareBags(s, w, s.words[wordIdx(s, e)].items, "content"); else compareWords(s, w, s.words[wordIdx(s, e)].items, "content"); }
      if (!balErr.empty()) viol("balance", balErr);
      return true;
    }
    if (n == "vf_expect") { ++nChecks; if (!asBool(s, A(0))) { std::string t = strArg(C->getArgOperand(1)); size_t c = t.find(':'); viol(c == std::string::npos ? "spec" : t.substr(0, c).c_str(), c == std::string::npos ? t : t.substr(c + 1)); } return true; }
    if ((n == "vf_expect_same" || n == "vf_expect_samep")) { ++nChecks; // (a, b, msg): identical values
      Val a = A(0), b = A(1); s.normVal(a); s.normVal(b);
      bool ok = (a.k == VK::Int && b.k == VK::Int) ? a.lin == b.lin : (a == b);
      if (!ok && !(a.k == VK::Int && b.k == VK::Int) && a.k != VK::Undef && b.k != VK::Undef) ok = eqVals(s, a, b);
      if (!ok) { std::string t = strArg(C->getArgOperand(2)); size_t c = t.find(':'); viol(c == std::string::npos ? "spec" : t.substr(0, c).c_str(), (c == std::string::npos ? t : t.substr(c + 1)) + ": got " + desc(s, a) + ", expected " + desc(s, b)); }
      return true;
    }
    if (n == "vf_expect_bag_empty") { ++nChecks; auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items; if (!w.empty()) viol(strArg(C->getArgOperand(1)).c_str(), "elements never handed to the disposer: " + dumpItems(s, w)); return true; }
    if (n == "vf_expect_bag_same") { ++nChecks; compareBags(s, s.words[wordIdx(s, intArg(s, C, 0))].items, s.words[wordIdx(s, intArg(s, C, 1))].items, strArg(C->getArgOperand(2)).c_str()); return true; }
    if (n == "vf_wminus") { // (bag, bag): multiset difference, in place
      auto r = s.words[wordIdx(s, intArg(s, C, 1))].items; auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items;
      for (auto &x : r) { bool f = false; for (size_t i = 0; i < w.size(); ++i) if (w[i].same(x)) { w.erase(w.begin() + i); f = true; break; } if (!f) throw Undecided{"wminus"}; }
      return true;
    }
    if (n == "vf_bag_remove") { // (bag, node, cat, msg)
      auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items; int id = nodeArg(s, A(1)); size_t i = findNode(w, id);
      if (i == w.size() || w[i].mod) { std::string cat = strArg(C->getArgOperand(2)); viol(cat.c_str(), "the disposer was called for " + desc(s, A(1)) + ", which is not (or no longer) an element to dispose of"); }
      w.erase(w.begin() + i); return true;
    }
    if (n == "vf_kill") { int id = nodeArg(s, A(0)); if (id < 0) viol("mem", "disposer called with " + desc(s, A(0))); if (s.objs.at(id).dead) viol("dispose", "element disposed twice"); s.objs.at(id).dead = true; s.objs.at(id).cells.clear(); return true; }
    if (n == "vf_choice") { ForkRet f; i64 k = intArg(s, C, 0); for (i64 i = 0; i < k; ++i) f.alts.push_back({s, mk32(i)}); throw f; }
    if (n == "vf_assume") { if (!asBool(s, A(0))) throw PathEnd{}; return true; }
    if (n == "vf_nat") { ret = mk64(s.newSym(intArg(s, C, 0))); return true; }
    if (n == "vf_throws") { s.mayThrow = intArg(s, C, 0) != 0; return true; }
    if (n == "vf_allow_payload") { s.flags[15] = (int)intArg(s, C, 0); return true; }
    if (n == "vf_expect_assert") { s.flags[11] = (int)intArg(s, C, 0); return true; }
    if (n == "vf_unreachable") { viol(strArg(C->getArgOperand(0)).c_str(), strArg(C->getArgOperand(1))); }
    if (n == "vf_safe_assert") { if (s.flags[11]) { ++nExpectPaths; throw PathEnd{}; } viol("assert", "safe-link assertion fails: " + strArg(C->getArgOperand(0))); }
    if (n == "vf_assert") { viol("assert", "assertion fails: " + strArg(C->getArgOperand(0))); }
    if (n == "vf_end") throw PathEnd{};
    if (n == "vf_key") { Val p = A(0); if (p.k != VK::Ptr) throw Undecided{"vf_key"}; s.keyObj.push_back(p.id); s.nkeys++; 
      for (auto &o : s.objs) if (o.second.ok == ONode) o.second.zone.resize(s.nkeys, {0, 2});
      for (auto &a : s.atoms) { a.second.zone.resize(s.nkeys, {0, 2}); a.second.zoneL.resize(s.nkeys, {0, 2}); a.second.zoneR.resize(s.nkeys, {0, 2}); }
      ret = mk32(s.keyObj.size() - 1); return true; }
    if (n == "vf_less") { ret = lessCall(s, A(0), A(1)); return true; }
    if (n == "vf_zone") { // (node, key, lo, hi): assume
      int id = nodeArg(s, A(0)); try { refineZone(s, id, (int)intArg(s, C, 1), (int)intArg(s, C, 2), (int)intArg(s, C, 3)); } catch (Infeasible &) { throw PathEnd{}; } return true; }
    if (n == "vf_expect_bound") { ++nChecks; // (word, y (element/node pointer) or null for end, key, maxBefore, minAfter, cat)
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items; Val y = A(1); size_t at = w.size();
      std::string cat = strArg(C->getArgOperand(5));
      if (!y.isNull()) { int id = nodeArg(s, y); if (id < 0) viol(cat.c_str(), "result is " + desc(s, y)); at = findNode(w, id); if (at == w.size()) viol(cat.c_str(), "result is not an element of the container"); }
      int key = (int)intArg(s, C, 2), mb = (int)intArg(s, C, 3), ma = (int)intArg(s, C, 4);
      static const char *zn[3] = {"less than", "equivalent to", "greater than"};
      for (size_t i = 0; i < w.size(); ++i) {
        auto z = zoneOf(s, w[i], key);
        if (i < at && z.second > mb) viol(cat.c_str(), std::string("an element before the returned position may be ") + zn[z.second] + " the key");
        if (i >= at && z.first < ma) viol(cat.c_str(), std::string("an element at or after the returned position may be ") + zn[z.first] + " the key");
      }
      return true;
    }
    if (n == "vf_expect_all") { ++nChecks; // (word, key, lo, hi, msg "cat:text"): every element of the word lies in the zones
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items; int key = (int)intArg(s, C, 1); i64 lo = intArg(s, C, 2), hi = intArg(s, C, 3);
      std::string t = strArg(C->getArgOperand(4)); size_t c = t.find(':');
      for (auto &x : w) { auto z = zoneOf(s, x, key); if ((z.first < lo || z.second > hi) && !s.itemNE(x)) throw Fork{State::forkEmpty(s, x)}; }
      for (auto &x : w) { auto z = zoneOf(s, x, key); if (z.first < lo || z.second > hi) viol(t.substr(0, c).c_str(), t.substr(c + 1)); }
      return true;
    }
    if (n == "vf_expect_some") { ++nChecks; // (word, key, zone, msg): an element with that zone certainly exists
      auto &w = s.words[wordIdx(s, intArg(s, C, 0))].items; int key = (int)intArg(s, C, 1); i64 zz = intArg(s, C, 2); bool ok = false;
      for (auto &x : w) { auto z = zoneOf(s, x, key); if (z.first == zz && z.second == zz && s.itemNE(x)) ok = true; }
      std::string t = strArg(C->getArgOperand(3)); size_t c = t.find(':');
      if (!ok) viol(t.substr(0, c).c_str(), t.substr(c + 1));
      return true;
    }
    if (n == "vf_expect_words") { ++nChecks; // (expected, got, msg)
      std::string t = strArg(C->getArgOperand(2)); size_t c = t.find(':');
      compareWords(s, s.words[wordIdx(s, intArg(s, C, 1))].items, s.words[wordIdx(s, intArg(s, C, 0))].items, t.substr(0, c).c_str());
      return true;
    }
    if (n == "vf_expect_none") { ++nChecks; // (word, key, zone, cat): no element has that zone
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items; int key = (int)intArg(s, C, 1), zz = (int)intArg(s, C, 2);
      for (auto &x : w) { auto z = zoneOf(s, x, key); if (z.first <= zz && zz <= z.second) viol(strArg(C->getArgOperand(3)).c_str(), "an equivalent element may exist although none was reported"); }
      return true;
    }
    if (n == "vf_zone_is") { ++nChecks; int id = nodeArg(s, A(0)); int key = (int)intArg(s, C, 1); if (id < 0) viol(strArg(C->getArgOperand(4)).c_str(), "result is " + desc(s, A(0)));
      auto z = zoneOf(s, Item{IN, id}, key); if (z.first < intArg(s, C, 2) || z.second > intArg(s, C, 3)) viol(strArg(C->getArgOperand(4)).c_str(), "the returned element is not known to have the required order relative to the key"); return true; }
    if (n == "vf_expect_adjacent") { ++nChecks; // (word, a or null=begin, b or null=end, cat): b directly follows a
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items; Val a = A(1), b = A(2); std::string cat = strArg(C->getArgOperand(3));
      size_t i = a.isNull() ? (size_t)-1 : findNode(w, nodeArg(s, a)), j = b.isNull() ? w.size() : findNode(w, nodeArg(s, b));
      if (!b.isNull() && j == w.size()) viol(cat.c_str(), "the result is " + desc(s, b) + ", not an element of the container");
      for (size_t q = i + 1; q < j; ++q) if (!s.itemNE(w[q])) throw Fork{State::forkEmpty(s, w[q])};
      if (i + 1 != j) viol(cat.c_str(), "result is not the neighbour in order (contents " + dumpItems(s, w) + ")");
      return true; }
    if (n == "vf_pred") {
      int id = nodeArg(s, A(0)); if (id < 0) viol("mem", "predicate called with " + desc(s, A(0)));
      derefPtr(s, A(0), "predicate call");
      ForkRet f;
      for (int r = 0; r < 2; ++r) { State t = s; resolveMod(t, id, MKeep, r == 0); resolveMod(t, id, MDrop, r == 1); f.alts.push_back({t, mk32(r)}); }
      throw f;
    }
    if (n == "vf_bpred") { // (prev, cur): binary predicate of unique-like operations; decides cur
      int a = nodeArg(s, A(0)), b = nodeArg(s, A(1)); if (a < 0 || b < 0) viol("mem", "predicate called with a non-element");
      derefPtr(s, A(0), "predicate call"); derefPtr(s, A(1), "predicate call");
      for (auto &w : s.words) if (w.live && !w.bag) for (size_t i = 0; i < w.items.size(); ++i)
        if (w.items[i].ik == IN && w.items[i].id == b && w.items[i].mod == MKeep) {
          if (i == 0 || !(w.items[i - 1].ik == IN && w.items[i - 1].id == a)) viol("content", "the element is not compared with its last retained predecessor");
        }
      ForkRet f;
      for (int r = 0; r < 2; ++r) { State t = s; resolveMod(t, b, MKeep, r == 0); resolveMod(t, b, MDrop, r == 1); f.alts.push_back({t, mk32(r)}); }
      throw f;
    }
    if (n == "vf_equal" && s.flags[9]) { ret = equalCall(s, A(0), A(1)); return true; }
    if (n == "vf_equal") { derefPtr(s, A(0), "comparison"); derefPtr(s, A(1), "comparison"); throw ForkRet{{{s, mk32(0)}, {s, mk32(1)}}}; }
    if (n == "vf_hash") {
      Val a = derefPtr(s, A(0), "hash call"); ret = Val();
      if (s.keyObj.size() > 1 && a.id == s.keyObj[1] && s.flags[8]) { for (auto &k : s.kinds) if (k.hv[0] >= 0) { ret = mk64(k.hv[s.flags[8] - 1]); return true; } }
      auto &o = s.objs.at(a.id);
      if (o.ok != ONode || o.kind < 0 || s.kinds[o.kind].hv[0] < 0) viol("mem", "hash function called with " + desc(s, a));
      ret = classHash(s, a.id); return true;
    }
    if (n == "vf_zone_name") { // (name, key, lo, hi): assume for a summary or an element
      auto f = s.names.find(strArg(C->getArgOperand(0))); if (f == s.names.end() || f->second <= 0) throw Undecided{"vf_zone_name"};
      int key = (int)intArg(s, C, 1), lo = (int)intArg(s, C, 2), hi = (int)intArg(s, C, 3);
      auto &z = s.atoms.count(f->second) ? s.atom(f->second).zone : s.objs.at(f->second).zone;
      z.at(key) = {lo, hi}; return true;
    }
    if (n == "vf_equals") { s.geq.insert({{'n', nodeArg(s, A(0))}, {'n', nodeArg(s, A(1))}}); return true; } // hash mode: declare two elements equal
    if (n == "vf_expect_hash") { ++nChecks; // (word): stored hashes belong to the elements
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items;
      for (auto &x : w) if (x.ik == IN) {
        const Kind &K = s.kinds[s.objs.at(x.id).kind]; if (K.hoff < 0) continue;
        const Val *c = s.cell(x.id, K.nodeOff + K.hoff, 8);
        if (!c) { if (s.objs.at(x.id).dflt.k != VK::Opq) viol("content", "the stored hash of a linked element was never set"); continue; }
        Val h = classHash(s, x.id);
        if (!c->isConst() || c->lin.c != h.lin.c) viol("content", "the stored hash of a linked element is " + desc(s, *c) + ", its hash value is " + desc(s, h));
      }
      return true;
    }
    if (n == "vf_expect_contiguous") { ++nChecks; // (word, key, zone, msg): the elements with that zone are adjacent
      auto w = s.words[wordIdx(s, intArg(s, C, 0))].items; int key = (int)intArg(s, C, 1), zz = (int)intArg(s, C, 2);
      std::string t = strArg(C->getArgOperand(3)); size_t c = t.find(':');
      int first = -1, last = -1;
      for (size_t i = 0; i < w.size(); ++i) {
        auto z = zoneOf(s, w[i], key); bool may = z.first <= zz && zz <= z.second;
        if (may && !s.itemNE(w[i])) throw Fork{State::forkEmpty(s, w[i])};
        if (may) { if (first < 0) first = (int)i; last = (int)i; }
      }
      for (int i = first; i >= 0 && i <= last; ++i) { auto z = zoneOf(s, w[i], key); if (z.first != zz || z.second != zz) {
        if (!s.itemNE(w[i])) throw Fork{State::forkEmpty(s, w[i])};
        viol(t.substr(0, c).c_str(), t.substr(c + 1) + " (contents " + dumpItems(s, w) + ")"); } }
      return true;
    }
    if (n == "vf_find_ptr") { // (obj, size, p): offset of the field that holds p, or -1
      Val o = derefPtr(s, A(0), "layout probe"), p = A(2); i64 lo = o.off, hi = o.off + intArg(s, C, 1); ret = mk64(Lin(-1)); int cnt = 0;
      for (auto &c : s.objs.at(o.id).cells) if (c.first >= lo && c.first < hi && c.second.v == p) { ret = mk64(Lin(c.first - lo)); ++cnt; }
      if (cnt > 1) throw Undecided{"layout probe: ambiguous"};
      return true;
    }
    if (n == "vf_prio") { // priority comparison: a before (above) b?
      int a = nodeArg(s, A(0)), b = nodeArg(s, A(1)); if (a < 0 || b < 0) viol("mem", "priority comparison with a non-element");
      derefPtr(s, A(0), "comparison"); derefPtr(s, A(1), "comparison");
      if (a == b) { ret = mk32(0); return true; }
      if (hasGeq(s, {'n', b}, {'n', a})) { ret = mk32(0); return true; }
      ForkRet f;
      { State t = s; t.geq.insert({{'n', a}, {'n', b}}); f.alts.push_back({t, mk32(1)}); }
      { State t = s; t.geq.insert({{'n', b}, {'n', a}}); f.alts.push_back({t, mk32(0)}); }
      throw f;
    }
    if (n == "vf_clone_of") {
      int id = nodeArg(s, A(0)); if (id < 0) viol("mem", "cloner called with " + desc(s, A(0)));
      derefPtr(s, A(0), "clone call");
      int c = s.newNode(s.objs.at(id).kind, "");
      s.objs.at(c).dflt = Val(); s.objs.at(c).zone = s.objs.at(id).zone;
      bool any = false;
      for (auto &w : s.words) for (auto &x : w.items) if (x.ik == IN && x.id == id && x.mod == MClone) { x.id = c; x.mod = M0; any = true; }
      if (!any && s.flags[10]) viol("content", "the cloner was called more than once for an element");
      ret = vPtr(c, 0); return true;
    }
    if (n == "vf_flag") { s.flags[intArg(s, C, 0)] = (int)intArg(s, C, 1); return true; }
    if (n == "vf_flag_get") { ret = mk32(s.flags[intArg(s, C, 0)]); return true; }
    if (n == "vf_user") { return true; }
    if (n == "vf_dump") { llvm::errs() << "dump: " << strArg(C->getArgOperand(0)) << "\n"; dumpState(s); return true; }
    throw Undecided{"unknown builtin " + n};
  }
  void dumpState(State &s) {
    Canon c(s); c.build();
    llvm::errs() << c.key << "\n";
    for (auto *l : c.nums) llvm::errs() << l->str() << " ";
    llvm::errs() << "\n";
    for (size_t i = 0; i < s.words.size(); ++i) llvm::errs() << "  word" << i << ": " << dumpItems(s, s.words[i].items) << (s.words[i].live ? "" : " (dead)") << "\n";
  }
