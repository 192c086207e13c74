// Summarisation (folding) of unpinned nodes into atoms, canonical keys, affine joins.
#pragma once
#include "heap.h"

struct Folder {
  State &s;
  Folder(State &st) : s(st) {}

  struct Ref { int obj; i64 off; int atom; char field; }; // obj cell, or atom field ('i','o','u','h')
  std::map<int, std::vector<Ref>> refs; // node -> references
  std::set<int> pinned, soft;      // soft: only referenced by bystander SSA values besides its links
  bool foldSoft = false;
  std::set<int> phis;
  int occurrences(const Val &x) { int n = 0; s.forEachVal([&](Val &v) { if (v == x) ++n; }); return n; }
  bool isHeaderCell(int obj, i64 off) {
    for (auto &h : s.headers) {
      if (h.obj != obj) continue;
      const Kind &K = s.kinds[h.kind];
      if (K.type == 0 && (off == h.off + K.next || (K.hasPrev() && off == h.off + K.prev))) return true;
      if (K.type == 1 && (off == h.off + K.left || off == h.off + K.right || off == h.off + K.parent)) return true;
    }
    return false;
  }
  bool isLinkCell(int node, i64 off) {
    const Obj &o = s.objs.at(node);
    if (o.kind < 0) return false;
    const Kind &K = s.kinds[o.kind];
    i64 r = off - K.nodeOff;
    if (K.type == 0) return r == K.next || (K.hasPrev() && r == K.prev);
    return r == K.left || r == K.right || r == K.parent;
  }
  void pinVal(const Val &v) {
    if (v.k == VK::Ptr) pinned.insert(v.id);
    if (v.k == VK::Agg) for (auto &x : *v.agg) pinVal(x);
  }
  void compute() {
    refs.clear(); pinned.clear(); soft.clear();
    std::set<int> maybe;
    for (auto &e : s.env) {
      if (foldSoft && !phis.count(e.first) && e.second.k == VK::Ptr) {
        auto it = s.objs.find(e.second.id);
        if (it != s.objs.end() && it->second.ok == ONode && it->second.kind >= 0 && s.kinds[it->second.kind].type == 1 && e.second.off == s.kinds[it->second.kind].nodeOff) { maybe.insert(e.second.id); continue; }
      }
      pinVal(e.second);
    }
    if (foldSoft) for (int x : maybe) soft.insert(x);
    for (auto &op : s.objs) {
      const Obj &o = op.second;
      for (auto &c : o.cells) {
        const Val &v = c.second.v;
        if (v.k == VK::Agg) { pinVal(v); continue; }
        if (v.k != VK::Ptr) continue;
        bool link = o.ok == ONode ? isLinkCell(op.first, c.first) : isHeaderCell(op.first, c.first);
        if (!link) pinned.insert(v.id);
        else refs[v.id].push_back({op.first, c.first, -1, 0});
        auto t = s.objs.find(v.id);
        if (t != s.objs.end() && t->second.ok == ONode && t->second.kind >= 0 && v.off != s.kinds[t->second.kind].nodeOff) pinned.insert(v.id);
      }
    }
    for (auto &a : s.atoms) {
      auto rf = [&](const Val &v, char f) { if (v.k == VK::Ptr) refs[v.id].push_back({-1, 0, a.first, f}); };
      if (a.second.ak == ASeg) { rf(a.second.in, 'i'); rf(a.second.out, 'o'); }
      else { rf(a.second.up, 'u'); if (a.second.ak == APath) rf(a.second.hole, 'h'); }
    }
  }
  void redirectEnv(int n, const Val &to) {
    Val pn = s.ptrToNode(n);
    for (auto &e : s.env) if (e.second == pn) { e.second = to; s.atom(to.id).ne = true; }
  }
  // ---- ghost rewriting: replace a contiguous sequence by one item in every word. Returns false if some word
  // contains only part of it or in a different arrangement.
  static bool sameSeq(const Items &w, size_t at, const Items &pat, bool rev, IMod &mod) {
    if (at + pat.size() > w.size()) return false;
    mod = w[at].mod;
    for (size_t i = 0; i < pat.size(); ++i) {
      const Item &p = pat[rev ? pat.size() - 1 - i : i];
      const Item &x = w[at + i];
      if (!x.same(p) || x.mod != mod) return false;
      if (p.ik != IN && x.rev != (p.rev != rev)) return false;
    }
    return true;
  }
  static bool contains(const Items &pat, const Item &x) {
    for (auto &p : pat) if (p.same(x)) return true;
    return false;
  }
  bool rewriteItems(Items &w, const Items &pat, const Item &to) {
    Items r;
    for (size_t i = 0; i < w.size();) {
      if (!contains(pat, w[i])) { r.push_back(w[i++]); continue; }
      IMod m;
      if (sameSeq(w, i, pat, false, m)) { Item t = to; t.mod = m; r.push_back(t); i += pat.size(); }
      else if (sameSeq(w, i, pat, true, m)) { Item t = to; t.mod = m; t.rev = !t.rev; r.push_back(t); i += pat.size(); }
      else return false;
    }
    w.swap(r);
    return true;
  }
  bool rewriteBag(Items &w, const Items &pat, const Item &to) {
    Items r;
    std::vector<std::pair<size_t, IMod>> found;
    for (auto &x : w) if (contains(pat, x)) found.push_back({0, x.mod}); else r.push_back(x);
    if (found.empty()) return true;
    if (found.size() != pat.size()) return false;
    for (auto &f : found) if (f.second != found[0].second) return false;
    Item t = to; t.mod = found[0].second;
    r.push_back(t);
    w.swap(r);
    return true;
  }
  bool rewriteFL(Val &v, const Items &pat, const Item &to) {
    bool first = v.k == VK::First;
    Items w = v.w;
    Items p = pat;
    if (!first) { std::reverse(w.begin(), w.end()); std::reverse(p.begin(), p.end()); }
    bool any = false;
    for (auto &x : w) if (contains(p, x)) any = true;
    if (!any) return true;
    Items r;
    size_t i = 0;
    for (; i < w.size(); ++i) if (contains(p, w[i])) break; else r.push_back(w[i]);
    size_t j = 0;
    for (; j < p.size() && i + j < w.size(); ++j) if (!w[i + j].same(p[j])) return false;
    if (j < p.size()) { // ran out of items: the last matched must be non-empty
      if (!s.itemNE(w[i + j - 1])) return false;
    }
    r.push_back(to);
    for (size_t k = i + j; k < w.size(); ++k) { if (contains(p, w[k])) return false; r.push_back(w[k]); }
    if (!first) std::reverse(r.begin(), r.end());
    v.w = r;
    return true;
  }
  // try rewriting everywhere; on failure nothing is changed
  bool rewriteAll(const Items &pat, const Item &to) {
    if (pat.empty()) return true;
    std::vector<Word> saved = s.words;
    bool ok = true;
    for (auto &w : s.words) {
      if (!w.live) continue;
      ok = w.bag ? rewriteBag(w.items, pat, to) : rewriteItems(w.items, pat, to);
      if (!ok) break;
    }
    if (!ok) { s.words = saved; return false; }
    std::vector<std::pair<Val *, Val>> und;
    s.forEachVal([&](Val &v) {
      if (!ok || (v.k != VK::First && v.k != VK::Last)) return;
      Val old = v;
      if (!rewriteFL(v, pat, to)) ok = false;
      else if (!(old == v)) und.push_back({&v, old});
    });
    if (!ok) { for (auto &u : und) *u.first = u.second; s.words = saved; return false; }
    for (auto &n : s.names) for (auto &x : pat) if (x.ik == IA && n.second == x.id) n.second = -1;
    return true;
  }
  static void hull(std::vector<std::pair<int, int>> &z, const std::vector<std::pair<int, int>> &o) {
    for (size_t i = 0; i < z.size() && i < o.size(); ++i) { z[i].first = std::min(z[i].first, o[i].first); z[i].second = std::max(z[i].second, o[i].second); }
  }
  // ---- list folding
  bool foldListNode(int n) {
    const Obj &o = s.objs.at(n);
    const Kind K = s.kinds[o.kind];
    if (o.dead) return false;
    Val pn = s.ptrToNode(n);
    Val nx = s.field(pn, K.next), pv = K.hasPrev() ? s.field(pn, K.prev) : Val();
    if (nx == pn) return false;
    if (K.hoff >= 0) { // a summary promises that the stored hash belongs to the element's hash class
      const Val *hc = s.cell(n, K.nodeOff + K.hoff, 8);
      if (!hc) { if (o.dflt.k != VK::Opq) return false; }
      else if (o.zone.empty() || o.zone[0].first != o.zone[0].second || !hc->isConst() || hc->lin.c != K.hv[o.zone[0].first]) return false;
    }
    auto &rf = refs[n];
    // predecessor's next link and successor's prev link must be the only references
    int predRef = -1, succRef = -1;
    for (size_t i = 0; i < rf.size(); ++i) {
      auto &r = rf[i];
      bool isNext, isPrev;
      if (r.atom >= 0) { isNext = r.field == 'o'; isPrev = r.field == 'i'; }
      else {
        i64 nodeOff; const Kind *k2 = &K;
        if (s.objs.at(r.obj).ok == ONode) nodeOff = s.kinds[s.objs.at(r.obj).kind].nodeOff;
        else { nodeOff = -1; for (auto &h : s.headers) if (h.obj == r.obj && (r.off == h.off + k2->next || r.off == h.off + k2->prev)) nodeOff = h.off; }
        isNext = r.off == nodeOff + K.next; isPrev = K.hasPrev() && r.off == nodeOff + K.prev;
      }
      if (isNext) { if (predRef >= 0) return false; predRef = i; }
      else if (isPrev) { if (succRef >= 0) return false; succRef = i; }
      else return false;
    }
    if (predRef < 0) return false;
    if (K.hasPrev() && succRef < 0) return false;
    // check consistency of pv with predRef and nx with succRef
    auto locVal = [&](const Ref &r, i64 rel) -> Val { // the value that denotes the location owner
      if (r.atom >= 0) return r.field == 'o' ? vK(VK::Back, r.atom) : vK(VK::Front, r.atom);
      return vPtr(r.obj, r.off - rel);
    };
    if (K.hasPrev()) {
      if (locVal(rf[predRef], K.next) != pv) return false;
      if (locVal(rf[succRef], K.prev) != nx) return false;
    } else {
      if (!(nx.k == VK::Ptr || nx.k == VK::Front || nx.isNull())) return false;
    }
    int id = s.newId();
    if (!rewriteAll({Item{IN, n}}, Item{IA, id})) return false;
    Atom a; a.ak = ASeg; a.kind = o.kind; a.in = pv; a.out = nx; a.len = Lin(1); a.zone = o.zone;
    s.atoms[id] = a;
    // redirect the two references
    auto put = [&](const Ref &r, const Val &v) {
      if (r.atom >= 0) { Atom &x = s.atom(r.atom); (r.field == 'o' ? x.out : x.in) = v; }
      else s.objs.at(r.obj).cells.at(r.off).v = v;
    };
    put(rf[predRef], vK(VK::Front, id));
    if (K.hasPrev()) put(rf[succRef], vK(VK::Back, id));
    s.objs.erase(n);
    return true;
  }
  bool mergeSegs() {
    for (auto &p : s.atoms) {
      if (p.second.ak != ASeg || p.second.out.k != VK::Front) continue;
      int a = p.first, b = p.second.out.id;
      if (a == b) continue;
      Atom &A = p.second, &B = s.atom(b);
      const Kind &K = s.kinds[A.kind];
      if (A.kind != B.kind) continue;
      { bool same = A.zone.size() == B.zone.size(); for (size_t i = 1; same && i < A.zone.size(); ++i) if (A.zone[i] != B.zone[i]) same = false; if (!same) continue; }
      if (K.hasPrev() && !(B.in.k == VK::Back && B.in.id == a)) continue;
      if (!rewriteAll({Item{IA, a}, Item{IA, b}}, Item{IA, a})) continue;
      Lin len = A.len + B.len;
      A.len = len; A.ne = A.ne || B.ne; A.out = B.out; hull(A.zone, B.zone);
      s.replaceVal(vK(VK::Back, b), vK(VK::Back, a));
      s.dropAtom(b);
      return true;
    }
    return false;
  }
  // ---- tree folding
  bool geqHas(FRef a, FRef b) { return s.geq.count({a, b}) > 0; }
  struct Side { bool ok = false, null = false; int t = -1; Lin h; Color c = CBlack; Lin len; };
  Side side(const Val &v, const Val &parent) {
    Side r;
    if (v.isNull()) { r.ok = r.null = true; return r; }
    if (v.k != VK::Root) return r;
    const Atom &a = s.atom(v.id);
    r.ok = true; r.t = v.id; r.h = a.h; r.c = a.color; r.len = a.len;
    (void)parent;
    return r;
  }
  // classify references to tree node n: exactly one child-link/header-root/path-hole/loose holder.
  std::vector<Ref> stale;
  bool treeRefs(int n, const Kind &K, Ref &holder, std::vector<Ref> &cache) {
    int cnt = 0;
    stale.clear();
    for (auto &r : refs[n]) {
      if (r.atom >= 0) {
        if (r.field == 'h') { holder = r; ++cnt; }
        else if (r.field == 'u') continue; // child atom's up
        else return false;
        continue;
      }
      const Obj &o = s.objs.at(r.obj);
      if (o.ok == ONode) {
        i64 rel = r.off - s.kinds[o.kind].nodeOff;
        if (rel == K.parent) continue; // child's parent pointer (must be a child; checked by caller)
        holder = r; ++cnt;
      } else {
        bool done = false;
        for (auto &h : s.headers) {
          if (h.obj != r.obj) continue;
          if (r.off == h.off + K.parent) { holder = r; ++cnt; done = true; }
          else if (r.off == h.off + K.left || r.off == h.off + K.right) { cache.push_back(r); done = true; }
        }
        if (!done) return false;
      }
    }
    return cnt == 1;
  }
  Val ownerOf(const Ref &r, const Kind &K) { // pointer value of the holder as seen by the child's parent link
    if (r.atom >= 0) return vK(VK::Bot, r.atom);
    const Obj &o = s.objs.at(r.obj);
    if (o.ok == ONode) return s.ptrToNode(r.obj);
    for (auto &h : s.headers) if (h.obj == r.obj && r.off == h.off + K.parent) return vPtr(h.obj, h.off);
    return Val();
  }
  void putRef(const Ref &r, const Val &v) {
    if (r.atom >= 0) { s.atom(r.atom).hole = v; return; }
    s.objs.at(r.obj).cells.at(r.off).v = v;
  }
  // children of n that point back to it through their parent cell must be real children only
  bool parentRefsOk(int n, const Kind &K, const Val &l, const Val &r, bool &looseNeeded) {
    for (auto &rf : refs[n]) {
      if (rf.atom >= 0) {
        if (rf.field != 'u') continue;
        bool child = (l.k == VK::Root && l.id == rf.atom) || (r.k == VK::Root && r.id == rf.atom) ||
                     (l.k == VK::Top && l.id == rf.atom) || (r.k == VK::Top && r.id == rf.atom);
        if (!child && !s.atom(rf.atom).loose) return false;
        continue;
      }
      const Obj &o = s.objs.at(rf.obj);
      if (o.ok != ONode) continue;
      if (rf.off - s.kinds[o.kind].nodeOff != K.parent) continue;
      bool child = (l.k == VK::Ptr && l.id == rf.obj) || (r.k == VK::Ptr && r.id == rf.obj);
      if (!child) { if (!looseNeeded) return false; }
    }
    return true;
  }
  bool allowLoose = false;
  // shared by the two kinds of tree folds: heap words of cached extreme pointers
  bool cacheOk(const std::vector<Ref> &cache) { (void)cache; return true; }

  // a structure that is being torn down: links kept by the header are no longer meaningful
  void dropStale(int n, const Kind &K) {
    for (auto &h : s.headers) {
      bool any = false;
      for (auto &r : stale) if (r.obj == h.obj) any = true;
      if (!any) continue;
      auto &cells = s.objs.at(h.obj).cells;
      for (i64 f : {K.left, K.right, K.parent}) {
        auto it = cells.find(h.off + f);
        if (it == cells.end()) continue;
        Val &v = it->second.v;
        if (v.k == VK::First || v.k == VK::Last || (v.k == VK::Ptr && v.id == n)) v = vOpq(77);
      }
    }
  }
  bool foldTreeNode(int n) {
    const Obj o = s.objs.at(n);
    const Kind K = s.kinds[o.kind];
    if (o.dead) return false;
    Val pn = s.ptrToNode(n);
    Val l = s.field(pn, K.left), r = s.field(pn, K.right), up = s.field(pn, K.parent);
    Side L = side(l, pn), R = side(r, pn);
    if (!L.ok || !R.ok) return false;
    if (soft.count(n) && (L.null || R.null)) return false; // that a child is missing may matter
    if (((L.t >= 0 && occurrences(vK(VK::Root, L.t)) > 1) || (R.t >= 0 && occurrences(vK(VK::Root, R.t)) > 1))) return false;
    Ref holder; std::vector<Ref> cache;
    if (!treeRefs(n, K, holder, cache)) return false;
    bool loose = false, looseOk = allowLoose;
    if (L.t >= 0 && (s.atom(L.t).loose || s.atom(L.t).up != pn)) loose = true;
    if (R.t >= 0 && (s.atom(R.t).loose || s.atom(R.t).up != pn)) loose = true;
    if (up != ownerOf(holder, K)) loose = true;
    if (stale.size()) loose = true;
    if (loose && !looseOk) return false;
    if (!parentRefsOk(n, K, l, r, looseOk)) return false;
    Lin h; Color col = CAny;
    if (K.mode == 1 && !loose) {
      const Val *ex = s.cell(n, K.nodeOff + K.extra, K.extraSize);
      if (!ex || !ex->isConst()) return false;
      bool red = ex->lin.c == K.v1;
      if (!red && ex->lin.c != K.v0) return false;
      if (L.h != R.h) return false;
      if (red && (L.c != CBlack || R.c != CBlack)) return false;
      h = L.h; if (!red) h.c += 1;
      col = red ? CRed : CBlack;
    } else if (K.mode == 2 && !loose) {
      const Val *ex = s.cell(n, K.nodeOff + K.extra, K.extraSize);
      if (!ex || !ex->isConst()) return false;
      i64 d;
      if (ex->lin.c == K.v0) d = 1; else if (ex->lin.c == K.v1) d = 0; else if (ex->lin.c == K.v2) d = -1; else return false;
      Lin df = L.h - R.h;
      if (!(df.isConst() && df.c == d)) return false;
      h = d >= 0 ? L.h : R.h; h.c += 1;
    } else if (K.mode == 3 && !loose) {
      if (L.t >= 0 && !geqHas({'n', n}, {'t', L.t})) return false;
      if (R.t >= 0 && !geqHas({'n', n}, {'t', R.t})) return false;
    }
    Items pat;
    if (!loose && stale.size()) return false;
    if (L.t >= 0) pat.push_back(Item{IA, L.t});
    pat.push_back(Item{IN, n});
    if (R.t >= 0) pat.push_back(Item{IA, R.t});
    // header cache cells holding n become First/Last of the new tree (only if n is extreme in it)
    for (auto &c : cache) {
      for (auto &hd : s.headers) if (hd.obj == c.obj) {
        if (c.off == hd.off + K.left && L.t >= 0) return false;
        if (c.off == hd.off + K.right && R.t >= 0) return false;
      }
    }
    if (soft.count(n) && ((L.t >= 0 && s.atom(L.t).zone != o.zone) || (R.t >= 0 && s.atom(R.t).zone != o.zone))) return false;
    int id = s.newId();
    Atom a; a.ak = ATree; a.kind = o.kind; a.up = up; a.len = L.len + R.len; a.len.c += 1; a.h = h; a.color = col; a.loose = loose;
    a.zone = o.zone;
    if (L.t >= 0) hull(a.zone, s.atom(L.t).zone);
    if (R.t >= 0) hull(a.zone, s.atom(R.t).zone);
    if (loose) { a.up = vOpq(77); a.h = Lin(0); a.color = CAny; }
    // zone order must be monotone for the hull to be meaningful; the sorted word guarantees it
    for (auto &c : cache) for (auto &hd : s.headers) if (hd.obj == c.obj) {
      Val v; v.k = c.off == hd.off + K.left ? VK::First : VK::Last; v.w = {Item{IN, n}};
      s.objs.at(c.obj).cells.at(c.off).v = v;
    }
    s.atoms[id] = a;
    if (!rewriteAll(pat, Item{IA, id})) {
      s.atoms.erase(id);
      s.normFL();
      return false;
    }
    putRef(holder, vK(VK::Root, id));
    if (K.mode == 3) {
      if (L.t >= 0) s.dropRef({'t', L.t});
      if (R.t >= 0) s.dropRef({'t', R.t});
      FRef me{'n', n}, nt{'t', id};
      std::set<std::pair<FRef, FRef>> g;
      for (auto p : s.geq) { if (p.first == me) continue; if (p.second == me) p.second = nt; g.insert(p); }
      s.geq.swap(g);
    }
    // stale parent references into n
    if (loose) dropStale(n, K);
    redirectEnv(n, vK(VK::Root, id));
    s.forEachVal([&](Val &v) { if (v == pn) v = vOpq(77); });
    if (!loose) s.atom(id).up = up;
    if (L.t >= 0) s.dropAtom(L.t);
    if (R.t >= 0) s.dropAtom(R.t);
    s.objs.erase(n);
    return true;
  }
  bool foldPathNode(int n) {
    const Obj o = s.objs.at(n);
    const Kind K = s.kinds[o.kind];
    if (o.dead) return false;
    Val pn = s.ptrToNode(n);
    Val ch[2] = {s.field(pn, K.left), s.field(pn, K.right)};
    Val up = s.field(pn, K.parent);
    Ref holder; std::vector<Ref> cache;
    if (!treeRefs(n, K, holder, cache)) return false;
    bool loose = stale.size() > 0;
    if (up != ownerOf(holder, K)) loose = true;
    if (holder.atom >= 0 && s.atom(holder.atom).loose) loose = true;
    if (loose && !allowLoose) return false;
    int d = -1;
    for (int i = 0; i < 2; ++i) {
      const Val &c = ch[i];
      bool inner = c.k == VK::Ptr || c.k == VK::Top;
      if (inner) { if (d >= 0) return false; d = i; }
    }
    if (d < 0) return false;
    const Val content = ch[d];
    Side S = side(ch[1 - d], pn);
    if (!S.ok) return false;
    if (soft.count(n) && S.null) return false;
    if (S.t >= 0 && occurrences(vK(VK::Root, S.t)) > 1) return false;
    if (S.t >= 0 && (s.atom(S.t).loose || s.atom(S.t).up != pn)) loose = true;
    if (content.k == VK::Top && s.atom(content.id).loose) loose = true;
    Val cup = content.k == VK::Ptr ? s.field(content, K.parent) : s.atom(content.id).up;
    if (content.k == VK::Ptr) {
      auto it = s.objs.find(content.id);
      if (it == s.objs.end() || it->second.ok != ONode || it->second.dead) return false;
    }
    if (cup != pn) loose = true;
    if (loose && !allowLoose) return false;
    bool lf = allowLoose;
    if (!parentRefsOk(n, K, ch[0], ch[1], lf)) return false;
    int id = s.newId();
    Atom a; a.ak = APath; a.kind = o.kind; a.up = up; a.hole = content; { Lin sl = S.len; sl.c += 1; (d == 0 ? a.lenR : a.len) = sl; }
    if (loose) { a.loose = true; a.up = vOpq(77); }
    else if (K.mode == 1) {
      const Val *ex = s.cell(n, K.nodeOff + K.extra, K.extraSize);
      if (!ex || !ex->isConst()) return false;
      bool red = ex->lin.c == K.v1;
      if (!red && ex->lin.c != K.v0) return false;
      if (red && S.c != CBlack) return false;
      a.hHole = S.h; a.hTop = S.h; if (!red) a.hTop.c += 1;
      a.color = a.bot = red ? CRed : CBlack;
      if (red) { // neighbours must be known black
        if (holder.atom >= 0) { if (s.atom(holder.atom).bot != CBlack) return false; }
        else {
          if (s.objs.at(holder.obj).ok != ONode) return false;
          const Val *pe = s.cell(holder.obj, K.nodeOff + K.extra, K.extraSize);
          if (!pe || !pe->isConst() || pe->lin.c != K.v0) return false;
        }
        if (content.k == VK::Ptr) {
          const Val *ce = s.cell(content.id, K.nodeOff + K.extra, K.extraSize);
          if (!ce || !ce->isConst() || ce->lin.c != K.v0) return false;
        } else if (s.atom(content.id).color != CBlack) return false;
      }
    } else if (K.mode == 2) {
      const Val *ex = s.cell(n, K.nodeOff + K.extra, K.extraSize);
      if (!ex || !ex->isConst()) return false;
      i64 dd; // left - right
      if (ex->lin.c == K.v0) dd = 1; else if (ex->lin.c == K.v1) dd = 0; else if (ex->lin.c == K.v2) dd = -1; else return false;
      i64 hm = d == 0 ? dd : -dd; // hole - side
      a.hHole = S.h; a.hHole.c += hm;
      a.hTop = hm >= 0 ? a.hHole : S.h; a.hTop.c += 1;
    } else if (K.mode == 3) {
      if (S.t >= 0 && !geqHas({'n', n}, {'t', S.t})) return false;
      if (!geqHas({'n', n}, s.refOf(content))) return false;
    }
    return finishPath(n, o, K, pn, d, S, a, id, holder, cache, content);
  }
  bool finishPath(int n, const Obj &o, const Kind &K, const Val &pn, int d, const Side &S, Atom a, int id, const Ref &holder, const std::vector<Ref> &cache, const Val &content) {
    bool left = d == 0; // hole is the left child
    if (soft.count(n) && S.t >= 0 && s.atom(S.t).zone != o.zone) return false;
    Items pat;
    if (left) { pat.push_back(Item{IN, n}); if (S.t >= 0) pat.push_back(Item{IA, S.t}); }
    else { if (S.t >= 0) pat.push_back(Item{IA, S.t}); pat.push_back(Item{IN, n}); }
    for (auto &c : cache) for (auto &hd : s.headers) if (hd.obj == c.obj) {
      if (c.off == hd.off + K.left && (left || S.t >= 0)) return false;
      if (c.off == hd.off + K.right && (!left || S.t >= 0)) return false;
    }
    for (auto &c : cache) for (auto &hd : s.headers) if (hd.obj == c.obj) {
      Val v; v.k = c.off == hd.off + K.left ? VK::First : VK::Last; v.w = {Item{IN, n}};
      s.objs.at(c.obj).cells.at(c.off).v = v;
    }
    a.zone.assign(s.nkeys, {0, 2}); a.zoneL = a.zoneR = a.zone;
    auto z = o.zone;
    if (S.t >= 0) hull(z, s.atom(S.t).zone);
    (left ? a.zoneR : a.zoneL) = z;
    if (left) { a.Lst = 2; a.Rst = 1; } else { a.Rst = 2; a.Lst = 1; }
    a.ne = true;
    a.one = soft.count(n);
    s.atoms[id] = a;
    if (!rewriteAll(pat, Item{left ? IR : IL, id})) { s.atoms.erase(id); s.normFL(); return false; }
    putRef(holder, vK(VK::Top, id));
    redirectEnv(n, vK(VK::Top, id));
    if (a.loose) { dropStale(n, K); s.forEachVal([&](Val &v) { if (v == pn) v = vOpq(77); }); }
    if (content.k == VK::Ptr) s.setField(content, K.parent, a.loose ? vOpq(77) : vK(VK::Bot, id));
    else s.atom(content.id).up = a.loose ? vOpq(77) : vK(VK::Bot, id);
    if (K.mode == 3) {
      if (S.t >= 0) s.dropRef({'t', S.t});
      FRef me{'n', n};
      std::set<std::pair<FRef, FRef>> g;
      for (auto p : s.geq) { if (p.first == me) p.first = {'b', id}; if (p.second == me) p.second = {'p', id}; g.insert(p); }
      s.geq.swap(g);
    }
    if (S.t >= 0) s.dropAtom(S.t);
    s.objs.erase(n);
    return true;
  }
  bool mergePaths() {
    std::vector<int> ids;
    for (auto &p : s.atoms) if (p.second.ak == APath) ids.push_back(p.first);
    for (int a : ids) {
      const Atom A = s.atom(a);
      if (A.hole.k != VK::Top) continue;
      int b = A.hole.id;
      Atom B = s.atom(b);
      if ((occurrences(vK(VK::Top, b)) > 1 || occurrences(vK(VK::Bot, a)) > 1)) continue;
      if (A.one || B.one) continue;
      bool loose = A.loose || B.loose;
      if (loose && !allowLoose) continue;
      if (A.kind != B.kind || (!loose && !(B.up.k == VK::Bot && B.up.id == a))) continue;
      Kind K = s.kinds[A.kind];
      if (loose) K.mode = 0;
      if ((K.mode == 1 || K.mode == 2) && A.hHole != B.hTop) continue;
      if (K.mode == 3 && !geqHas({'b', a}, {'p', b})) continue;
      if (!loose && K.mode == 1 && A.bot != CBlack && B.color != CBlack) continue;
      // words: left parts  L(a) L(b) -> L(a);  right parts  R(b) R(a) -> R(a)
      std::vector<Word> saved = s.words;
      State backup = s;
      Items pl, pr;
      if (A.Lst != 2) pl.push_back(Item{IL, a});
      if (B.Lst != 2) pl.push_back(Item{IL, b});
      if (B.Rst != 2) pr.push_back(Item{IR, b});
      if (A.Rst != 2) pr.push_back(Item{IR, a});
      int nid = s.newId();
      Atom N = A;
      if (loose) { N.loose = true; N.up = vOpq(77); N.hTop = Lin(0); N.color = CAny; B.bot = CAny; B.hHole = Lin(0); }
      N.hole = B.hole; N.len = A.len + B.len; N.lenR = A.lenR + B.lenR; N.hHole = B.hHole; N.bot = B.bot;
      auto comb = [](int x, int y) { return x == 1 || y == 1 ? 1 : (x == 2 && y == 2) ? 2 : 0; };
      N.ne = s.pathIsNE(a) || s.pathIsNE(b);
      if (!loose && K.mode == 1) {
        if (!s.pathIsNE(b) && A.bot != CBlack) N.bot = CAny; // an empty lower part: its guarantee is about the upper bottom
      }
      N.Lst = comb(A.Lst, B.Lst); N.Rst = comb(A.Rst, B.Rst);
      auto zc = [](std::vector<std::pair<int, int>> &z, const std::vector<std::pair<int, int>> &x, int sx, const std::vector<std::pair<int, int>> &y, int sy) {
        if (sx == 2) z = y; else { z = x; if (sy != 2) hull(z, y); } };
      zc(N.zoneL, A.zoneL, A.Lst, B.zoneL, B.Lst);
      zc(N.zoneR, A.zoneR, A.Rst, B.zoneR, B.Rst);
      s.atoms[nid] = N;
      if (!rewriteAll(pl, Item{IL, nid}) || !rewriteAll(pr, Item{IR, nid})) { s = backup; continue; }
      s.replaceVal(vK(VK::Top, a), vK(VK::Top, nid));
      s.replaceVal(vK(VK::Bot, b), vK(VK::Bot, nid));
      s.atom(nid).hole = B.hole;
      if (K.mode == 3) {
        s.geq.erase({{'b', a}, {'p', b}});
        s.replaceRef({'p', a}, {'p', nid});
        s.replaceRef({'b', b}, {'b', nid});
        s.dropRef({'b', a}); s.dropRef({'p', b});
      }
      s.dropAtom(a); s.dropAtom(b);
      return true;
    }
    return false;
  }
  // an element nothing hangs on any more and whose former children hang elsewhere; kids: it still names one
  bool isDetached(int n, bool &kids, bool cacheHolds = true) {
    const Obj &o = s.objs.at(n);
    const Kind &K = s.kinds[o.kind];
    for (auto &r : refs[n]) {
      if (r.atom >= 0) return false;
      const Obj &x = s.objs.at(r.obj);
      if (x.ok != ONode) { for (auto &h : s.headers) if (h.obj == r.obj && (cacheHolds || r.off == h.off + K.parent)) return false; }
      else if (x.kind >= 0 && r.obj != n) return false;
    }
    Val pn = s.ptrToNode(n);
    kids = false;
    for (i64 f : {K.left, K.right}) {
      Val v = s.field(pn, f);
      if (v.k == VK::Root || v.k == VK::Top) return false;
      if (v.k != VK::Ptr) continue;
      kids = true;
      auto it = s.objs.find(v.id);
      if (it == s.objs.end() || it->second.ok != ONode || it->second.dead) return false;
      Val u = s.field(v, K.parent);
      bool elsewhere = false;
      if (u.k == VK::Bot && s.atom(u.id).hole == v) elsewhere = true;
      if (u.k == VK::Ptr && u != pn && s.objs.count(u.id)) {
        const Obj &uo = s.objs.at(u.id);
        if (uo.ok == ONode && !uo.dead && uo.kind >= 0) elsewhere = s.field(u, K.left) == v || s.field(u, K.right) == v;
        for (auto &h : s.headers) if (h.obj == u.id && h.off == u.off) { const Val *r = s.cell(h.obj, h.off + K.parent, 8); if (r && *r == v) elsewhere = true; }
      }
      if (!elsewhere) return false;
    }
    return true;
  }
  // the links of a detached element are forgotten, they only keep its former neighbours visible
  void forgetDetached() {
    compute();
    for (auto &o : s.objs) {
      if (o.second.ok != ONode || o.second.dead || o.second.kind < 0) continue;
      const Kind &K = s.kinds[o.second.kind];
      if (K.type != 1) continue;
      int n = o.first;
      bool kids = false;
      if (!isDetached(n, kids) || torn(n)) continue;
      Val pn = s.ptrToNode(n);
      Val p = s.field(pn, K.parent);
      if (!kids && (p.k != VK::Ptr || p == pn)) continue;
      s.setField(pn, K.parent, vOpq(77));
      if (!kids) continue;
      for (i64 f : {K.left, K.right}) s.setField(pn, f, vOpq(77));
      if (K.mode == 1 || K.mode == 2) s.setField(pn, K.extra, vOpq(77), K.extraSize);
    }
  }
  // does some element hang below another one that is not its parent? (a structure being torn down)
  bool torn(int except = -1) {
    for (auto &o : s.objs) {
      if (o.second.ok != ONode || o.second.kind < 0 || o.first == except) continue;
      const Kind &K = s.kinds[o.second.kind];
      if (K.type != 1) continue;
      if (o.second.dead) { if (except >= 0) return true; continue; }
      Val pn = s.ptrToNode(o.first);
      bool kids;
      if (except < 0 && isDetached(o.first, kids, false) && kids) continue;
      for (i64 f : {K.left, K.right}) {
        Val v = s.field(pn, f), u = pn;
        if (v == pn) continue;
        if (v.k == VK::Root || v.k == VK::Top) u = s.atom(v.id).up;
        else if (v.k == VK::Ptr) { auto it = s.objs.find(v.id); if (it != s.objs.end() && it->second.ok == ONode) u = s.field(v, K.parent); }
        if (u != pn) return true;
      }
    }
    return false;
  }
  void staleHeaders() {
    for (auto &h : s.headers) {
      const Kind &K = s.kinds[h.kind];
      if (K.type != 1 || !s.objs.count(h.obj)) continue;
      Val hv = vPtr(h.obj, h.off);
      const Val *r = s.cell(h.obj, h.off + K.parent, 8);
      if (!r) continue;
      bool st = r->k == VK::Opq;
      if (r->k == VK::Ptr) {
        auto it = s.objs.find(r->id);
        if (it == s.objs.end() || it->second.dead) st = true;
        else if (it->second.ok == ONode && s.field(*r, K.parent) != hv) st = true;
        else { // the root also hangs below another element
          for (auto &o : s.objs) if (o.second.ok == ONode && !o.second.dead && o.second.kind == h.kind) {
            Val pn = s.ptrToNode(o.first);
            if (s.field(pn, K.left) == *r || s.field(pn, K.right) == *r) st = true;
          }
          for (auto &a : s.atoms) if (a.second.ak == APath && a.second.hole == *r) st = true;
        }
      }
      if (st) for (i64 f : {K.left, K.right, K.parent}) s.store(h.obj, h.off + f, 8, vOpq(77));
    }
  }
  // parts of a structure that is being torn down (their owner's parent link is already lost)
  void spreadLoose() {
    bool ch = true;
    while (ch) {
      ch = false;
      auto weak = [&](const Val &v) {
        if (v.k == VK::Opq) return true;
        if (v.k == VK::Bot) return s.atom(v.id).loose;
        if (v.k != VK::Ptr) return false;
        auto it = s.objs.find(v.id);
        if (it == s.objs.end()) return true;
        if (it->second.ok != ONode || it->second.kind < 0) return false;
        if (it->second.dead) return true;
        const Kind &K = s.kinds[it->second.kind];
        Val p = s.field(v, K.parent);
        if (p.k == VK::Opq && p.id == 77) return true;
        // not a child of the node it names as parent
        return false;
      };
      for (auto &a : s.atoms) {
        Atom &A = a.second;
        if (A.ak == ASeg) continue;
        if (!A.loose && weak(A.up)) { A.loose = true; ch = true; }
        if (A.loose) {
          A.up = vOpq(77); A.h = A.hTop = A.hHole = Lin(0); A.color = A.bot = CAny;
          if (A.Lst == 1) A.Lst = 0;
          if (A.Rst == 1) A.Rst = 0;
          A.ne = false;
          if (A.ak == APath && A.hole.k == VK::Ptr) s.setField(A.hole, s.kinds[A.kind].parent, vOpq(77));
          if (A.ak == APath && A.hole.k == VK::Root) s.atom(A.hole.id).up = vOpq(77);
        }
      }
      for (auto &o : s.objs) {
        if (o.second.ok != ONode || o.second.dead || o.second.kind < 0 || s.kinds[o.second.kind].type != 1) continue;
        const Kind &K = s.kinds[o.second.kind];
        Val pn = s.ptrToNode(o.first), p = s.field(pn, K.parent);
        if ((p.k == VK::Ptr || p.k == VK::Bot) && weak(p)) { s.setField(pn, K.parent, vOpq(77)); ch = true; }
      }
    }
  }
  void run() {
    if (allowLoose) spreadLoose();
    if (allowLoose) staleHeaders();
    s.normFL();
    bool progress = true;
    std::set<int> failed;
    while (progress) {
      progress = false;
      compute();
      std::vector<int> nodes;
      for (auto &o : s.objs) if (o.second.ok == ONode && !o.second.dead && o.second.kind >= 0 && !pinned.count(o.first)) nodes.push_back(o.first);
      for (int n : nodes) {
        if (s.kinds[s.objs.at(n).kind].type == 0) { if (foldListNode(n)) { progress = true; break; } }
        else if (foldTreeNode(n)) { progress = true; break; }
      }
      if (progress) continue;
      for (int n : nodes)
        if (s.kinds[s.objs.at(n).kind].type == 1 && foldPathNode(n)) { progress = true; break; }
      if (progress) continue;
      if (mergeSegs() || mergePaths()) progress = true;
    }
  }
};
