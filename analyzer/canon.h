// Canonical form of a state (up to renaming of nodes, atoms and symbols), garbage collection, affine join.
#pragma once
#include "fold.h"
#include <deque>
#include <stdexcept>
#include <cstdint>

struct Canon {
  State &s;
  std::string key;
  std::vector<Lin *> nums;
  std::vector<char> atomic; // numeric attribute of an atom?
  std::map<int, int> num;   // object / atom -> canonical number
  std::deque<std::pair<char, int>> todo;
  Canon(State &st) : s(st) {}
  int number(char c, int id) {
    auto it = num.find(id);
    if (it != num.end()) return it->second;
    int n = (int)num.size();
    num[id] = n;
    todo.push_back({c, id});
    return n;
  }
  void add(const char *t, i64 a) { key += t; key += std::to_string(a); }
  void lin(Lin &l, char at) { nums.push_back(&l); atomic.push_back(at); }
  void item(const Item &i) {
    key += (i.ik == IN ? 'n' : i.ik == IA ? 'a' : i.ik == IL ? 'l' : 'r');
    if (i.rev) key += '~';
    if (i.mod) key += "!KDC"[i.mod];
    bool exists = i.ik == IN ? s.objs.count(i.id) : s.atoms.count(i.id);
    int n = number(i.ik == IN ? (exists ? 'o' : 'x') : (exists ? 'a' : 'x'), i.id);
    key += std::to_string(n);
  }
  void val(Val &v, bool forceKey = false) {
    switch (v.k) {
    case VK::Undef: key += 'U'; break;
    case VK::Int:
      if (v.lin.isConst() && (forceKey || v.lin.c == 0 || v.off != 64 || (s.flags[9] && ((v.lin.c >= -1 && v.lin.c <= s.flags[9]) || v.lin.c >= 1000)))) { add("i", v.lin.c); }
      else { key += 'I'; lin(v.lin, false); }
      break;
    case VK::Ptr: add("p", number(s.objs.count(v.id) ? 'o' : 'x', v.id)); add("+", v.off); break;
    case VK::Probe: add("P", v.id); add("+", v.off); break;
    case VK::Opq: add("O", v.id); break;
    case VK::Fn: add("f", v.id); break;
    case VK::Word: add("w", v.id); break;
    case VK::Front: add("F", number('a', v.id)); break;
    case VK::Back: add("B", number('a', v.id)); break;
    case VK::Root: add("R", number('a', v.id)); break;
    case VK::Top: add("T", number('a', v.id)); break;
    case VK::Bot: add("b", number('a', v.id)); break;
    case VK::First: case VK::Last:
      key += v.k == VK::First ? "<[" : ">[";
      for (auto &i : v.w) item(i);
      key += ']';
      break;
    case VK::Agg:
      key += '{';
      for (auto &x : *v.agg) { val(x, forceKey); key += ','; }
      key += '}';
      break;
    }
  }
  void zone(const std::vector<std::pair<int, int>> &z) { for (auto &p : z) { key += 'z'; key += char('0' + p.first); key += char('0' + p.second); } }
  void obj(int id) {
    Obj &o = s.objs.at(id);
    add(o.ok == ONode ? "\nN" : "\nA", o.ok == ONode ? o.kind : o.allocId);
    if (o.dead) key += 'D';
    if (o.dflt.k != VK::Undef) add("d", (int)o.dflt.k);
    zone(o.zone);
    for (auto &c : o.cells) {
      if (c.second.v.k == VK::Undef && o.dflt.k == VK::Undef) continue;
      add("@", c.first); add(":", c.second.size); key += '=';
      bool fk = false;
      if (o.ok == ONode && o.kind >= 0) { const Kind &K = s.kinds[o.kind]; fk = K.mode && c.first == K.nodeOff + K.extra; }
      val(c.second.v, fk);
    }
  }
  void atomOut(int id) {
    Atom &a = s.atom(id);
    add("\nT", a.ak); add("k", a.kind);
    if (a.ak == ASeg) { val(a.in); val(a.out); }
    else { val(a.up); if (a.ak == APath) val(a.hole); }
    add("c", a.color); add("b", a.bot); add("L", a.Lst); add("R", a.Rst); if (a.loose) key += '~'; if (a.ne) key += '+'; if (a.one) key += '1';
    if (a.ak == ASeg && s.nkeys) { key += 'S'; } zone(a.zone); zone(a.zoneL); zone(a.zoneR);
    lin(a.len, 1); if (a.ak == APath) lin(a.lenR, 1); lin(a.h, 2); lin(a.hTop, 2); lin(a.hHole, 2);
  }
  void drain() {
    while (!todo.empty()) {
      auto p = todo.front(); todo.pop_front();
      add("#", num[p.second]);
      if (p.first == 'o') obj(p.second);
      else if (p.first == 'a') { if (s.atoms.count(p.second)) atomOut(p.second); else key += "?"; }
    }
  }
  void build() {
    for (auto &e : s.env) { add("$", e.first); key += '='; val(e.second); }
    std::vector<std::pair<int, int>> al;
    for (auto &o : s.objs) if (o.second.ok != ONode) al.push_back({o.second.allocId, o.first});
    std::sort(al.begin(), al.end());
    for (auto &p : al) {
      if (s.objs.at(p.second).ok == OGlobal) { bool used = num.count(p.second); if (!used) continue; }
      add("%", p.first); key += '='; add("", number('o', p.second));
    }
    drain();
    for (auto &w : s.words) {
      if (!w.live) { key += "\nW-"; continue; }
      key += w.bag ? "\nG" : "\nW";
      if (w.bag) { // order-insensitive: sort by canonical number when known
        std::vector<std::pair<std::string, size_t>> v;
        for (size_t i = 0; i < w.items.size(); ++i) {
          auto &x = w.items[i];
          auto it = num.find(x.id);
          char b[64];
          snprintf(b, sizeof b, "%d.%d.%09d", x.ik, x.mod, it == num.end() ? 999999999 : it->second);
          v.push_back({b, i});
        }
        std::sort(v.begin(), v.end());
        for (auto &p : v) item(w.items[p.second]);
      } else
        for (auto &i : w.items) item(i);
    }
    drain();
    std::vector<std::string> fs;
    for (auto &p : s.geq) {
      auto f = [&](FRef r) { auto it = num.find(r.id); return std::string(1, r.k) + (it == num.end() ? "?" : std::to_string(it->second)); };
      fs.push_back(f(p.first) + ">" + f(p.second));
    }
    std::sort(fs.begin(), fs.end());
    for (auto &x : fs) key += "," + x;
    key += s.mayThrow ? "t" : "n"; key += s.inflight ? "x" : "-";
    for (int i = 0; i < 16; ++i) add(".", s.flags[i]);
  }
  // drop objects and atoms that were not reached
  void gc() {
    for (auto it = s.objs.begin(); it != s.objs.end();)
      if (it->second.ok == ONode && !num.count(it->first)) { s.composeRef({'n', it->first}); it = s.objs.erase(it); } else ++it;
    for (auto it = s.atoms.begin(); it != s.atoms.end();)
      if (!num.count(it->first)) { s.dropRef({'t', it->first}); s.dropRef({'p', it->first}); s.dropRef({'b', it->first}); it = s.atoms.erase(it); } else ++it;
    std::set<int> used;
    s.forEachLin([&](Lin &l) { for (auto &p : l.t) used.insert(p.first); });
    for (auto it = s.lb.begin(); it != s.lb.end();) if (!used.count(it->first)) it = s.lb.erase(it); else ++it;
  }
};

struct Entry { std::vector<Lin> v; std::map<int, i64> lb; };
// an entry as it is kept in the tables
struct Packed {
  std::vector<int32_t> d;
  Packed() {}
  Packed(const Entry &e) {
    d.reserve(e.v.size() * 2 + 4 + e.lb.size() * 2);
    put(e.v.size());
    for (auto &l : e.v) { put(l.c); put(l.t.size()); for (auto &p : l.t) { put(p.first); put(p.second); } }
    put(e.lb.size());
    for (auto &p : e.lb) { put(p.first); put(p.second <= NEGINF ? INT32_MIN : p.second); }
    d.shrink_to_fit();
  }
  void put(i64 x) { if (x != (int32_t)x) throw std::runtime_error("number out of range"); d.push_back((int32_t)x); }
  Entry get() const {
    Entry e; size_t i = 0;
    e.v.resize(d[i++]);
    for (auto &l : e.v) { l.c = d[i++]; size_t n = d[i++]; for (size_t k = 0; k < n; ++k) { l.t.push_back({d[i], d[i + 1]}); i += 2; } }
    size_t n = d[i++];
    for (size_t k = 0; k < n; ++k) { e.lb[d[i]] = d[i + 1] == INT32_MIN ? NEGINF : d[i + 1]; i += 2; }
    return e;
  }
};
struct Key128 { uint64_t a, b; bool operator<(const Key128 &o) const { return a != o.a ? a < o.a : b < o.b; } };
inline Key128 hashKey(const std::string &s) {
  uint64_t a = 1469598103934665603ull, b = 0x9E3779B97F4A7C15ull;
  auto mix = [](uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; };
  for (size_t i = 0; i < s.size(); i += 8) {
    uint64_t w = 0; for (size_t k = 0; k < 8 && i + k < s.size(); ++k) w |= (uint64_t)(unsigned char)s[i + k] << (8 * k);
    a = mix(a ^ w) + 0x1234567; b = mix(b + w * 0x9E3779B97F4A7C15ull) ^ (b >> 7);
  }
  return {mix(a ^ s.size()), mix(b + s.size())};
}

inline i64 lbIn(const std::map<int, i64> &lb, const Lin &l) {
  i64 r = l.c;
  for (auto &p : l.t) {
    if (p.second < 0) return NEGINF;
    auto it = lb.find(p.first);
    if (it == lb.end() || it->second <= NEGINF) return NEGINF;
    r += p.second * it->second;
  }
  return r;
}
// is `n` an instance of `o`?
inline bool instanceOf(const Entry &o, const std::vector<Lin> &n, const std::map<int, i64> &nlb) {
  std::map<int, Lin> th;
  if (o.v.size() != n.size()) return false;
  // repeat until all symbols are solved
  std::vector<char> done(n.size(), 0);
  bool prog = true;
  size_t left = n.size();
  while (left && prog) {
    prog = false;
    for (size_t i = 0; i < n.size(); ++i) {
      if (done[i]) continue;
      Lin rest; rest.c = o.v[i].c;
      int un = -1, cnt = 0; i64 k = 0;
      for (auto &p : o.v[i].t) {
        auto it = th.find(p.first);
        if (it == th.end()) { ++cnt; un = p.first; k = p.second; }
        else rest.addScaled(it->second, p.second);
      }
      if (cnt == 0) { if (rest != n[i]) return false; done[i] = 1; --left; prog = true; }
      else if (cnt == 1) {
        Lin e; e.addScaled(n[i], k < 0 ? -1 : 1); e.addScaled(rest, k < 0 ? 1 : -1);
        i64 m = k < 0 ? -k : k;
        if (m != 1) { if (e.c % m) return false; e.c /= m; for (auto &x : e.t) { if (x.second % m) return false; x.second /= m; } }
        th[un] = e; done[i] = 1; --left; prog = true;
      }
    }
  }
  if (left) return false;
  for (auto &p : th) {
    auto it = o.lb.find(p.first);
    if (it == o.lb.end() || it->second <= NEGINF) continue;
    if (lbIn(nlb, p.second) < it->second) return false;
  }
  return true;
}
// affine join; returns generalised vector and bounds (fresh symbols)
inline i64 gcdl(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
// The instances of both entries lie in a translated integer lattice; its basis is brought into a triangular form
// whose pivots are, wherever possible, single coordinates (heights first, then lengths, then plain integers).
inline bool affineJoin(const Entry &a, const std::vector<Lin> &b, const std::map<int, i64> &blb, Entry &out, const std::vector<char> &atomic, bool keepNonNeg = false) {
  std::vector<size_t> order; // attributes of summaries first: integers become sums of them
  // heights first, then lengths; simple differences first (integral dependencies)
  auto weight = [&](size_t i) { i64 r = std::abs(a.v[i].c - b[i].c); for (auto &p : a.v[i].t) r += std::abs(p.second); for (auto &p : b[i].t) r += std::abs(p.second); return r; };
  for (int cls : {2, 1, 0}) {
    size_t at = order.size();
    for (size_t i = 0; i < b.size(); ++i) if (atomic[i] == cls) order.push_back(i);
    if (cls) std::stable_sort(order.begin() + at, order.end(), [&](size_t x, size_t y) { return weight(x) < weight(y); });
  }
  std::map<std::pair<int, int>, int> col; // (side,sym) -> generator
  auto C = [&](int side, int s) { auto r = col.insert({{side, s}, (int)col.size() + 1}); return r.first->second; };
  for (auto &l : a.v) for (auto &p : l.t) C(0, p.first);
  for (auto &l : b) for (auto &p : l.t) C(1, p.first);
  size_t n = b.size();
  std::vector<std::vector<i64>> cols(col.size() + 1, std::vector<i64>(n, 0));
  for (size_t i = 0; i < n; ++i) {
    cols[0][i] = b[i].c - a.v[i].c;
    for (auto &p : a.v[i].t) cols[C(0, p.first)][i] = p.second;
    for (auto &p : b[i].t) cols[C(1, p.first)][i] = p.second;
  }
  std::vector<std::vector<i64>> done; std::vector<size_t> prow;
  std::vector<char> used;
  auto clean = [&]() { // drop zero generators, make the others primitive
    std::vector<std::vector<i64>> r;
    for (auto &c : cols) {
      i64 g = 0; for (i64 x : c) g = gcdl(g, x);
      if (!g) continue;
      if (g > 1) for (i64 &x : c) x /= g;
      r.push_back(c);
    }
    cols.swap(r);
  };
  for (int round = 0;; ++round) {
  clean();
  done.clear(); prow.clear(); used.assign(n, 0);
  while (!cols.empty()) {
    // next pivot: the first coordinate that becomes a parameter of its own, else the one with the smallest step
    size_t best = n; i64 bg = 0; int bcls = 9;
    for (size_t i : order) {
      if (used[i]) continue;
      i64 g = 0; for (auto &c : cols) g = gcdl(g, c[i]);
      if (!g) continue;
      int cls = 2 - atomic[i];
      if (best == n || (cls == bcls && g < bg)) { best = i; bg = g; bcls = cls; }
    }
    if (best == n) break;
    // euclid on the generators until one carries the pivot
    for (;;) {
      size_t m = cols.size();
      for (size_t k = 0; k < cols.size(); ++k) if (cols[k][best] && (m == cols.size() || std::abs(cols[k][best]) < std::abs(cols[m][best]))) m = k;
      bool more = false;
      for (size_t k = 0; k < cols.size(); ++k) if (k != m && cols[k][best]) {
        i64 f = cols[k][best] / cols[m][best];
        for (size_t r = 0; r < n; ++r) cols[k][r] -= f * cols[m][r];
        if (cols[k][best]) more = true;
      }
      if (!more) {
        std::vector<i64> pv = cols[m];
        if (pv[best] < 0) for (i64 &x : pv) x = -x;
        cols.erase(cols.begin() + m);
        for (auto &c : done) { // exact when the step is 1
          i64 q = c[best] / pv[best]; if (c[best] % pv[best] < 0) --q;
          if (q) for (size_t r = 0; r < n; ++r) c[r] -= q * pv[r];
        }
        done.push_back(pv); prow.push_back(best); used[best] = 1;
        break;
      }
    }
    clean();
  }
  // saturate: combinations divisible by a prime of a step are divided
  bool again = false;
  for (size_t j = 0; j < done.size() && !again && round < 20; ++j) {
    i64 g = done[j][prow[j]];
    for (i64 p = 2; g > 1 && p <= 13 && !again; ++p) {
      if (g % p) continue;
      while (g % p == 0) g /= p;
      // kernel of the columns modulo p
      std::vector<std::vector<i64>> w = done, cmb(done.size(), std::vector<i64>(done.size(), 0));
      for (size_t k = 0; k < done.size(); ++k) cmb[k][k] = 1;
      auto md = [&](i64 x) { x %= p; return x < 0 ? x + p : x; };
      for (size_t k = 0; k < w.size(); ++k) {
        size_t r = 0; while (r < n && md(w[k][r]) == 0) ++r;
        if (r == n) { // combination cmb[k] of the columns vanishes modulo p (coefficient of column k is 1)
          std::vector<i64> nc(n, 0);
          for (size_t c = 0; c < done.size(); ++c) for (size_t x = 0; x < n; ++x) nc[x] += md(cmb[k][c]) * done[c][x];
          for (i64 &x : nc) x /= p;
          done[k] = nc; again = true; break;
        }
        i64 inv = 1; while (md(inv * md(w[k][r])) != 1) ++inv;
        for (size_t m = k + 1; m < w.size(); ++m) {
          i64 f = md(md(w[m][r]) * inv);
          if (!f) continue;
          for (size_t x = 0; x < n; ++x) w[m][x] = md(w[m][x] - f * md(w[k][x]));
          for (size_t x = 0; x < done.size(); ++x) cmb[m][x] = md(cmb[m][x] - f * cmb[k][x]);
        }
      }
    }
  }
  if (!again) break;
  cols = done;
  }
  if (keepNonNeg) { // choose the parameters such that lengths are sums of them (their bounds are kept that way)
    auto negs = [&](const std::vector<std::vector<i64>> &d) { int c = 0; for (auto &x : d) for (size_t i = 0; i < n; ++i) if (atomic[i] == 1 && x[i] < 0) ++c; return c; };
    int cur = negs(done);
    for (bool prog = cur > 0; prog;) {
      prog = false;
      for (size_t i = 0; i < n && !prog; ++i) {
        if (atomic[i] != 1) continue;
        bool neg = false; for (auto &x : done) if (x[i] < 0) neg = true;
        if (!neg) continue;
        for (size_t k = 0; k < done.size() && !prog; ++k) {
          if (done[k][i] != 1 || done[k][prow[k]] != 1 || atomic[prow[k]] != 1) continue;
          auto d = done;
          for (size_t j = 0; j < d.size(); ++j) if (j != k) { i64 q = d[j][i]; if (q) for (size_t r = 0; r < n; ++r) d[j][r] -= q * d[k][r]; }
          int c = negs(d);
          if (c < cur) { done = d; prow[k] = i; cur = c; prog = true; }
        }
      }
    }
  }
  out.v.assign(n, Lin()); out.lb.clear();
  std::vector<int> sym(done.size());
  for (size_t j = 0; j < done.size(); ++j) {
    sym[j] = State::nextSym()++;
    i64 l = NEGINF;
    if (done[j][prow[j]] == 1) l = std::min(lbIn(a.lb, a.v[prow[j]]), lbIn(blb, b[prow[j]]));
    out.lb[sym[j]] = l > NEGINF ? l : NEGINF;
  }
  for (size_t i = 0; i < n; ++i) {
    Lin g; g.c = a.v[i].c;
    for (size_t j = 0; j < done.size(); ++j) if (done[j][i]) {
      g.addScaled(Lin::sym(sym[j]), done[j][i]);
      if (done[j][prow[j]] == 1) g.c -= done[j][i] * a.v[prow[j]].c;
    }
    out.v[i] = g;
  }
  return true;
}
