// Abstract domain: symbolic heaps with summary atoms (list segments, trees, tree paths),
// ghost words (in-order contents), affine numeric attributes.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
typedef int64_t i64;
static const i64 NEGINF = INT64_MIN / 4;

struct Lin {
  i64 c = 0;
  std::vector<std::pair<int, i64>> t; // sorted by symbol, non-zero coefficients
  Lin() {}
  Lin(i64 k) : c(k) {}
  static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
  bool isConst() const { return t.empty(); }
  bool isPure() const { return t.size() == 1 && t[0].second == 1; } // sym + c
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  Lin &addScaled(const Lin &o, i64 k) {
    c += o.c * k;
    for (auto &p : o.t) {
      auto it = std::lower_bound(t.begin(), t.end(), std::make_pair(p.first, NEGINF));
      if (it != t.end() && it->first == p.first) {
        it->second += p.second * k;
        if (!it->second) t.erase(it);
      } else
        t.insert(it, {p.first, p.second * k});
    }
    return *this;
  }
  Lin operator+(const Lin &o) const { Lin r = *this; return r.addScaled(o, 1); }
  Lin operator-(const Lin &o) const { Lin r = *this; return r.addScaled(o, -1); }
  i64 coef(int s) const { for (auto &p : t) if (p.first == s) return p.second; return 0; }
  void subst(int s, const Lin &e) {
    i64 k = coef(s);
    if (!k) return;
    Lin m = Lin::sym(s);
    addScaled(m, -k);
    addScaled(e, k);
  }
  std::string str() const {
    std::string r;
    for (auto &p : t) r += (p.second == 1 ? "+" : (p.second == -1 ? "-" : (p.second > 0 ? "+" + std::to_string(p.second) : std::to_string(p.second)))) + "s" + std::to_string(p.first);
    if (c || t.empty()) r += (c >= 0 ? "+" : "") + std::to_string(c);
    return r;
  }
};

enum IKind : uint8_t { IN, IA, IL, IR };             // node, seg/tree atom, path-left part, path-right part
enum IMod : uint8_t { M0, MKeep, MDrop, MClone };     // unresolved modifiers
struct Item {
  IKind ik = IN;
  int id = 0;
  bool rev = false;
  IMod mod = M0;
  bool operator==(const Item &o) const { return ik == o.ik && id == o.id && rev == o.rev && mod == o.mod; }
  bool same(const Item &o) const { return ik == o.ik && id == o.id; }
  bool operator<(const Item &o) const { return std::tie(ik, id, rev, mod) < std::tie(o.ik, o.id, o.rev, o.mod); }
};
typedef std::vector<Item> Items;

enum class VK : uint8_t { Undef, Int, Ptr, Opq, Probe, Front, Back, Root, Top, Bot, First, Last, Agg, Fn, Word };
struct Val {
  VK k = VK::Undef;
  int id = -1;
  i64 off = 0; // Ptr offset / Probe offset
  Lin lin;     // Int
  Items w;     // First / Last
  std::shared_ptr<std::vector<Val>> agg;
  bool operator==(const Val &o) const {
    if (k != o.k) return false;
    switch (k) {
    case VK::Undef: return true;
    case VK::Int: return lin == o.lin;
    case VK::Ptr: case VK::Probe: return id == o.id && off == o.off;
    case VK::First: case VK::Last: return w == o.w;
    case VK::Agg: return *agg == *o.agg;
    default: return id == o.id;
    }
  }
  bool operator!=(const Val &o) const { return !(*this == o); }
  bool isNull() const { return k == VK::Int && lin.isConst() && lin.c == 0; }
  bool isConst() const { return k == VK::Int && lin.isConst(); }
};
inline Val vInt(const Lin &l) { Val v; v.k = VK::Int; v.lin = l; return v; }
inline Val vPtr(int id, i64 off) { Val v; v.k = VK::Ptr; v.id = id; v.off = off; return v; }
inline Val vK(VK k, int id) { Val v; v.k = k; v.id = id; return v; }
inline Val vOpq(int id = 0) { return vK(VK::Opq, id); }

struct Cell { int size; Val v; };
enum OKind : uint8_t { OAlloca, ONode, OGlobal };
struct Obj {
  OKind ok = OAlloca;
  std::string name;
  i64 size = 0;
  std::map<i64, Cell> cells;
  bool dead = false;
  int allocId = -1;   // for canonical naming of allocas
  Val dflt;           // value of unset bytes
  int kind = -1;      // node kind
  std::vector<std::pair<int, int>> zone; // per key: [lo,hi] in {0=L,1=E,2=G}
};

enum AKind : uint8_t { ASeg, ATree, APath };
enum Color : uint8_t { CAny, CBlack, CRed };
struct Atom {
  AKind ak = ASeg;
  int kind = 0;
  Val in, out;   // Seg: in = value of prev-of-front, out = value of next-of-back
  Val up, hole;  // Tree: up. Path: up, hole
  Lin len, lenR; // path: elements in its left / right part
  Lin h;         // Tree: (black) height
  Lin hTop, hHole;
  Color color = CAny; // Tree root colour; Path: colour constraint of top node
  Color bot = CAny;   // Path: colour of the bottom node (CBlack or CAny)
  bool loose = false; // Tree whose internal parent pointers are not trusted
  bool ne = false;      // Path / Tree: known non-empty
  bool one = false;     // Path: exactly one node on the path itself
  int Lst = 0, Rst = 0; // Path: left/right part: 0 unknown, 1 non-empty, 2 empty
  std::vector<std::pair<int, int>> zone, zoneL, zoneR;
};

struct Kind {
  int type = 0; // 0 list, 1 tree
  i64 objSize = 0, nodeOff = 0;
  i64 next = 0, prev = -1;                 // list, relative to node pointer
  i64 left = 0, right = 0, parent = 0;     // tree, relative to node pointer
  int mode = 0;                            // tree: 0 none 1 rb 2 avl 3 treap
  i64 extra = 0; int extraSize = 0;        // colour / balance
  i64 hoff = -1, hv[3] = {-1, -1, -1};     // stored hash (relative to the node pointer, -1: none), hash value of each class
  i64 hookLo = 0, hookHi = 0;              // bytes of the hook, relative to the node pointer
  i64 v0 = 0, v1 = 0, v2 = 0;              // rb: v0=black v1=red; avl: v0=neg v1=zero v2=pos
  bool hasPrev() const { return prev != -1; }
};

struct Word { Items items; bool bag = false; bool live = true; bool sorted = false; };

struct Trace {
  std::shared_ptr<Trace> up;
  std::string s;
  int depth = 0;
  Trace(std::shared_ptr<Trace> u, std::string x) : up(std::move(u)), s(std::move(x)) { depth = up ? up->depth + 1 : 1; }
};

namespace llvm { class BasicBlock; class Instruction; class Value; }

struct Undecided { std::string why; };
struct Infeasible {};
