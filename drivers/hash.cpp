// Specifications of the unordered containers. A table has a small concrete number of buckets; every bucket holds a
// chain of symbolic segments of unknown length. Elements carry the class of their hash value (key dimension 0) and
// whether they equal the key under consideration (dimension 1: 1 equal, 2 not equal).
#include "vf.h"
#include <boost/intrusive/unordered_set.hpp>
#include <utility>
using namespace boost::intrusive;

template<class H> struct Elem : Pad, H { long value; };
struct Key { long k; };
// hash values of the three classes: 3000 3002 3001, or 3001 3003 3000 (the classes that share a bucket are adjacent)
template<bool H> constexpr long HV(int c) { return H ? (c == 0 ? 3001 : c == 1 ? 3003 : 3000) : c == 0 ? 3000 : c == 1 ? 3002 : 3001; }
// bucket of a hash class in a table of n buckets, incremental split at sp (sp == n: not splitting)
template<bool H> constexpr int BK(int c, int n, int sp) { int b = (int)(HV<H>(c) % n); return b >= sp ? b - n / 2 : b; }
template<bool H> constexpr int CLO(int b, int n, int sp) { return BK<H>(0, n, sp) == b ? 0 : BK<H>(1, n, sp) == b ? 1 : BK<H>(2, n, sp) == b ? 2 : 3; }
template<bool H> constexpr int CHI(int b, int n, int sp) { return BK<H>(2, n, sp) == b ? 2 : BK<H>(1, n, sp) == b ? 1 : BK<H>(0, n, sp) == b ? 0 : -1; }

template<class L_, bool LIN_, bool MULTI_, bool SH_, bool CB_, bool INC_, bool P2_ = INC_, bool H_ = false> struct Cfg {
  typedef L_ L;
  static const bool LIN = LIN_, MULTI = MULTI_, SH = SH_, CB = CB_, INC = INC_, P2 = P2_, H = H_;
};
struct Layout { int k; long sizeOff, cacheOff; };
template<class C, int N, int SP = N> struct Tab {
  typedef typename C::L L;
  typedef typename L::value_type T;
  typedef typename L::value_traits VT;
  typedef typename VT::node_traits NT;
  typedef typename NT::node node;
  typedef typename L::bucket_type B;
  typedef typename B::node_traits BNT;
  typedef typename BNT::node bnode;
  typedef typename L::bucket_traits BT;
  static const bool safe = is_safe_autounlink<VT::link_mode>::value, ct = L::constant_time_size;
  Layout y; L *c; B *b; T *x; int run, runbag;
  bnode *bn(int i) const { return (b + i)->get_node_ptr(); }
  template<class F, int... I> void eachI(F f, std::integer_sequence<int, I...>) const { (f(std::integral_constant<int, I>()), ...); }
  template<class F> void each(F f) const { eachI(f, std::make_integer_sequence<int, N>()); }
  B *buckets(const char *bname) {
    B *r = (B *)vf_obj(sizeof(B) * (N + C::LIN), bname);
    for (int i = 0; i < N + C::LIN; ++i) new (r + i) B();
    for (int i = 0; i < N + C::LIN; ++i) vf_header((r + i)->get_node_ptr(), y.k);
    return r;
  }
  void make(const Layout &l, const char *cname, const char *bname) {
    y = l; b = buckets(bname);
    c = new (vf_obj(sizeof(L), cname)) L(BT(b, N + C::LIN));
    if constexpr (C::INC) for (int i = N / 2; i < SP; ++i) c->incremental_rehash(true);
  }
  // mode 0: no equal element; 1: x (multi: a run around x); 2: a possibly empty run of equal elements. Returns the
  // contents in iteration order.
  int fill(int mode, int kc) {
    int bk = kc == 0 ? BK<C::H>(0, N, SP) : kc == 1 ? BK<C::H>(1, N, SP) : BK<C::H>(2, N, SP);
    int all = vf_word(""), other = 0;
    each([&](auto i) {
      constexpr int lo = CLO<C::H>(i, N, SP), hi = CHI<C::H>(i, N, SP);
      if constexpr (lo <= hi) {
        int w;
        if (i == bk) {
          if (mode == 1) x = (T *)vf_node(y.k, "x");
          if (mode == 0) { w = vf_ring(bn(i), y.k, C::LIN, "A"); }
          else if (mode == 1 && !C::MULTI) { w = vf_ring(bn(i), y.k, C::LIN, "A x B"); run = vf_word("x"); runbag = vf_bag("x"); }
          else if (mode == 1) { w = vf_ring(bn(i), y.k, C::LIN, "A E x F B"); vf_zone_name("E", 0, kc, kc); vf_zone_name("E", 1, 1, 1); vf_zone_name("F", 0, kc, kc); vf_zone_name("F", 1, 1, 1); run = vf_word("E x F"); runbag = vf_bag("E x F"); }
          else { w = vf_ring(bn(i), y.k, C::LIN, "A E B"); vf_zone_name("E", 0, kc, kc); vf_zone_name("E", 1, 1, 1); run = vf_word("E"); runbag = vf_bag("E"); }
          vf_zone_name("A", 0, lo, hi); vf_zone_name("A", 1, 2, 2);
          if (mode) { vf_zone_name("B", 0, lo, hi); vf_zone_name("B", 1, 2, 2); }
          if (mode == 1) { vf_zone_name("x", 0, kc, kc); vf_zone_name("x", 1, 1, 1); if constexpr (C::SH) NT::set_hash(VT::to_node_ptr(*x), UHash()(*x)); }
        } else {
          int j = ++other;
          if (j == 1) { w = vf_ring(bn(i), y.k, C::LIN, "P"); vf_zone_name("P", 0, lo, hi); vf_zone_name("P", 1, 2, 2); }
          else if (j == 2) { w = vf_ring(bn(i), y.k, C::LIN, "Q"); vf_zone_name("Q", 0, lo, hi); vf_zone_name("Q", 1, 2, 2); }
          else { w = vf_ring(bn(i), y.k, C::LIN, "R"); vf_zone_name("R", 0, lo, hi); vf_zone_name("R", 1, 2, 2); }
        }
        all = vf_wcat(all, w);
      }
    });
    finish(all);
    return all;
  }
  // another table: segments named by bucket, nothing equal to the key
  int fillOther() {
    int all = vf_word("");
    each([&](auto i) {
      constexpr int lo = CLO<C::H>(i, N, SP), hi = CHI<C::H>(i, N, SP);
      if constexpr (lo <= hi) {
        int w;
        if (i == 0) { w = vf_ring(bn(i), y.k, C::LIN, "U"); vf_zone_name("U", 0, lo, hi); vf_zone_name("U", 1, 2, 2); }
        else if (i == 1) { w = vf_ring(bn(i), y.k, C::LIN, "V"); vf_zone_name("V", 0, lo, hi); vf_zone_name("V", 1, 2, 2); }
        else { w = vf_ring(bn(i), y.k, C::LIN, "W"); vf_zone_name("W", 0, lo, hi); vf_zone_name("W", 1, 2, 2); }
        all = vf_wcat(all, w);
      }
    });
    finish(all);
    return all;
  }
  void finish(int all) {
    if (ct) vf_store_at(c, y.sizeOff, vf_len(all), 8);
    if (C::CB) {
      B *f = b + N;
      bool found = false;
      each([&](auto i) { if (!found && BNT::get_next(bn(i)) != (C::LIN ? (bnode *)0 : bn(i))) { found = true; f = b + i; } });
      vf_store_ptr(c, y.cacheOff, f);
    }
  }
  int check(int bag) const { // the table is well formed and holds exactly the bag (-1: anything); returns its contents in order
    int all = vf_word("");
    bool found = false;
    bnode *first = c->begin().slist_it().pointed_node();
    each([&](auto i) {
      if (!found) { bnode *n = BNT::get_next(bn(i)); if (n != (C::LIN ? (bnode *)0 : bn(i))) { found = true; vf_expect_samep(first, n, "cache:begin() is not the first element of the first non-empty bucket"); } }
    });
    each([&](auto i) {
      constexpr int lo = CLO<C::H>(i, N, SP), hi = CHI<C::H>(i, N, SP);
      int w = vf_ring_word(bn(i), y.k, C::LIN);
      vf_expect_all(w, 0, lo, hi, "content:an element sits in a bucket that its hash does not select");
      if (C::SH) vf_expect_hash(w);
      if (C::MULTI) vf_expect_contiguous(w, 1, 1, "content:equivalent elements are not adjacent");
      all = vf_wcat(all, w);
    });
    if (!found) vf_expect(c->begin() == c->end(), "cache:begin() of an empty container is not end()");
    if constexpr (C::INC) vf_expect(c->split_count() == SP, "content:split_count()");
    if (C::LIN) vf_expect_samep(BNT::get_next(bn(N)), bn(N), "struct:the end bucket is not marked");
    if (bag >= 0) vf_expect_bag_same(vf_wbag(all), bag, "content");
    if (ct) vf_expect_same((long)c->size(), vf_len(all), "size:size() differs from the number of linked elements");
    return all;
  }
  void checkEmpty(B *ob, int n) const { for (int i = 0; i < n; ++i) vf_expect_bag_empty(vf_ring_word((ob + i)->get_node_ptr(), y.k, C::LIN), "content"); }
};
template<class C> struct Env {
  typedef typename C::L L;
  typedef Tab<C, 2> T2;
  typedef typename T2::T T; typedef typename T2::NT NT; typedef typename T2::VT VT; typedef typename T2::node node; typedef typename T2::B B;
  Layout y; int kc; Key *key;
  static node *np(T *x) { return VT::to_node_ptr(*x); }
  T *raw(const char *n) { return (T *)vf_node(y.k, n); }
  void init(T *x) { if (T2::safe) unordered_algo::init(np(x)); }
  struct unordered_algo { static void init(node *n) { circular_slist_algorithms<NT>::init(n); } static bool inited(node *n) { return circular_slist_algorithms<NT>::unique(n) || NT::get_next(n) == 0; } };
  T *elem(const char *n) { T *x = raw(n); init(x); return x; }
  void linkable(T *x) { if (T2::safe) init(x); }
  void detached(T *x) { if constexpr (T2::safe) vf_expect(!x->is_linked(), "detach:an element that was removed still looks linked"); }
  Env() {
    vf_flag(9, 9);
    vf_key(vf_obj(8, "hashclass"));
    key = (Key *)vf_obj(sizeof(Key), "key");
    vf_key(key);
    node *n = (node *)vf_obj(sizeof(node), "probe_node");
    vf_poison(n);
    T *t = (T *)vf_obj(sizeof(T), "probe_elem");
    y.k = vf_kind_new(0, sizeof(T), vf_diff(VT::to_node_ptr(*t), t));
    vf_kind_field(y.k, 0, vf_probe_off(NT::get_next(n)));
    vf_kind_field(y.k, 1, -1);
    vf_kind_field(y.k, 11, 0); vf_kind_field(y.k, 12, sizeof(node));
    if constexpr (C::SH) vf_kind_field(y.k, 13, vf_probe_off_i((long)NT::get_hash(n)));
    vf_kind_field(y.k, 14, HV<C::H>(0)); vf_kind_field(y.k, 15, HV<C::H>(1)); vf_kind_field(y.k, 16, HV<C::H>(2));
    y.sizeOff = y.cacheOff = -1;
    L *c = (L *)vf_obj(sizeof(L), "probe_table");
    vf_poison(c);
    if constexpr (L::constant_time_size) y.sizeOff = vf_probe_off_i((long)c->size());
    if constexpr (C::CB) { Tab<C, 2> p; p.make(y, "probe_c", "probe_b"); y.cacheOff = vf_find_ptr(p.c, sizeof(L), p.b + 2); }
    kc = vf_choice(3);
    vf_flag(8, kc + 1);
  }
  void isKey(const char *name) { vf_zone_name(name, 0, kc, kc); vf_zone_name(name, 1, 1, 1); }
};
template<class C> struct Disp {
  int bag;
  void operator()(typename C::L::value_type *p) const {
    if constexpr (Tab<C, 2>::safe) vf_expect(!p->is_linked(), "detach:the disposer received an element that still looks linked");
    vf_bag_remove(bag, p, "dispose");
    vf_kill(p);
  }
};
template<class C> struct DispAny { void operator()(typename C::L::value_type *p) const { if constexpr (Tab<C, 2>::safe) vf_expect(!p->is_linked(), "detach:the disposer received an element that still looks linked"); vf_kill(p); } };
template<class C> struct Clone {
  typename C::L::value_type *operator()(const typename C::L::value_type &x) const {
    typename C::L::value_type *p = (typename C::L::value_type *)vf_clone_of(&x);
    if (Tab<C, 2>::safe) Env<C>::unordered_algo::init(Env<C>::np(p));
    return p;
  }
};
#define ARG E e; D t; t.make(e.y, "c", "b"); typename D::L *c = t.c; (void)c
template<class C, int N, int SP = N> struct S {
  typedef Env<C> E; typedef Tab<C, N, SP> D; static const bool P2 = C::P2;
  typedef typename C::L L; typedef typename E::T T;
  typedef typename L::iterator It; typedef typename L::const_iterator CIt;
  static int bagPlus(int w, T *v) { w = vf_wcopy(w); vf_winsert(w, v, nullptr); return vf_wbag(w); }
  static int bagMinus(int w, T *v) { w = vf_wbag(w); vf_werase(w, v); return w; }
  // ---- rehashing: to M buckets (another array, or the same array with another length)
  template<int M> static void rehash_to() { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); Tab<C, M> u; u.y = e.y; u.b = u.buckets("nb"); u.x = nullptr; u.c = c; c->rehash(typename D::BT(u.b, M + C::LIN)); vf_expect(c->bucket_count() == M, "content:bucket_count() after rehash"); u.check(q); t.checkEmpty(t.b, N); }
  template<int M> static void rehash_to_throw() { ARG; int w = t.fill(2 * C::MULTI, e.kc); (void)w; Tab<C, M> u; u.y = e.y; u.b = u.buckets("nb"); u.x = nullptr; u.c = c; vf_throws(1);
    try { c->rehash(typename D::BT(u.b, M + C::LIN)); } catch (...) { vf_throws(0); t.check(vf_bag("")); u.checkEmpty(u.b, M); } }
  template<int M> static void rehash_same() { constexpr int X = M > N ? M : N; Tab<C, X> big; E e; big.y = e.y; big.b = big.buckets("b"); D t; t.y = e.y; t.b = big.b; t.c = new (vf_obj(sizeof(L), "c")) L(typename D::BT(t.b, N + C::LIN)); L *c = t.c; if constexpr (C::INC) for (int i = N / 2; i < SP; ++i) c->incremental_rehash(true);
    int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); c->rehash(typename D::BT(t.b, M + C::LIN)); Tab<C, M> u; u.y = e.y; u.b = big.b; u.x = nullptr; u.c = c; vf_expect(c->bucket_count() == M, "content:bucket_count() after rehash"); u.check(q); }
  template<int M> static void rehash_same_throw() { constexpr int X = M > N ? M : N; Tab<C, X> big; E e; big.y = e.y; big.b = big.buckets("b"); D t; t.y = e.y; t.b = big.b; t.c = new (vf_obj(sizeof(L), "c")) L(typename D::BT(t.b, N + C::LIN)); L *c = t.c; if constexpr (C::INC) for (int i = N / 2; i < SP; ++i) c->incremental_rehash(true);
    t.fill(2 * C::MULTI, e.kc); vf_throws(1); try { c->rehash(typename D::BT(t.b, M + C::LIN)); } catch (...) { vf_throws(0); t.check(vf_bag("")); } }
  static void rehash_grow() { if constexpr (N == 2) rehash_to<4>(); else rehash_to<8>(); }
  static void rehash_shrink() { if constexpr (N == 4) rehash_to<2>(); else rehash_to<1>(); }
  static void rehash_odd() { if constexpr (!P2) rehash_to<3>(); }
  static void rehash_throw() { if constexpr (!P2) rehash_to_throw<3>(); else rehash_to_throw<2 * N>(); }
  static void rehash_same_grow() { rehash_same<2 * N>(); }
  static void rehash_same_shrink() { rehash_same<N / 2>(); }
  static void rehash_same_odd() { if constexpr (!P2) rehash_same<N - 1>(); }
  static void rehash_same_throw1() { if constexpr (!P2) rehash_same_throw<N + 1>(); else rehash_same_throw<2 * N>(); }
  static void full_rehash() { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); c->full_rehash(); Tab<C, N> u; u.y = e.y; u.b = t.b; u.x = nullptr; u.c = c; u.check(q); }
  static void full_rehash_throw() { ARG; t.fill(2 * C::MULTI, e.kc); vf_throws(1); try { c->full_rehash(); } catch (...) { vf_throws(0); t.check(vf_bag("")); } }
  static void inc_grow() { if constexpr (C::INC) { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); bool r = c->incremental_rehash(true); vf_expect(r == (SP < N), "content:incremental_rehash reports a wrong result"); if constexpr (SP < N) { Tab<C, N, SP + 1> u; u.y = e.y; u.b = t.b; u.c = c; vf_expect(c->split_count() == SP + 1, "content:split_count()"); u.check(q); } else t.check(q); } }
  static void inc_grow_throw() { if constexpr (C::INC) { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); vf_throws(1); try { c->incremental_rehash(true); } catch (...) { vf_throws(0); vf_expect(c->split_count() == SP, "content:split_count()"); t.check(q); } } }
  static void inc_shrink() { if constexpr (C::INC) { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); bool r = c->incremental_rehash(false); vf_expect(r == (SP > N / 2), "content:incremental_rehash reports a wrong result"); if constexpr (SP > N / 2) { Tab<C, N, SP - 1> u; u.y = e.y; u.b = t.b; u.c = c; vf_expect(c->split_count() == SP - 1, "content:split_count()"); u.check(q); } else t.check(q); } }
  // to an array of twice (half) the length, possible only when completely (not at all) split
  template<int M> static void inc_to() { ARG; int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); Tab<C, M, SP> u; u.y = e.y; u.b = u.buckets("nb"); u.x = nullptr; u.c = c; bool r = c->incremental_rehash(typename D::BT(u.b, M + C::LIN)); constexpr bool ok = M > N ? SP == N : SP == M; vf_expect(r == ok, "content:incremental_rehash reports a wrong result"); if constexpr (ok) { vf_expect(c->bucket_count() == M, "content:bucket_count() after rehash"); vf_expect(c->split_count() == SP, "content:split_count()"); u.check(q); t.checkEmpty(t.b, N); } else t.check(q); }
  static void inc_double() { if constexpr (C::INC) inc_to<2 * N>(); }
  static void inc_half() { if constexpr (C::INC) inc_to<N / 2>(); }
  static void inc_same_buf() { if constexpr (C::INC && SP == N) { Tab<C, 2 * N> big; E e; big.y = e.y; big.b = big.buckets("b"); D t; t.y = e.y; t.b = big.b; t.c = new (vf_obj(sizeof(L), "c")) L(typename D::BT(t.b, N + C::LIN)); L *c = t.c; for (int i = N / 2; i < SP; ++i) c->incremental_rehash(true);
    int w = t.fill(2 * C::MULTI, e.kc); int q = vf_wbag(w); bool r = c->incremental_rehash(typename D::BT(t.b, 2 * N + C::LIN)); vf_expect(r, "content:incremental_rehash reports a wrong result"); Tab<C, 2 * N, N> u; u.y = e.y; u.b = big.b; u.x = nullptr; u.c = c; u.check(q); } }
  // ---- cloning from a table of M buckets
  template<int M> static void clone_m(bool rv) { ARG; typedef Tab<C, M> D2; D2 u; u.make(e.y, "d", "bd"); int v = t.fillOther(); int w = u.fill(0, e.kc); Disp<C> dp = {vf_wbag(v)}; vf_wdead(v); int q = vf_wbag(w), r = vf_wmod(w, 3, 1); if (rv) c->clone_from(boost::move(*u.c), Clone<C>(), dp); else c->clone_from(*(const L *)u.c, Clone<C>(), dp); Tab<C, N, C::INC ? SP : N> n; n.y = e.y; n.b = t.b; n.c = c; n.check(r); u.check(q); vf_expect_bag_empty(dp.bag, "dispose"); }
  template<int M> static void clone_m_throw() { ARG; typedef Tab<C, M> D2; D2 u; u.make(e.y, "d", "bd"); t.fillOther(); int w = u.fill(0, e.kc); int q = vf_wbag(w); vf_throws(1); try { c->clone_from(*(const L *)u.c, Clone<C>(), DispAny<C>()); } catch (...) { vf_throws(0); t.check(vf_bag("")); u.check(q); } }
  static void clone_same() { clone_m<N>(false); }
  static void clone_rv() { clone_m<N>(true); }
  static void clone_big() { clone_m<2 * N>(false); }
  static void clone_small() { clone_m<N / 2>(false); }
  static void clone_odd() { if constexpr (!P2) clone_m<N + 1>(false); }
  static void clone_throw() { clone_m_throw<N>(); }
  static void clone_big_throw() { clone_m_throw<2 * N>(); }
  static void clone_small_throw() { clone_m_throw<N / 2>(); }
  static int bkOf(int kc) { return kc == 0 ? BK<C::H>(0, N, SP) : kc == 1 ? BK<C::H>(1, N, SP) : BK<C::H>(2, N, SP); }
  static void ctor() { ARG; t.check(vf_bag("")); vf_expect(c->empty() && c->size() == 0, "size:a new container is not empty"); vf_expect(c->bucket_count() == N, "content:bucket_count()"); }
  static void insert_new() { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(0, e.kc); int q = bagPlus(w, v); 
    if constexpr (C::MULTI) { It r = c->insert(*v); vf_expect_samep(&*r, v, "content:insert returns the new element"); step(c, r, t.check(q)); }
    else { std::pair<It, bool> r = c->insert(*v); vf_expect(r.second, "content:insert refuses an element without equivalent"); vf_expect_samep(&*r.first, v, "content:insert returns the new element"); step(c, r.first, t.check(q)); } }
  static void insert_dup() { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(1, e.kc); T *x = t.x;
    if constexpr (C::MULTI) { int q = bagPlus(w, v); It r = c->insert(*v); vf_expect_samep(&*r, v, "content:insert returns the new element"); t.check(q); }
    else { int q = vf_wbag(w); std::pair<It, bool> r = c->insert(*v); vf_expect(!r.second, "content:insert accepts an element although an equivalent one is present"); vf_expect_samep(&*r.first, x, "content:insert reports the equivalent element"); step(c, r.first, t.check(q)); e.detached(v); } }
  static void insert_run() { if constexpr (C::MULTI) { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(2, e.kc); int q = bagPlus(w, v); It r = c->insert(*v); vf_expect_samep(&*r, v, "content:insert returns the new element"); t.check(q); } }
  static void check_commit() { if constexpr (!C::MULTI) { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(0, e.kc); int q = bagPlus(w, v); typename L::insert_commit_data d;
    std::pair<It, bool> r = c->insert_check(*e.key, UHash(), UEq(), d); vf_expect(r.second, "content:insert_check refuses a key without equivalent"); It i = c->insert_commit(*v, d); vf_expect_samep(&*i, v, "content:insert_commit returns the new element"); step(c, i, t.check(q)); } }
  static void check_dup() { if constexpr (!C::MULTI) { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); typename L::insert_commit_data d;
    std::pair<It, bool> r = c->insert_check(*e.key, UHash(), UEq(), d); vf_expect(!r.second, "content:insert_check accepts a key although an equivalent element is present"); vf_expect_samep(&*r.first, x, "content:insert_check reports the equivalent element"); t.check(q); } }
  // the iterator continues with the next element of the iteration order
  template<class I> static void step(L *c, I i, int all) { T *p = const_cast<T *>(&*i); ++i; if (i == c->cend()) vf_expect_adjacent(all, p, nullptr, "content"); else vf_expect_adjacent(all, p, const_cast<T *>(&*i), "content"); }
  // lookups
  static void find_x() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w);
    It i = c->find(*e.key, UHash(), UEq());
    if constexpr (C::MULTI) { vf_expect(i != c->end(), "order:find misses an equivalent element"); vf_zone_is(&*i, 1, 1, 1, "order"); } else vf_expect_samep(&*i, x, "order:find returns another element");
    step(c, i, t.check(q)); }
  static void find_none() { ARG; int w = t.fill(0, e.kc); int q = vf_wbag(w); vf_expect(c->find(*e.key, UHash(), UEq()) == c->end(), "order:find returns an element although none is equivalent"); vf_expect(c->count(*e.key, UHash(), UEq()) == 0, "order:count is not zero although no element is equivalent"); t.check(q); }
  static void cfind() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); const L *cc = c;
    CIt i = cc->find(*e.key, UHash(), UEq()); vf_expect(i != cc->end(), "order:find misses an equivalent element"); vf_zone_is(&*i, 1, 1, 1, "order"); step(c, i, t.check(q)); }
  static void find_key() { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); It i = c->find(*v); vf_expect(i != c->end(), "order:find misses an equivalent element"); vf_zone_is(&*i, 1, 1, 1, "order"); t.check(q); e.detached(v); }
  static void count() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); long n;
    if constexpr (C::MULTI) { int r = t.run; n = (long)c->count(*e.key, UHash(), UEq()); vf_expect_same(n, vf_len(r), "order:count differs from the number of equivalent elements"); } else { n = (long)c->count(*e.key, UHash(), UEq()); vf_expect_same(n, 1, "order:count is not one"); }
    t.check(q); }
  static void count_run() { if constexpr (C::MULTI) { ARG; int w = t.fill(2, e.kc); int q = vf_wbag(w); int r = t.run; long n = (long)c->count(*e.key, UHash(), UEq()); vf_expect_same(n, vf_len(r), "order:count differs from the number of equivalent elements"); t.check(q); } }
  static void equal_range() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); int want = t.run;
    std::pair<It, It> r = c->equal_range(*e.key, UHash(), UEq()); rangeIs(t, c, r.first, r.second, want); t.check(q); }
  template<class I> static void rangeIs(D &t, L *c, I f, I l, int want) {
    int all = t.check(-1); vf_expect(f != c->end(), "order:equal_range is empty although an equivalent element exists");
    int got = l == c->end() ? vf_wsub(all, &*f, nullptr) : vf_wsub(all, &*f, &*l); vf_expect_words(want, got, "order:equal_range is not the run of equivalent elements"); step(c, f, all); if (l != c->end()) step(c, l, all); }
  static void cequal_range() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); const L *cc = c; int want = t.run;
    std::pair<CIt, CIt> r = cc->equal_range(*e.key, UHash(), UEq()); rangeIs(t, c, r.first, r.second, want); t.check(q); }
  static void equal_range_none() { ARG; int w = t.fill(0, e.kc); int q = vf_wbag(w); std::pair<It, It> r = c->equal_range(*e.key, UHash(), UEq()); vf_expect(r.first == r.second, "order:equal_range is not empty although no element is equivalent"); t.check(q); }
  static void lookup_throw() { ARG; int w = t.fill(2, e.kc); int q = vf_wbag(w); vf_throws(1); try { c->find(*e.key, UHash(), UEq()); c->count(*e.key, UHash(), UEq()); c->equal_range(*e.key, UHash(), UEq()); } catch (...) { vf_throws(0); t.check(q); } }
  static void insert_throw() { ARG; T *v = e.elem("v"); e.isKey("v"); int w = t.fill(0, e.kc); int q = vf_wbag(w); vf_throws(1); try { c->insert(*v); } catch (...) { vf_throws(0); t.check(q); e.detached(v); } }
  static void erase_throw() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); vf_throws(1); try { c->erase(*e.key, UHash(), UEq()); } catch (...) { vf_throws(0); t.check(q); } }
  // removal
  static void erase1() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = bagMinus(w, x); c->erase(c->iterator_to(*x)); t.check(q); e.detached(x); }
  static void erase1_d() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = bagMinus(w, x); Disp<C> d = {vf_bag("x")}; c->erase_and_dispose(c->iterator_to(*x), d); t.check(q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_tail() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(vf_wsub(w, nullptr, x)); c->erase(c->iterator_to(*x), c->cend()); t.check(q); e.detached(x); }
  static void erase_tail_d() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(vf_wsub(w, nullptr, x)); Disp<C> d = {vf_wbag(vf_wsub(w, x, nullptr))}; vf_wdead(w); c->erase_and_dispose(c->iterator_to(*x), c->cend(), d); t.check(q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_head() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(vf_wsub(w, x, nullptr)); c->erase(c->cbegin(), c->iterator_to(*x)); t.check(q); }
  static void erase_head_d() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(vf_wsub(w, x, nullptr)); Disp<C> d = {vf_wbag(vf_wsub(w, nullptr, x))}; vf_wdead(w); c->erase_and_dispose(c->cbegin(), c->iterator_to(*x), d); t.check(q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_all() { ARG; int w = t.fill(0, e.kc); c->erase(c->cbegin(), c->cend()); t.check(vf_bag("")); }
  static void erase_key() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int run = t.run; int q = vf_wbag(minusRun(t, w)); long l = vf_len(run); long n = (long)c->erase(*e.key, UHash(), UEq()); vf_expect_same(n, l, "content:erase(key) reports another number of removed elements"); t.check(q); e.detached(x); }
  static int minusRun(D &t, int w) { w = vf_wbag(w); vf_wminus(w, t.runbag); return w; }
  static void erase_key_d() { ARG; int w = t.fill(1, e.kc); T *x = t.x; Disp<C> d = {t.runbag}; int q = minusRun(t, w); vf_wdead(w); c->erase_and_dispose(*e.key, UHash(), UEq(), d); t.check(q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_key_none() { ARG; int w = t.fill(0, e.kc); int q = vf_wbag(w); vf_expect(c->erase(*e.key, UHash(), UEq()) == 0, "content:erase(key) reports removed elements although none is equivalent"); t.check(q); }
  static void clear() { ARG; t.fill(1, e.kc); T *x = t.x; c->clear(); t.check(vf_bag("")); e.detached(x); }
  static void clear_d() { ARG; int w = t.fill(2 * C::MULTI, e.kc); Disp<C> d = {vf_wbag(w)}; vf_wdead(w); c->clear_and_dispose(d); t.check(vf_bag("")); vf_expect_bag_empty(d.bag, "dispose"); }
  static void dtor() { ARG; t.fill(1, e.kc); T *x = t.x; c->~L(); t.checkEmpty(t.b, N); e.detached(x); }
  static void observers() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); vf_expect(!c->empty(), "size:empty() of a non-empty container"); vf_expect_same((long)c->size(), vf_len(w), "size:size() differs from the number of linked elements"); t.check(q); }
  static void bucket_obs() { ARG; int w = t.fill(1, e.kc); T *x = t.x; int q = vf_wbag(w); int bk = bkOf(e.kc); vf_expect((int)c->bucket(*e.key, UHash()) == bk, "content:bucket(key)"); vf_expect_same((long)c->bucket_size(bk), vf_len(vf_ring_word(t.bn(bk), e.y.k, C::LIN)), "content:bucket_size");
    if (c->begin(bk) != c->end(bk)) vf_expect_samep(&*c->begin(bk), (T *)&*c->local_iterator_to(*c->begin(bk)), "content:local iterators"); t.check(q); }
  static void next() { ARG; int w = t.fill(1, e.kc); T *x = t.x; It i = c->iterator_to(*x); vf_expect_samep(&*i, x, "content:iterator_to"); ++i; if (i == c->end()) vf_expect_adjacent(w, x, nullptr, "content"); else vf_expect_adjacent(w, x, &*i, "content"); }
  static void iterate() { ARG; int w = t.fill(0, e.kc); long n = 0; for (It i = c->begin(), l = c->end(); i != l; ++i) ++n; vf_expect_same(n, vf_len(w), "content:iteration visits another number of elements than the container holds"); t.check(vf_wbag(w)); }
  static void liter() { ARG; int w = t.fill(0, e.kc); int bk = bkOf(e.kc); long n = 0; for (auto i = c->begin(bk), l = c->end(bk); i != l; ++i) ++n; vf_expect_same(n, vf_len(vf_ring_word(t.bn(bk), e.y.k, C::LIN)), "content:local iteration visits another number of elements than the bucket holds"); t.check(vf_wbag(w)); }
  static void swap_m() { ARG; D u; u.make(e.y, "d", "bd"); int w = t.fill(0, e.kc), v = u.fillOther(); int q = vf_wbag(w), r = vf_wbag(v); c->swap(*u.c); std::swap(t.b, u.b); t.check(r); u.check(q); }
  static void move_ctor() { ARG; int w = t.fill(0, e.kc); int q = vf_wbag(w); D u; u.y = e.y; u.b = t.b; u.c = new (vf_obj(sizeof(L), "d")) L(boost::move(*c)); u.check(q); }
  static void move_assign() { ARG; D u; u.make(e.y, "d", "bd"); int w = t.fill(0, e.kc), v = u.fillOther(); int q = vf_wbag(w), r = vf_wbag(v); *u.c = boost::move(*c); std::swap(t.b, u.b); u.check(q); t.check(r); }
};
#define INST1(cfg, C, N, SP, op) extern "C" void spec_hash_##cfg##_##op() { S<C, N, SP>::op(); }
#define ALL(X) X(ctor) X(insert_new) X(insert_dup) X(insert_run) X(check_commit) X(check_dup) X(find_x) X(find_none) X(cfind) X(find_key) X(count) X(count_run) X(equal_range) X(cequal_range) X(equal_range_none) X(lookup_throw) X(insert_throw) X(erase_throw) \
  X(erase1) X(erase1_d) X(erase_tail) X(erase_tail_d) X(erase_head) X(erase_head_d) X(erase_all) X(erase_key) X(erase_key_d) X(erase_key_none) X(clear) X(clear_d) X(dtor) X(observers) X(bucket_obs) X(next) X(iterate) X(liter) X(swap_m) X(move_ctor) X(move_assign) X(rehash_grow) X(rehash_shrink) X(rehash_odd) X(rehash_throw) X(rehash_same_grow) X(rehash_same_shrink) X(rehash_same_odd) X(rehash_same_throw1) X(full_rehash) X(full_rehash_throw) \
  X(inc_grow) X(inc_grow_throw) X(inc_shrink) X(inc_double) X(inc_half) X(inc_same_buf) X(clone_same) X(clone_rv) X(clone_big) X(clone_small) X(clone_odd) X(clone_throw) X(clone_big_throw) X(clone_small_throw)
template<link_mode_type LM, bool SH> using Hk = Elem<unordered_set_base_hook<link_mode<LM>, store_hash<SH> > >;
typedef Cfg<unordered_set<Hk<safe_link, false>, hash<UHash>, equal<UEq>, constant_time_size<true> >, false, false, false, false, false> C_set;
typedef Cfg<unordered_multiset<Hk<safe_link, false>, hash<UHash>, equal<UEq>, constant_time_size<true> >, false, true, false, false, false> C_mset;
typedef Cfg<unordered_set<Hk<normal_link, true>, hash<UHash>, equal<UEq>, constant_time_size<false>, power_2_buckets<true>, cache_begin<true>, compare_hash<true> >, false, false, true, true, false, true> C_cb;
typedef Cfg<unordered_multiset<Hk<safe_link, true>, hash<UHash>, equal<UEq>, constant_time_size<true>, incremental<true> >, false, true, true, false, true, true, true> C_inc;
typedef Cfg<unordered_multiset<Hk<safe_link, false>, hash<UHash>, equal<UEq>, constant_time_size<true>, linear_buckets<true>, cache_begin<true> >, true, true, false, true, false> C_lin;
typedef Cfg<unordered_set<Hk<safe_link, true>, hash<UHash>, equal<UEq>, constant_time_size<true>, incremental<true>, cache_begin<true> >, false, false, true, true, true> C_icb;
#define I_icb(op) INST1(icb, C_icb, 4, 4, op)
#define I_ich(op) INST1(ich, C_icb, 4, 2, op)
#define I_set(op) INST1(set, C_set, 2, 2, op)
#define I_set4(op) INST1(set4, C_set, 4, 4, op)
#define I_mset(op) INST1(mset, C_mset, 2, 2, op)
#define I_cb(op) INST1(cb, C_cb, 2, 2, op)
#define I_inc(op) INST1(inc, C_inc, 4, 3, op)
#define I_lin(op) INST1(lin, C_lin, 2, 2, op)
ALL(I_set) ALL(I_set4) ALL(I_mset) ALL(I_cb) ALL(I_inc) ALL(I_lin) ALL(I_icb) ALL(I_ich)
