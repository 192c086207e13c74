// Structure of search trees: every operation on any tree, at any position (no order assumed where none is needed).
#include "treeenv.h"
template<class L, TKind TK> struct S {
  typedef TEnv<L, TK> E;
  typedef typename E::T T;
  typedef typename L::iterator It;
  typedef typename L::const_iterator CIt;
  static void ctor() { E e; L *c = e.make("c"); int w = vf_word(""); e.expect(c, w); vf_expect(c->empty(), "content:a new container is not empty"); vf_expect(c->begin() == c->end(), "content:begin()!=end()"); }
  static void observers() {
    E e; L *c = e.make("c"); int w = e.fill(c); const L &k = *c;
    if (c->empty()) { vf_expect(c->begin() == c->end(), "cache:begin()!=end() on an empty container"); vf_expect_same(vf_len(w), 0, "content:empty() on a non-empty container"); }
    else {
      vf_expect_adjacent(w, 0, &*c->begin(), "cache"); vf_expect_adjacent(w, &*--c->end(), 0, "cache");
      vf_expect_adjacent(w, 0, &*k.cbegin(), "cache"); vf_expect_adjacent(w, &*--k.cend(), 0, "cache");
      vf_expect_adjacent(w, &*c->rbegin(), 0, "cache"); vf_expect(c->rend().base() == c->begin(), "cache:rend()");
      vf_expect_adjacent(w, &*k.crbegin(), 0, "cache"); vf_expect(k.crend().base() == k.cbegin(), "cache:crend()"); vf_expect(k.rend().base() == k.begin(), "cache:rend() const");
      vf_expect_samep(E::NT::get_parent(E::hp(c)), E::np(&*c->root()), "content:root()");
    }
    vf_expect_samep(&L::container_from_end_iterator(c->end()), c, "content:container_from_end_iterator");
    vf_expect_samep(&L::container_from_end_iterator(k.cend()), c, "content:container_from_end_iterator const");
    e.expect(c, w);
  }
  static void size() { E e; L *c = e.make("c"); int w = e.fill(c); long n = (long)c->size(); vf_expect_same(n, vf_len(w), "size:size() differs from the number of linked elements"); e.expect(c, w); }
  static void empty() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); vf_expect(!c->empty(), "content:empty() on a non-empty container"); e.expect(c, w); }
  static void next() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); It i = e.it(x); ++i; vf_expect_adjacent(w, x, i == c->end() ? 0 : &*i, "content"); e.expect(c, w); }
  static void prev() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); It i = e.it(x); if (i != c->begin()) { --i; vf_expect_adjacent(w, &*i, x, "content"); } else vf_expect_adjacent(w, 0, x, "cache"); e.expect(c, w); }
  static void prev_end() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); It i = c->end(); --i; vf_expect_adjacent(w, &*i, 0, "content"); e.expect(c, w); }
  static void iter_from() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); vf_expect_samep(&*c->iterator_to(*x), x, "content:iterator_to"); vf_expect_samep(&*((const L *)c)->iterator_to(*(const T *)x), x, "content:iterator_to const"); vf_expect_samep(&L::container_from_iterator(e.it(x)), c, "content:container_from_iterator"); e.expect(c, w); }
  static void from_end() { E e; L *c = e.make("c"); int w = e.fill(c); vf_expect_samep(&L::container_from_iterator(c->end()), c, "content:container_from_iterator(end)"); e.expect(c, w); }
  static void erase1() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); vf_werase(w, x); c->erase(e.it(x)); e.expect(c, w); e.detached(x); }
  static void erase1_r() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); It r = c->erase(e.it(x)); vf_expect_adjacent(w, x, r == c->end() ? 0 : &*r, "content"); }
  static void erase1_d() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); vf_werase(w, x); int bag = vf_bag("x"); TDisp<L> d = {bag}; c->erase_and_dispose(e.it(x), d); e.expect(c, w); vf_expect_bag_empty(bag, "dispose"); }
  static void insert_before() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.elem("v"); int w = e.fill(c, x); vf_winsert(w, v, x); It r = c->insert_before(e.it(x), *v); e.expect(c, w); vf_expect_samep(&*r, v, "content:insert_before returns the new element"); }
  static void insert_before_end() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); vf_winsert(w, v, 0); It r = c->insert_before(c->end(), *v); e.expect(c, w); vf_expect_samep(&*r, v, "content:insert_before returns the new element"); }
  static void push_back() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); vf_winsert(w, v, 0); c->push_back(*v); e.expect(c, w); }
  static void push_front() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); int n = vf_wcat(vf_word("v"), w); c->push_front(*v); e.expect(c, n); }
  static void replace() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.elem("v"); int w = e.fill(c, x); vf_winsert(w, v, x); vf_werase(w, x); c->replace_node(e.it(x), *v); e.expect(c, w); e.detached(x); }
  static void swap_m() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c), b = e.fill(d); c->swap(*d); e.expect(c, b); e.expect(d, a); }
  static void fswap() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c), b = e.fill(d); swap(*c, *d); e.expect(c, b); e.expect(d, a); }
  static void move_ctor() { E e; L *c = e.make("c"); int a = e.fill(c); L *d = new (vf_obj(sizeof(L), "d")) L(boost::move(*c)); vf_header(e.hp(d), e.k); e.expect(d, a); int z = vf_word(""); e.expect(c, z); }
  static void move_assign() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c); e.fill(d); *d = boost::move(*c); e.expect(d, a); e.any(c); }
  static void clear() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, x); c->clear(); int z = vf_word(""); e.expect(c, z); e.detached(x); }
  static void clear_d() { E e; L *c = e.make("c"); int w = e.fill(c); int b = vf_wbag(w); vf_wdead(w); TDisp<L> d = {b}; c->clear_and_dispose(d); int z = vf_word(""); e.expect(c, z); vf_expect_bag_empty(b, "dispose"); }
  static void dtor() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, x); c->~L(); e.detached(x); }
  // only the order in which elements are unlinked is promised: the tree is not usable for anything else afterwards
  static void unlink_leftmost() {
    E e; L *c = e.make("c"); int w = e.fill(c); int o = vf_wcopy(w); typename L::pointer p = c->unlink_leftmost_without_rebalance();
    if (!p) { vf_expect_same(vf_len(w), 0, "content:no element unlinked from a non-empty container"); e.expect(c, w); return; }
    vf_expect_adjacent(w, 0, p, "content"); vf_werase(w, p); e.size(c, w); e.detached(p);
    typename L::pointer q = c->unlink_leftmost_without_rebalance();
    vf_expect_adjacent(o, p, q, "content"); if (q) { vf_werase(w, q); e.size(c, w); e.detached(q); } else { vf_expect(c->empty(), "content:not empty although nothing was left to unlink"); e.expect(c, w); }
  }
  static void remove_node() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); vf_werase(w, x); L::remove_node(*x); e.expect(c, w); e.detached(x); }
  static void erase_range() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); int w = e.fill(c, x, y); int n = vf_wcat(vf_wsub(w, 0, x), vf_wsub(w, y, 0)); vf_wdead(w); It r = c->erase(e.it(x), e.it(y)); e.expect(c, n); vf_expect_samep(&*r, y, "content:erase(range) returns its end"); e.detached(x); }
  static void erase_tail() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); int n = vf_wsub(w, 0, x); vf_wdead(w); It r = c->erase(e.it(x), c->end()); e.expect(c, n); vf_expect(r == c->end(), "content:erase(range) returns its end"); e.detached(x); }
  static void erase_empty() { E e; L *c = e.make("c"); T *x = e.raw("x"); int w = e.fill(c, x); It r = c->erase(e.it(x), e.it(x)); e.expect(c, w); vf_expect_samep(&*r, x, "content:erase(empty range)"); }
  static void erase_range_d() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); int w = e.fill(c, x, y); int n = vf_wcat(vf_wsub(w, 0, x), vf_wsub(w, y, 0)); int bag = vf_wbag(vf_wsub(w, x, y)); vf_wdead(w); TDisp<L> d = {bag}; It r = c->erase_and_dispose(e.it(x), e.it(y), d); e.expect(c, n); vf_expect_samep(&*r, y, "content:erase_and_dispose(range) returns its end"); vf_expect_bag_empty(bag, "dispose"); }
};
#define INST1(cfg, L, TK, op) extern "C" void spec_tree_##cfg##_##op() { S<L, TK>::op(); }
#define ALL0(X) X(ctor) X(observers) X(size) X(empty) X(next) X(prev) X(prev_end) X(iter_from) X(from_end) X(erase1) X(erase1_d) X(swap_m) X(fswap) X(move_ctor) X(move_assign) \
  X(clear) X(clear_d) X(dtor) X(erase_empty) X(unlink_leftmost)
#define RET(X) X(erase1_r)
#define ALL1(X) ALL0(X) X(insert_before) X(insert_before_end) X(push_back) X(push_front) X(replace)
#define I_bs(op) INST1(bs, L_bs, BS, op)
#define I_bsn(op) INST1(bsn, L_bsn, BS, op)
#define I_bsa(op) INST1(bsa, L_bsa, BS, op)
#define I_rb(op) INST1(rb, L_rb, RB, op)
#define I_rbn(op) INST1(rbn, L_rbn, RB, op)
#define I_rba(op) INST1(rba, L_rba, RB, op)
#define I_avl(op) INST1(avl, L_avl, AVL, op)
#define I_avln(op) INST1(avln, L_avln, AVL, op)
#define I_avla(op) INST1(avla, L_avla, AVL, op)
#define I_tr(op) INST1(tr, L_tr, TREAP, op)
#define I_sp(op) INST1(sp, L_sp, SPLAY, op)
#define I_sg(op) INST1(sg, L_sg, SG, op)
ALL1(I_bs) RET(I_bs) ALL1(I_bsn) RET(I_bsn) ALL1(I_bsa) RET(I_bsa) I_bsa(remove_node)
ALL1(I_rb) RET(I_rb) ALL1(I_rbn) ALL1(I_rba) I_rba(remove_node)
ALL1(I_avl) ALL1(I_avln) ALL1(I_avla) I_avla(remove_node)
#define NOERASE(X) X(ctor) X(observers) X(size) X(empty) X(next) X(prev) X(prev_end) X(iter_from) X(from_end) X(swap_m) X(fswap) X(move_ctor) X(move_assign) \
  X(clear) X(clear_d) X(dtor) X(erase_empty)
ALL0(I_tr) NOERASE(I_sp) I_sp(replace) NOERASE(I_sg) I_sg(replace)
