#include "vf.h"
#include <boost/intrusive/slist.hpp>
using namespace boost::intrusive;

template<link_mode_type LM> struct Elem : Pad, slist_base_hook<link_mode<LM> > {
  long value;
  friend bool operator<(const Elem &a, const Elem &b) { return vf_less(&a, &b); }
  friend bool operator==(const Elem &a, const Elem &b) { return vf_equal(&a, &b); }
};

template<class L> struct Env {
  typedef typename L::value_type T;
  typedef typename L::value_traits VT;
  typedef typename L::node_traits NT;
  typedef typename L::node_algorithms NA;
  typedef typename NT::node node;
  int k;
  long sizeOff, lastOff;
  static const bool safe = is_safe_autounlink<VT::link_mode>::value;
  static const int lin = L::linear ? 1 : 0;
  static node *hdr(L *c) { return c->before_begin().pointed_node(); }
  Env() {
    node *n = (node *)vf_obj(sizeof(node), "probe_node");
    vf_poison(n);
    T *t = (T *)vf_obj(sizeof(T), "probe_elem");
    long no = vf_diff(VT::to_node_ptr(*t), t);
    k = vf_kind_new(0, sizeof(T), no);
    vf_kind_field(k, 0, vf_probe_off(NT::get_next(n)));
    vf_kind_field(k, 1, -1);
    vf_kind_field(k, 11, 0); vf_kind_field(k, 12, sizeof(node));
    sizeOff = lastOff = -1;
    L *c = (L *)vf_obj(sizeof(L), "probe_list");
    vf_poison(c);
    if constexpr (L::constant_time_size) sizeOff = vf_probe_off_i((long)c->size());
    if constexpr (L::cache_last) lastOff = vf_probe_off(c->last().pointed_node());
  }
  L *make(const char *name) {
    L *c = new (vf_obj(sizeof(L), name)) L;
    vf_header(hdr(c), k);
    return c;
  }
  T *elem(const char *name) { T *x = (T *)vf_node(k, name); init(x); return x; }
  T *raw(const char *name) { return (T *)vf_node(k, name); }
  void init(T *x) { if (safe) NA::init(VT::to_node_ptr(*x)); }
  static node *np(T *x) { return VT::to_node_ptr(*x); }
  static typename L::iterator it(T *x) { return L::s_iterator_to(*x); }
  int fill(L *c, const char *txt) {
    int w = vf_ring(hdr(c), k, lin, txt);
    if (L::constant_time_size) vf_store_at(c, sizeOff, vf_len(w), 8);
    if (L::cache_last) vf_store_ptr(c, lastOff, vf_last(w, hdr(c)));
    return w;
  }
  void expect(L *c, int w, bool bag = false) {
    vf_expect_ring(hdr(c), k, lin, w, bag);
    if constexpr (L::cache_last) vf_expect_last(vf_ring_word(hdr(c), k, lin), c->last().pointed_node(), hdr(c), "cache");
    if (L::constant_time_size && w >= 0) vf_expect_same((long)c->size(), vf_len(w), "size:size() differs from the number of linked elements");
  }
  void expectAny(L *c) {
    vf_expect_ring(hdr(c), k, lin, -1, 0);
    if constexpr (L::cache_last) vf_expect_last(vf_ring_word(hdr(c), k, lin), c->last().pointed_node(), hdr(c), "cache");
    if (L::constant_time_size) vf_expect_same((long)c->size(), vf_len(vf_ring_word(hdr(c), k, lin)), "size:size() differs from the number of linked elements");
  }
  void expectS(L *c, const char *txt) { expect(c, vf_word(txt)); }
  void detached(T *x) { if (safe) vf_expect(NA::inited(np(x)), "detach:an element that was removed still looks linked"); }
};
template<class L> struct Disp {
  int bag;
  void operator()(typename L::value_type *p) const {
    if (Env<L>::safe) vf_expect(L::node_algorithms::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked");
    vf_bag_remove(bag, p, "dispose");
    vf_kill(p);
  }
};
template<class L> struct Clone {
  typename L::value_type *operator()(const typename L::value_type &x) const {
    typename L::value_type *p = (typename L::value_type *)vf_clone_of(&x);
    if (Env<L>::safe) L::node_algorithms::init(L::value_traits::to_node_ptr(*p));
    return p;
  }
};

#define ARG E e; L *c = e.make("c"); (void)c
template<class L> struct S {
  typedef Env<L> E;
  typedef typename E::T T;
  typedef typename L::iterator It;
  typedef typename L::const_iterator CIt;
  typedef typename L::size_type Sz;
  static void ctor() { ARG; e.expectS(c, ""); vf_expect(c->empty(), "content:a new list is not empty"); vf_expect(c->begin() == c->end(), "content:begin()!=end()"); }
  static void push_front() { ARG; e.fill(c, "A"); T *v = e.elem("v"); int q0 = vf_word("v A"); c->push_front(*v); e.expect(c, q0); }
  static void push_back() { ARG; e.fill(c, "A"); T *v = e.elem("v"); int q0 = vf_word("A v"); if constexpr (L::cache_last) { c->push_back(*v); e.expect(c, q0); vf_expect_samep(&c->back(), v, "content:back()"); vf_expect_samep(&((const L *)c)->back(), v, "content:back() const"); vf_expect_samep(&*c->last(), v, "content:last()"); vf_expect_samep(&*c->clast(), v, "content:clast()"); } else e.expect(c, vf_word("A")); }
  static void pop_front() { ARG; T *v = e.raw("v"); e.fill(c, "v A"); int q0 = vf_word("A"); c->pop_front(); e.expect(c, q0); e.detached(v); }
  static void pop_front_d() { ARG; e.raw("v"); e.fill(c, "v A"); int q0 = vf_word("A"); Disp<L> d = {vf_bag("v")}; c->pop_front_and_dispose(d); e.expect(c, q0); vf_expect_bag_empty(d.bag, "dispose"); }
  static void observers() {
    ARG; T *x = e.raw("x"); int w = e.fill(c, "x A"); const L &k = *c;
    vf_expect_samep(&c->front(), x, "content:front()"); vf_expect_samep(&k.front(), x, "content:front() const");
    vf_expect_samep(&*c->begin(), x, "content:begin()"); vf_expect_samep(&*k.begin(), x, "content:begin() const"); vf_expect_samep(&*k.cbegin(), x, "content:cbegin()");
    vf_expect_samep(&*++c->before_begin(), x, "content:++before_begin()"); vf_expect_samep(&*++k.cbefore_begin(), x, "content:++cbefore_begin()");
    vf_expect(!c->empty(), "content:empty() on a non-empty list");
    if constexpr (!L::linear && L::has_container_from_iterator) {
      vf_expect_samep(&L::container_from_end_iterator(c->end()), c, "content:container_from_end_iterator");
      vf_expect_samep(&L::container_from_end_iterator(k.cend()), c, "content:container_from_end_iterator const");
    }
    e.expect(c, w);
  }
  static void last_reaches_end() { ARG; T *x = e.raw("x"); e.fill(c, "A x"); It i = e.it(x); ++i; vf_expect(i == c->end(), "content:++ of the last element is end()"); vf_expect(CIt(i) == c->cend(), "content:++ of the last element is cend()"); }
  static void size() { ARG; int w = e.fill(c, "A"); long n = (long)c->size(); vf_expect_same(n, vf_len(w), "size:size() differs from the number of linked elements"); e.expect(c, w); }
  static void iterate() {
    ARG; T *x = e.raw("x"), *y = e.raw("y"); int w = e.fill(c, "A x y B"); It i = e.it(x);
    vf_expect_samep(&*i, x, "content:iterator_to"); ++i; vf_expect_samep(&*i, y, "content:++");
    i = c->iterator_to(*x); It j = i++; vf_expect_samep(&*j, x, "content:post ++"); vf_expect_samep(&*i, y, "content:post ++");
    CIt ci = c->iterator_to(*(const T *)x); vf_expect_samep(&*ci, x, "content:iterator_to const");
    vf_expect_samep(&*c->previous(e.it(y)), x, "content:previous()"); vf_expect_samep(&*((const L *)c)->previous(CIt(e.it(y))), x, "content:previous() const");
    vf_expect_samep(&*c->previous(c->cbefore_begin(), e.it(y)), x, "content:previous(from)");
    e.expect(c, w);
  }
  static void previous_end() { ARG; T *x = e.raw("x"); e.fill(c, "A x"); vf_expect_samep(&*c->previous(c->end()), x, "content:previous(end())"); }
  static void insert_after() { ARG; T *x = e.raw("x"), *v = e.elem("v"); e.fill(c, "A x B"); int q = vf_word("A x v B"); It r = c->insert_after(e.it(x), *v); e.expect(c, q); vf_expect_samep(&*r, v, "content:insert_after returns the inserted element"); }
  static void insert_after_bb() { ARG; T *v = e.elem("v"); e.fill(c, "A"); int q = vf_word("v A"); c->insert_after(c->cbefore_begin(), *v); e.expect(c, q); }
  struct Src { T *a, *b; int i; T &operator*() const { return i == 0 ? *a : *b; } Src &operator++() { ++i; return *this; } bool operator!=(const Src &o) const { return i != o.i; } bool operator==(const Src &o) const { return i == o.i; } };
  static void insert_after_range() { ARG; T *x = e.raw("x"), *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A x B"); int q = vf_word("A x u v B"); Src b = {u, v, 0}, f = {u, v, 2}; c->insert_after(e.it(x), b, f); e.expect(c, q); }
  static void insert_before() { ARG; T *x = e.raw("x"), *v = e.elem("v"); e.fill(c, "A x B"); int q = vf_word("A v x B"); It r = c->insert(e.it(x), *v); e.expect(c, q); vf_expect_samep(&*r, v, "content:insert returns the inserted element"); }
  static void insert_end() { ARG; T *v = e.elem("v"); e.fill(c, "A"); int q = vf_word("A v"); c->insert(c->cend(), *v); e.expect(c, q); }
  static void insert_range() { ARG; T *x = e.raw("x"), *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A x B"); int q = vf_word("A u v x B"); Src b = {u, v, 0}, f = {u, v, 2}; c->insert(e.it(x), b, f); e.expect(c, q); }
  static void insert_range_end() { ARG; T *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A"); int q = vf_word("A u v"); Src b = {u, v, 0}, f = {u, v, 2}; c->insert(c->cend(), b, f); e.expect(c, q); }
  static void assign() { ARG; T *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A"); int q = vf_word("u v"); Src b = {u, v, 0}, f = {u, v, 2}; c->assign(b, f); e.expect(c, q); }
  static void dispose_and_assign() { ARG; T *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A"); int q = vf_word("u v"); Disp<L> d = {vf_bag("A")}; Src b = {u, v, 0}, f = {u, v, 2}; c->dispose_and_assign(d, b, f); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void ctor_range() { E e; T *u = e.elem("u"), *v = e.elem("v"); int q = vf_word("u v"); Src b = {u, v, 0}, f = {u, v, 2}; L *c = new (vf_obj(sizeof(L), "c")) L(b, f); vf_header(e.hdr(c), e.k); e.expect(c, q); }
  static void erase_after1() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); int q = vf_word("A x B"); It r = c->erase_after(e.it(x)); e.expect(c, q); e.detached(y); vf_expect(r == ++e.it(x), "content:erase_after returns the element after the erased one"); }
  static void erase_after_bb() { ARG; T *x = e.raw("x"); e.fill(c, "x B"); int q = vf_word("B"); It r = c->erase_after(c->cbefore_begin()); e.expect(c, q); e.detached(x); vf_expect(r == c->begin(), "content:erase_after returns the element after the erased one"); }
  static void erase_after_range() { ARG; T *x = e.raw("x"), *m = e.raw("m"), *y = e.raw("y"); e.fill(c, "A x B m C y D"); int q = vf_word("A x y D"); It r = c->erase_after(e.it(x), e.it(y)); e.expect(c, q); e.detached(m); vf_expect_samep(&*r, y, "content:erase_after returns the end of the range"); }
  static void erase_after_tail() { ARG; T *x = e.raw("x"), *m = e.raw("m"); e.fill(c, "A x B m"); int q = vf_word("A x"); It r = c->erase_after(e.it(x), c->cend()); e.expect(c, q); e.detached(m); vf_expect(r == c->end(), "content:erase_after returns the end of the range"); }
  static void erase_after_n() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q = vf_word("A x y D"), w = vf_word("B"); It r = c->erase_after(e.it(x), e.it(y), (Sz)vf_len(w)); e.expect(c, q); vf_expect_samep(&*r, y, "content:erase_after returns the end of the range"); }
  static void erase_after_tail_n() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); int q = vf_word("A x"), w = vf_word("B"); c->erase_after(e.it(x), c->cend(), (Sz)vf_len(w)); e.expect(c, q); }
  static void erase1() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); int q = vf_word("A y B"); It r = c->erase(e.it(x)); e.expect(c, q); e.detached(x); vf_expect_samep(&*r, y, "content:erase returns the next element"); }
  static void erase_last() { ARG; T *x = e.raw("x"); e.fill(c, "A x"); int q = vf_word("A"); It r = c->erase(e.it(x)); e.expect(c, q); e.detached(x); vf_expect(r == c->end(), "content:erase returns the next element"); }
  static void erase_range() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q = vf_word("A y D"); It r = c->erase(e.it(x), e.it(y)); e.expect(c, q); e.detached(x); vf_expect_samep(&*r, y, "content:erase(range)"); }
  static void erase_tail() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); int q = vf_word("A"); It r = c->erase(e.it(x), c->cend()); e.expect(c, q); vf_expect(r == c->end(), "content:erase(range)"); }
  static void erase_n() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q = vf_word("A y D"), w = vf_word("x B"); c->erase(e.it(x), e.it(y), (Sz)vf_len(w)); e.expect(c, q); }
  static void erase_after_d() { ARG; T *x = e.raw("x"); e.raw("y"); e.fill(c, "A x y B"); int q = vf_word("A x B"); Disp<L> d = {vf_bag("y")}; c->erase_after_and_dispose(e.it(x), d); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_after_range_d() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q = vf_word("A x y D"); Disp<L> d = {vf_bag("B")}; It r = c->erase_after_and_dispose(e.it(x), e.it(y), d); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); vf_expect_samep(&*r, y, "content:erase_after_and_dispose(range)"); }
  static void erase_after_tail_d() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); int q = vf_word("A x"); Disp<L> d = {vf_bag("B")}; c->erase_after_and_dispose(e.it(x), c->cend(), d); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_d() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); int q = vf_word("A y B"); Disp<L> d = {vf_bag("x")}; It r = c->erase_and_dispose(e.it(x), d); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); vf_expect_samep(&*r, y, "content:erase_and_dispose returns the next element"); }
  static void erase_range_d() { ARG; T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q = vf_word("A y D"); Disp<L> d = {vf_bag("x B")}; It r = c->erase_and_dispose(CIt(e.it(x)), CIt(e.it(y)), d); e.expect(c, q); vf_expect_bag_empty(d.bag, "dispose"); vf_expect_samep(&*r, y, "content:erase_and_dispose(range)"); }
  static void clear() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); c->clear(); e.expectS(c, ""); e.detached(x); }
  static void clear_d() { ARG; e.fill(c, "A"); Disp<L> d = {vf_bag("A")}; c->clear_and_dispose(d); e.expectS(c, ""); vf_expect_bag_empty(d.bag, "dispose"); }
  static void splice_after_all() { ARG; L *d = e.make("d"); T *x = e.raw("x"); e.fill(c, "A x B"); e.fill(d, "C"); int q = vf_word("A x C B"); c->splice_after(e.it(x), *d); e.expect(c, q); e.expectS(d, ""); }
  static void splice_after_all_l() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *z = e.raw("z"); e.fill(c, "A x B"); e.fill(d, "C z"); int q = vf_word("A x C z B"); CIt l; c->splice_after(e.it(x), *d, &l); e.expect(c, q); e.expectS(d, ""); vf_expect_samep(&*l, z, "content:splice_after reports the last transferred element"); }
  static void splice_after_all_bb() { ARG; L *d = e.make("d"); e.fill(c, "A"); e.fill(d, "C"); int q = vf_word("C A"); c->splice_after(c->cbefore_begin(), *d); e.expect(c, q); e.expectS(d, ""); }
  static void splice_after_one() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *p = e.raw("p"); e.raw("v"); e.fill(c, "A x B"); e.fill(d, "C p v D"); int q = vf_word("A x v B"), r = vf_word("C p D"); c->splice_after(e.it(x), *d, e.it(p)); e.expect(c, q); e.expect(d, r); }
  static void splice_after_one_bb() { ARG; L *d = e.make("d"); e.raw("v"); e.fill(c, "A"); e.fill(d, "v D"); int q = vf_word("v A"), r = vf_word("D"); c->splice_after(c->cbefore_begin(), *d, d->cbefore_begin()); e.expect(c, q); e.expect(d, r); }
  static void splice_after_one_self() { ARG; T *x = e.raw("x"), *p = e.raw("p"); e.raw("v"); e.fill(c, "A x B p v D"); int q = vf_word("A x v B p D"); c->splice_after(e.it(x), *c, e.it(p)); e.expect(c, q); }
  static void splice_after_one_self_back() { ARG; T *x = e.raw("x"), *p = e.raw("p"); e.raw("v"); e.fill(c, "A p v B x D"); int q = vf_word("A p B x v D"); c->splice_after(e.it(x), *c, e.it(p)); e.expect(c, q); }
  static void splice_after_one_noop() { ARG; T *p = e.raw("p"), *v = e.raw("v"); e.fill(c, "A p v D"); int q = vf_word("A p v D"); c->splice_after(e.it(p), *c, e.it(p)); e.expect(c, q); c->splice_after(e.it(v), *c, e.it(p)); e.expect(c, q); }
  static void splice_after_range() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *p = e.raw("p"), *l = e.raw("l"); e.raw("f"); e.fill(c, "A x B"); e.fill(d, "C p f D l F"); int q = vf_word("A x f D l B"), r = vf_word("C p F"); c->splice_after(e.it(x), *d, e.it(p), e.it(l)); e.expect(c, q); e.expect(d, r); }
  static void splice_after_range_n() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *p = e.raw("p"), *l = e.raw("l"); e.raw("f"); e.fill(c, "A x B"); e.fill(d, "C p f D l F"); int q = vf_word("A x f D l B"), r = vf_word("C p F"), w = vf_word("f D l"); c->splice_after(e.it(x), *d, e.it(p), e.it(l), (Sz)vf_len(w)); e.expect(c, q); e.expect(d, r); }
  static void splice_all() { ARG; L *d = e.make("d"); T *x = e.raw("x"); e.fill(c, "A x B"); e.fill(d, "C"); int q = vf_word("A C x B"); c->splice(e.it(x), *d); e.expect(c, q); e.expectS(d, ""); }
  static void splice_all_end() { ARG; L *d = e.make("d"); e.fill(c, "A"); e.fill(d, "C"); int q = vf_word("A C"); c->splice(c->cend(), *d); e.expect(c, q); e.expectS(d, ""); }
  static void splice_one() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A x B"); e.fill(d, "C v D"); int q = vf_word("A v x B"), r = vf_word("C D"); c->splice(e.it(x), *d, e.it(v)); e.expect(c, q); e.expect(d, r); }
  static void splice_range() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *f = e.raw("f"), *l = e.raw("l"); e.fill(c, "A x B"); e.fill(d, "C f D l F"); int q = vf_word("A f D x B"), r = vf_word("C l F"); c->splice(e.it(x), *d, e.it(f), e.it(l)); e.expect(c, q); e.expect(d, r); }
  static void splice_range_n() { ARG; L *d = e.make("d"); T *x = e.raw("x"), *f = e.raw("f"), *l = e.raw("l"); e.fill(c, "A x B"); e.fill(d, "C f D l F"); int q = vf_word("A f D x B"), r = vf_word("C l F"), w = vf_word("f D"); c->splice(e.it(x), *d, e.it(f), e.it(l), (Sz)vf_len(w)); e.expect(c, q); e.expect(d, r); }
  static void swap_m() { ARG; L *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q = vf_word("B"), r = vf_word("A"); c->swap(*d); e.expect(c, q); e.expect(d, r); }
  static void fswap() { ARG; L *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q = vf_word("B"), r = vf_word("A"); swap(*c, *d); e.expect(c, q); e.expect(d, r); }
  static void move_ctor() { ARG; e.fill(c, "A"); int q = vf_word("A"); L *d = new (vf_obj(sizeof(L), "d")) L(boost::move(*c)); vf_header(e.hdr(d), e.k); e.expect(d, q); e.expectS(c, ""); }
  static void move_assign() { ARG; L *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q = vf_word("A"); *d = boost::move(*c); e.expect(d, q); e.expectAny(c); }
  static void dtor() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); c->~L(); e.detached(x); }
  static void reverse() { ARG; int w = e.fill(c, "A"); w = vf_wrev(w); c->reverse(); e.expect(c, w); }
  static void shift_backwards() { ARG; e.raw("x"); e.fill(c, "A x"); int q = vf_word("x A"); c->shift_backwards(); e.expect(c, q); }
  static void shift_forward() { ARG; e.raw("x"); e.fill(c, "x A"); int q = vf_word("A x"); c->shift_forward(); e.expect(c, q); }
  static void shift_n() { ARG; e.raw("x"); e.raw("y"); e.raw("z"); e.fill(c, "x y z"); int q = vf_word("y z x"), r = vf_word("x y z"); c->shift_backwards(2); e.expect(c, q); c->shift_forward(5); e.expect(c, r); c->shift_forward(0); e.expect(c, r); c->shift_backwards(3); e.expect(c, r); }
  static void remove_if() { ARG; int w = e.fill(c, "A"); int k = vf_wmod(w, 1, 0); vf_wdead(w); c->remove_if(UPred()); e.expect(c, k); }
  static void remove_if_det() { ARG; T *x = e.raw("x"); e.fill(c, "A x B"); int k = vf_word("x"); k = vf_wmod(k, 1, 0); c->remove_if(UPred()); e.expectAny(c); if (vf_len(k) == 0) e.detached(x); }
  static void remove_if_d() { ARG; int w = e.fill(c, "A"); int k = vf_wmod(w, 1, 0); Disp<L> d = {vf_wmod(w, 2, 1)}; vf_wdead(w); c->remove_and_dispose_if(UPred(), d); e.expect(c, k); vf_expect_bag_empty(d.bag, "dispose"); }
  static void remove_if_throw() { ARG; int w = e.fill(c, "A"); int b = vf_wbag(w); vf_wdead(w); vf_throws(1); try { c->remove_if(UPred()); } catch (...) { vf_throws(0); e.expect(c, b, true); } }
  static void remove_if_d_throw() { ARG; int w = e.fill(c, "A"); int b = vf_wbag(w); Disp<L> d = {vf_wmod(w, 2, 1)}; vf_wdead(w); vf_throws(1); try { c->remove_and_dispose_if(UPred(), d); } catch (...) { vf_throws(0); e.expect(c, b, true); } }
  static void unique() { ARG; e.raw("x"); e.fill(c, "x A"); int w = vf_word("x keep:A"); c->unique(UBPred()); e.expect(c, w); }
  static void unique_d() { ARG; e.raw("x"); e.fill(c, "x A"); int w = vf_word("x keep:A"); Disp<L> d = {vf_bag("drop:A")}; c->unique_and_dispose(UBPred(), d); e.expect(c, w); vf_expect_bag_empty(d.bag, "dispose"); }
  struct DispAny { void operator()(T *p) const { if (E::safe) vf_expect(L::node_algorithms::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked"); vf_kill(p); } };
  static void unique_op() { ARG; e.fill(c, "A"); c->unique(); e.expectAny(c); }
  static void unique_op_d() { ARG; e.fill(c, "A"); c->unique_and_dispose(DispAny()); e.expectAny(c); }
  static void unique_throw() { ARG; e.raw("x"); e.fill(c, "x A"); vf_throws(1); try { c->unique(UBPred()); } catch (...) { vf_throws(0); e.expectAny(c); } }
  static void unique_d_throw() { ARG; e.raw("x"); e.fill(c, "x A"); vf_throws(1); try { c->unique_and_dispose(UBPred(), DispAny()); } catch (...) { vf_throws(0); e.expectAny(c); } }
  static void remove_val() { ARG; e.fill(c, "A"); T *v = e.raw("v"); c->remove(*v); e.expectAny(c); }
  static void remove_val_d() { ARG; e.fill(c, "A"); T *v = e.raw("v"); c->remove_and_dispose(*v, DispAny()); e.expectAny(c); }
  static void merge() { ARG; L *d = e.make("d"); int a = e.fill(c, "A"), b = e.fill(d, "B"); int w = vf_wbag(vf_wcat(a, b)); vf_wdead(a); vf_wdead(b); c->merge(*d, ULess()); e.expect(c, w, true); e.expectS(d, ""); }
  static void merge_throw() { ARG; L *d = e.make("d"); int a = e.fill(c, "A"), b = e.fill(d, "B"); int w = vf_wbag(vf_wcat(a, b)); vf_wdead(a); vf_wdead(b); vf_throws(1);
    try { c->merge(*d, ULess()); } catch (...) { vf_throws(0); e.expectAny(c); e.expectAny(d); int r = vf_wbag(vf_wcat(vf_ring_word(e.hdr(c), e.k, e.lin), vf_ring_word(e.hdr(d), e.k, e.lin))); vf_expect_bag_same(r, w, "content"); } }
  static void clone() { ARG; L *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); Disp<L> dp = {vf_bag("A")}; int cl = vf_wmod(w, 3, 0); c->clone_from(*(const L *)d, Clone<L>(), dp); e.expect(c, cl); e.expect(d, w); vf_expect_bag_empty(dp.bag, "dispose"); }
  static void clone_rv() { ARG; L *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); Disp<L> dp = {vf_bag("A")}; int cl = vf_wmod(w, 3, 0); c->clone_from(boost::move(*d), Clone<L>(), dp); e.expect(c, cl); e.expect(d, w); vf_expect_bag_empty(dp.bag, "dispose"); }
  static void clone_throw() { ARG; L *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); vf_throws(1); try { c->clone_from(*(const L *)d, Clone<L>(), DispAny()); } catch (...) { vf_throws(0); e.expectS(c, ""); e.expect(d, w); } }
  static void sort3() { ARG; e.raw("x"); e.raw("y"); e.raw("z"); int w = e.fill(c, "x y z"); int b = vf_wbag(w); c->sort(ULess()); e.expect(c, b, true); }
  static void sort01() { ARG; c->sort(ULess()); e.expectS(c, ""); T *x = e.elem("x"); int q = vf_word("x"); c->push_front(*x); c->sort(ULess()); e.expect(c, q); }
  static void check() { ARG; int w = e.fill(c, "A"); c->check(); e.expect(c, w); }
  static void equal() { ARG; L *d = e.make("d"); int w = e.fill(c, "A"), v = e.fill(d, "B"); bool r = *c == *d; (void)r; r = *c < *d; (void)r; e.expect(c, w); e.expect(d, v); }
};

#define INST1(cfg, L, op) extern "C" void spec_slist_##cfg##_##op() { S<L>::op(); }
#define ALL(X) X(ctor) X(push_front) X(push_back) X(pop_front) X(pop_front_d) X(observers) X(last_reaches_end) X(size) X(iterate) X(previous_end) X(insert_after) X(insert_after_bb) X(insert_after_range) X(insert_before) X(insert_end) \
  X(insert_range) X(insert_range_end) X(assign) X(ctor_range) X(erase_after1) X(erase_after_bb) X(erase_after_range) X(erase_after_tail) X(erase_after_n) X(erase_after_tail_n) X(erase1) X(erase_last) X(erase_range) X(erase_tail) \
  X(erase_n) X(erase_after_d) X(erase_after_range_d) X(erase_after_tail_d) X(erase_d) X(erase_range_d) X(clear) X(clear_d) X(splice_after_all) X(splice_after_all_l) X(splice_after_all_bb) X(splice_after_one) X(splice_after_one_bb) \
  X(splice_after_one_self) X(splice_after_one_self_back) X(splice_after_one_noop) X(splice_after_range) X(splice_after_range_n) X(splice_all) X(splice_all_end) X(splice_one) X(splice_range) X(splice_range_n) \
  X(swap_m) X(fswap) X(move_ctor) X(move_assign) X(dtor) X(reverse) X(shift_backwards) X(shift_forward) X(shift_n) X(remove_if) X(remove_if_det) X(remove_if_d) X(remove_if_throw) X(remove_if_d_throw) \
  X(unique) X(unique_d) X(unique_op) X(unique_throw) X(unique_d_throw) X(remove_val) X(remove_val_d) X(merge) X(merge_throw) X(clone) X(clone_rv) X(clone_throw) X(sort3) X(sort01) X(check) X(equal) X(dispose_and_assign) X(unique_op_d)
typedef slist<Elem<safe_link>, constant_time_size<true> > L_safe;
typedef slist<Elem<normal_link>, constant_time_size<false> > L_norm_ls;
typedef slist<Elem<safe_link>, constant_time_size<true>, linear<true> > L_lin;
typedef slist<Elem<safe_link>, constant_time_size<true>, cache_last<true> > L_last;
typedef slist<Elem<normal_link>, constant_time_size<false>, linear<true>, cache_last<true> > L_linlast;
#define I_safe(op) INST1(safe, L_safe, op)
#define I_ls(op) INST1(ls, L_norm_ls, op)
#define I_lin(op) INST1(lin, L_lin, op)
#define I_last(op) INST1(last, L_last, op)
#define I_linlast(op) INST1(linlast, L_linlast, op)
ALL(I_safe) ALL(I_ls) ALL(I_lin) ALL(I_last) ALL(I_linlast)
