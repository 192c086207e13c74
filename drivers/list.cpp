#include "vf.h"
#include <boost/intrusive/list.hpp>
using namespace boost::intrusive;

template<link_mode_type LM> struct Elem : Pad, list_base_hook<link_mode<LM> > {
  long value;
  friend bool operator<(const Elem &a, const Elem &b) { return vf_less(&a, &b); }
  friend bool operator==(const Elem &a, const Elem &b) { return vf_equal(&a, &b); }
};

template<class L> struct Env {
  typedef typename L::value_type T;
  typedef typename L::value_traits VT;
  typedef typename L::node_traits NT;
  typedef typename L::node_algorithms NA;
  typedef typename NT::node node;
  int k;
  long sizeOff;
  static const bool safe = is_safe_autounlink<VT::link_mode>::value;
  Env() {
    node *n = (node *)vf_obj(sizeof(node), "probe_node");
    vf_poison(n);
    T *t = (T *)vf_obj(sizeof(T), "probe_elem");
    long no = vf_diff(VT::to_node_ptr(*t), t);
    k = vf_kind_new(0, sizeof(T), no);
    vf_kind_field(k, 0, vf_probe_off(NT::get_next(n)));
    vf_kind_field(k, 1, vf_probe_off(NT::get_previous(n)));
    vf_kind_field(k, 11, 0); vf_kind_field(k, 12, sizeof(node));
    sizeOff = -1;
    if (L::constant_time_size) {
      L *c = (L *)vf_obj(sizeof(L), "probe_list");
      vf_poison(c);
      sizeOff = vf_probe_off_i((long)c->size());
    }
  }
  L *make(const char *name) {
    L *c = new (vf_obj(sizeof(L), name)) L;
    vf_header(c->end().pointed_node(), k);
    return c;
  }
  T *elem(const char *name) { T *x = (T *)vf_node(k, name); init(x); return x; }
  T *raw(const char *name) { return (T *)vf_node(k, name); }
  void init(T *x) { if (safe) NA::init(VT::to_node_ptr(*x)); }
  static node *np(T *x) { return VT::to_node_ptr(*x); }
  static typename L::iterator it(T *x) { return L::s_iterator_to(*x); }
  int fill(L *c, const char *txt) {
    int w = vf_ring(c->end().pointed_node(), k, 0, txt);
    if (L::constant_time_size) vf_store_at(c, sizeOff, vf_len(w), 8);
    return w;
  }
  void expect(L *c, int w, bool bag = false) {
    vf_expect_ring(c->end().pointed_node(), k, 0, w, bag);
    if (L::constant_time_size && w >= 0) vf_expect_same((long)c->size(), vf_len(w), "size:size() differs from the number of linked elements");
  }
  void expectS(L *c, const char *txt) { expect(c, vf_word(txt)); }
  void detached(T *x) { if (safe) vf_expect(NA::inited(np(x)), "detach:an element that was removed still looks linked"); }
};
template<class L> struct Disp {
  int bag;
  void operator()(typename L::value_type *p) const {
    if (Env<L>::safe) vf_expect(L::node_algorithms::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked");
    vf_bag_remove(bag, p, "dispose");
    vf_kill(p);
  }
};
template<class L> struct Clone {
  typename L::value_type *operator()(const typename L::value_type &x) const {
    typename L::value_type *p = (typename L::value_type *)vf_clone_of(&x);
    if (Env<L>::safe) L::node_algorithms::init(L::value_traits::to_node_ptr(*p));
    return p;
  }
};

template<class L> struct S {
  typedef Env<L> E;
  typedef typename E::T T;
  typedef typename L::iterator It;
  static void ctor() { E e; L *c = e.make("c"); e.expectS(c, ""); vf_expect(c->empty(), "content:a new list is not empty"); vf_expect(c->begin() == c->end(), "content:begin()!=end()"); }
  static void push_front() { E e; L *c = e.make("c"); e.fill(c, "A"); T *v = e.elem("v"); int q0 = vf_word("v A"); c->push_front(*v); e.expect(c, q0); }
  static void push_back() { E e; L *c = e.make("c"); e.fill(c, "A"); T *v = e.elem("v"); int q0 = vf_word("A v"); c->push_back(*v); e.expect(c, q0); }
  static void pop_front() { E e; L *c = e.make("c"); T *v = e.raw("v"); e.fill(c, "v A"); int q0 = vf_word("A"); c->pop_front(); e.expect(c, q0); e.detached(v); }
  static void pop_back() { E e; L *c = e.make("c"); T *v = e.raw("v"); e.fill(c, "A v"); int q0 = vf_word("A"); c->pop_back(); e.expect(c, q0); e.detached(v); }
  static void pop_front_d() { E e; L *c = e.make("c"); e.raw("v"); e.fill(c, "v A"); int q0 = vf_word("A"); Disp<L> d = {vf_bag("v")}; c->pop_front_and_dispose(d); e.expect(c, q0); vf_expect_bag_empty(d.bag, "dispose"); }
  static void pop_back_d() { E e; L *c = e.make("c"); e.raw("v"); e.fill(c, "A v"); int q0 = vf_word("A"); Disp<L> d = {vf_bag("v")}; c->pop_back_and_dispose(d); e.expect(c, q0); vf_expect_bag_empty(d.bag, "dispose"); }
  static void observers() {
    E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); int w = e.fill(c, "x A y");
    vf_expect_samep(&c->front(), x, "content:front()"); vf_expect_samep(&c->back(), y, "content:back()");
    const L &k = *c;
    vf_expect_samep(&k.front(), x, "content:front() const"); vf_expect_samep(&k.back(), y, "content:back() const");
    vf_expect_samep(&*c->begin(), x, "content:begin()"); vf_expect_samep(&*--c->end(), y, "content:--end()");
    vf_expect_samep(&*k.cbegin(), x, "content:cbegin()"); vf_expect_samep(&*c->rbegin(), y, "content:rbegin()"); vf_expect_samep(&*--c->rend(), x, "content:--rend()");
    vf_expect_samep(&*k.crbegin(), y, "content:crbegin()"); vf_expect_samep(&*--k.rend(), x, "content:--rend() const");
    vf_expect(!c->empty(), "content:empty() on a non-empty list");
    vf_expect_samep(&L::container_from_end_iterator(c->end()), c, "content:container_from_end_iterator");
    vf_expect_samep(&L::container_from_end_iterator(k.cend()), c, "content:container_from_end_iterator const");
    e.expect(c, w);
  }
  static void size() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); long n = (long)c->size(); vf_expect_same(n, vf_len(w), "size:size() differs from the number of linked elements"); e.expect(c, w); }
  static void iterate() {
    E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); It i = e.it(x);
    vf_expect_samep(&*i, x, "content:iterator_to"); ++i; vf_expect_samep(&*i, y, "content:++"); --i; vf_expect_samep(&*i, x, "content:--");
    It j = i++; vf_expect_samep(&*j, x, "content:post ++"); vf_expect_samep(&*i, y, "content:post ++"); j = i--; vf_expect_samep(&*j, y, "content:post --"); vf_expect_samep(&*i, x, "content:post --");
    typename L::const_iterator ci = c->iterator_to(*(const T *)x); vf_expect_samep(&*ci, x, "content:iterator_to const");
    typename L::reverse_iterator r(c->iterator_to(*y)); vf_expect_samep(&*r, x, "content:reverse iterator");
  }
  static void erase1() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); int q0 = vf_word("A B"); It r = c->erase(e.it(x)); e.expect(c, q0); e.detached(x);
    It n = c->begin(); (void)n; It p = r; if (p != c->end()) { vf_expect(&*p != x, "content:erase returned the erased element"); } }
  static void erase1_ret() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); int q0 = vf_word("A y B"); It r = c->erase(e.it(x)); e.expect(c, q0); vf_expect_samep(&*r, y, "content:erase returns the next element"); }
  static void erase1_d() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x y B"); int q0 = vf_word("A y B"); Disp<L> d = {vf_bag("x")}; It r = c->erase_and_dispose(e.it(x), d); e.expect(c, q0); vf_expect_samep(&*r, y, "content:erase_and_dispose returns the next element"); vf_expect_bag_empty(d.bag, "dispose"); }
  static void erase_range() { E e; L *c = e.make("c"); T *x = e.raw("x"), *m = e.raw("m"), *y = e.raw("y"); e.fill(c, "A x B m C y D"); int q0 = vf_word("A y D"); It r = c->erase(e.it(x), e.it(y)); e.expect(c, q0); vf_expect_samep(&*r, y, "content:erase(range) returns the end of the range"); e.detached(x); e.detached(m); }
  static void erase_empty_range() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); int q0 = vf_word("A x B"); It r = c->erase(e.it(x), e.it(x)); e.expect(c, q0); vf_expect_samep(&*r, x, "content:erase(empty range)"); }
  static void erase_tail() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); int q0 = vf_word("A"); It r = c->erase(e.it(x), c->end()); e.expect(c, q0); vf_expect(r == c->end(), "content:erase(range) returns the end of the range"); }
  static void erase_n() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q0 = vf_word("A y D"); int w = vf_word("x B"); It r = c->erase(e.it(x), e.it(y), (typename L::size_type)vf_len(w)); e.expect(c, q0); vf_expect_samep(&*r, y, "content:erase(range,n)"); }
  static void erase_range_d() { E e; L *c = e.make("c"); T *x = e.raw("x"), *y = e.raw("y"); e.fill(c, "A x B y D"); int q0 = vf_word("A y D"); Disp<L> d = {vf_bag("x B")}; It r = c->erase_and_dispose(e.it(x), e.it(y), d); e.expect(c, q0); vf_expect_samep(&*r, y, "content:erase_and_dispose(range)"); vf_expect_bag_empty(d.bag, "dispose"); }
  static void clear() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); c->clear(); e.expectS(c, ""); e.detached(x); }
  static void clear_d() { E e; L *c = e.make("c"); e.fill(c, "A"); Disp<L> d = {vf_bag("A")}; c->clear_and_dispose(d); e.expectS(c, ""); vf_expect_bag_empty(d.bag, "dispose"); }
  static void insert1() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.elem("v"); e.fill(c, "A x B"); int q0 = vf_word("A v x B"); It r = c->insert(e.it(x), *v); e.expect(c, q0); vf_expect_samep(&*r, v, "content:insert returns the inserted element"); }
  static void insert_end() { E e; L *c = e.make("c"); T *v = e.elem("v"); e.fill(c, "A"); int q0 = vf_word("A v"); It r = c->insert(c->end(), *v); e.expect(c, q0); vf_expect_samep(&*r, v, "content:insert returns the inserted element"); }
  struct Src { T *a, *b; int i; T &operator*() const { return i == 0 ? *a : *b; } Src &operator++() { ++i; return *this; } bool operator!=(const Src &o) const { return i != o.i; } bool operator==(const Src &o) const { return i == o.i; } };
  static void insert_range() { E e; L *c = e.make("c"); T *x = e.raw("x"), *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A x B"); int q0 = vf_word("A u v x B"); Src b = {u, v, 0}, f = {u, v, 2}; c->insert(e.it(x), b, f); e.expect(c, q0); }
  static void assign() { E e; L *c = e.make("c"); T *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A"); int q0 = vf_word("u v"); Src b = {u, v, 0}, f = {u, v, 2}; c->assign(b, f); e.expect(c, q0); }
  static void dispose_and_assign() { E e; L *c = e.make("c"); T *u = e.elem("u"), *v = e.elem("v"); e.fill(c, "A"); int q0 = vf_word("u v"); Disp<L> d = {vf_bag("A")}; Src b = {u, v, 0}, f = {u, v, 2}; c->dispose_and_assign(d, b, f); e.expect(c, q0); vf_expect_bag_empty(d.bag, "dispose"); }
  static void ctor_range() { E e; T *u = e.elem("u"), *v = e.elem("v"); int q0 = vf_word("u v"); Src b = {u, v, 0}, f = {u, v, 2}; L *c = new (vf_obj(sizeof(L), "c")) L(b, f); vf_header(c->end().pointed_node(), e.k); e.expect(c, q0); }
  static void splice_all() { E e; L *c = e.make("c"), *d = e.make("d"); T *x = e.raw("x"); e.fill(c, "A x B"); e.fill(d, "C"); int q0 = vf_word("A C x B"); c->splice(e.it(x), *d); e.expect(c, q0); e.expectS(d, ""); }
  static void splice_all_end() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); e.fill(d, "C"); int q0 = vf_word("A C"); c->splice(c->end(), *d); e.expect(c, q0); e.expectS(d, ""); }
  static void splice_one() { E e; L *c = e.make("c"), *d = e.make("d"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A x B"); e.fill(d, "C v D"); int q0 = vf_word("A v x B"), q1 = vf_word("C D"); c->splice(e.it(x), *d, e.it(v)); e.expect(c, q0); e.expect(d, q1); }
  static void splice_one_end() { E e; L *c = e.make("c"), *d = e.make("d"); T *v = e.raw("v"); e.fill(c, "A"); e.fill(d, "C v D"); int q0 = vf_word("A v"), q1 = vf_word("C D"); c->splice(c->end(), *d, e.it(v)); e.expect(c, q0); e.expect(d, q1); }
  static void splice_one_self() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A x B v D"); int q0 = vf_word("A v x B D"); c->splice(e.it(x), *c, e.it(v)); e.expect(c, q0); }
  static void splice_one_self_back() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A v B x D"); int q0 = vf_word("A B v x D"); c->splice(e.it(x), *c, e.it(v)); e.expect(c, q0); }
  static void splice_one_before_itself() { E e; L *c = e.make("c"); T *v = e.raw("v"); e.fill(c, "A v B"); int q0 = vf_word("A v B"); c->splice(e.it(v), *c, e.it(v)); e.expect(c, q0); }
  static void splice_one_before_next() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A v x B"); int q0 = vf_word("A v x B"); c->splice(e.it(x), *c, e.it(v)); e.expect(c, q0); }
  static void splice_range() { E e; L *c = e.make("c"), *d = e.make("d"); T *x = e.raw("x"), *v = e.raw("v"), *y = e.raw("y"); e.fill(c, "A x B"); e.fill(d, "C v D y F"); int q0 = vf_word("A v D x B"), q1 = vf_word("C y F"); c->splice(e.it(x), *d, e.it(v), e.it(y)); e.expect(c, q0); e.expect(d, q1); }
  static void splice_range_end() { E e; L *c = e.make("c"), *d = e.make("d"); T *v = e.raw("v"); e.fill(c, "A"); e.fill(d, "C v D"); int q0 = vf_word("A v D"), q1 = vf_word("C"); c->splice(c->end(), *d, e.it(v), d->end()); e.expect(c, q0); e.expect(d, q1); }
  static void splice_range_empty() { E e; L *c = e.make("c"), *d = e.make("d"); T *x = e.raw("x"), *v = e.raw("v"); e.fill(c, "A x B"); e.fill(d, "C v D"); int q0 = vf_word("A x B"), q1 = vf_word("C v D"); c->splice(e.it(x), *d, e.it(v), e.it(v)); e.expect(c, q0); e.expect(d, q1); }
  static void splice_range_n() { E e; L *c = e.make("c"), *d = e.make("d"); T *x = e.raw("x"), *v = e.raw("v"), *y = e.raw("y"); e.fill(c, "A x B"); e.fill(d, "C v D y F"); int q0 = vf_word("A v D x B"), q1 = vf_word("C y F"); int w = vf_word("v D"); c->splice(e.it(x), *d, e.it(v), e.it(y), (typename L::size_type)vf_len(w)); e.expect(c, q0); e.expect(d, q1); }
  static void splice_range_self() { E e; L *c = e.make("c"); T *x = e.raw("x"), *v = e.raw("v"), *y = e.raw("y"); e.fill(c, "A x B v D y F"); int q0 = vf_word("A v D x B y F"); c->splice(e.it(x), *c, e.it(v), e.it(y)); e.expect(c, q0); }
  static void swap_m() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q0 = vf_word("B"), q1 = vf_word("A"); c->swap(*d); e.expect(c, q0); e.expect(d, q1); }
  static void fswap() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q0 = vf_word("B"), q1 = vf_word("A"); swap(*c, *d); e.expect(c, q0); e.expect(d, q1); }
  static void move_ctor() { E e; L *c = e.make("c"); e.fill(c, "A"); int q0 = vf_word("A"); L *d = new (vf_obj(sizeof(L), "d")) L(boost::move(*c)); vf_header(d->end().pointed_node(), e.k); e.expect(d, q0); e.expectS(c, ""); }
  static void move_assign() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); e.fill(d, "B"); int q0 = vf_word("A"); *d = boost::move(*c); e.expect(d, q0); e.expect(c, -1); }
  static void dtor() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); c->~L(); e.detached(x); }
  static void reverse() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); w = vf_wrev(w); c->reverse(); e.expect(c, w); }
  static void shift_fwd() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x"); int q0 = vf_word("x A"); c->shift_backwards(); e.expect(c, q0); (void)x; }
  static void shift_back() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "x A"); int q0 = vf_word("A x"); c->shift_forward(); e.expect(c, q0); (void)x; }
  static void shift_n() { E e; L *c = e.make("c"); e.raw("x"); e.raw("y"); e.fill(c, "x y A"); int q0 = vf_word("A x y"), q1 = vf_word("x y A"); c->shift_forward(2); e.expect(c, q0); c->shift_backwards(2); e.expect(c, q1); c->shift_forward(0); e.expect(c, q1); }
  static void shift_small() { E e; L *c = e.make("c"); e.raw("x"); e.raw("y"); e.fill(c, "x y"); int q0 = vf_word("y x"); c->shift_backwards(3); e.expect(c, q0); L *d = e.make("d"); d->shift_forward(5); d->shift_backwards(2); e.expectS(d, ""); }
  static void remove_if() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); int k = vf_wmod(w, 1, 0); vf_wdead(w); c->remove_if(UPred()); e.expect(c, k); }
  static void remove_if_det() { E e; L *c = e.make("c"); T *x = e.raw("x"); e.fill(c, "A x B"); int k = vf_word("x"); k = vf_wmod(k, 1, 0); c->remove_if(UPred()); e.expect(c, -1); if (vf_len(k) == 0) e.detached(x); }
  static void remove_if_d() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); int k = vf_wmod(w, 1, 0); Disp<L> d = {vf_wmod(w, 2, 1)}; vf_wdead(w); c->remove_and_dispose_if(UPred(), d); e.expect(c, k); vf_expect_bag_empty(d.bag, "dispose"); }
  static void remove_if_throw() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); int b = vf_wbag(w); vf_wdead(w); vf_throws(1); try { c->remove_if(UPred()); } catch (...) { vf_throws(0); e.expect(c, b, true); } }
  static void remove_if_d_throw() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); int b = vf_wbag(w); Disp<L> d = {vf_wmod(w, 2, 1)}; vf_wdead(w); vf_throws(1); try { c->remove_and_dispose_if(UPred(), d); } catch (...) { vf_throws(0); e.expect(c, b, true); } }
  static void unique() { E e; L *c = e.make("c"); e.raw("x"); int w = vf_word("x"); e.fill(c, "x A"); w = vf_word("x keep:A"); c->unique(UBPred()); e.expect(c, w); }
  static void unique_d() { E e; L *c = e.make("c"); e.raw("x"); e.fill(c, "x A"); int w = vf_word("x keep:A"); Disp<L> d = {vf_bag("drop:A")}; c->unique_and_dispose(UBPred(), d); e.expect(c, w); vf_expect_bag_empty(d.bag, "dispose"); }
  static void unique_op() { E e; L *c = e.make("c"); e.fill(c, "A"); c->unique(); e.expect(c, -1); }
  static void unique_op_d() { E e; L *c = e.make("c"); e.fill(c, "A"); struct D { void operator()(T *) const {} } d; c->unique_and_dispose(d); e.expect(c, -1); }
  static void unique_throw() { E e; L *c = e.make("c"); e.raw("x"); e.fill(c, "x A"); vf_throws(1); try { c->unique(UBPred()); } catch (...) { vf_throws(0); e.expect(c, -1); vf_expect_same((long)c->size(), (vf_len(vf_ring_word(c->end().pointed_node(), e.k, 0))), "size:size() differs from the number of linked elements"); } }
  static void remove_val() { E e; L *c = e.make("c"); e.fill(c, "A"); T *v = e.raw("v"); c->remove(*v); e.expect(c, -1); }
  static void merge() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c, "A"), b = e.fill(d, "B"); int w = vf_wbag(vf_wcat(a, b)); vf_wdead(a); vf_wdead(b); c->merge(*d, ULess()); e.expect(c, w, true); e.expectS(d, ""); }
  static void merge_throw() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c, "A"), b = e.fill(d, "B"); int w = vf_wbag(vf_wcat(a, b)); vf_wdead(a); vf_wdead(b); vf_throws(1);
    try { c->merge(*d, ULess()); } catch (...) { vf_throws(0); int r = vf_wbag(vf_wcat(vf_ring_word(c->end().pointed_node(), e.k, 0), vf_ring_word(d->end().pointed_node(), e.k, 0))); vf_expect_bag_same(r, w, "content"); } }
  static void clone() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); Disp<L> dp = {vf_bag("A")}; int cl = vf_wmod(w, 3, 0); c->clone_from(*(const L *)d, Clone<L>(), dp); e.expect(c, cl); e.expect(d, w); vf_expect_bag_empty(dp.bag, "dispose"); }
  static void clone_rv() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); Disp<L> dp = {vf_bag("A")}; int cl = vf_wmod(w, 3, 0); c->clone_from(boost::move(*d), Clone<L>(), dp); e.expect(c, cl); e.expect(d, w); vf_expect_bag_empty(dp.bag, "dispose"); }
  struct DispAll { void operator()(T *p) const { if (E::safe) vf_expect(L::node_algorithms::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked"); vf_kill(p); } };
  static void clone_throw() { E e; L *c = e.make("c"), *d = e.make("d"); e.fill(c, "A"); int w = e.fill(d, "B"); vf_throws(1); try { c->clone_from(*(const L *)d, Clone<L>(), DispAll()); } catch (...) { vf_throws(0); e.expectS(c, ""); e.expect(d, w); } }
  static void sort4() { E e; L *c = e.make("c"); e.raw("x"); e.raw("y"); e.raw("z"); e.raw("u"); int w = e.fill(c, "x y z u"); int b = vf_wbag(w); c->sort(ULess()); e.expect(c, b, true); }
  static void sort01() { E e; L *c = e.make("c"); c->sort(ULess()); e.expectS(c, ""); T *x = e.elem("x"); int q0 = vf_word("x"); c->push_back(*x); c->sort(ULess()); e.expect(c, q0); }
  static void check() { E e; L *c = e.make("c"); int w = e.fill(c, "A"); c->check(); e.expect(c, w); }
  static void equal() { E e; L *c = e.make("c"), *d = e.make("d"); int w = e.fill(c, "A"), v = e.fill(d, "B"); bool r = *c == *d; (void)r; r = *c < *d; (void)r; e.expect(c, w); e.expect(d, v); }
};

#define INST1(cfg, L, op) extern "C" void spec_list_##cfg##_##op() { S<L>::op(); }
#define ALL(X) X(ctor) X(push_front) X(push_back) X(pop_front) X(pop_back) X(pop_front_d) X(pop_back_d) X(observers) X(size) X(iterate) X(erase1) X(erase1_ret) X(erase1_d) X(erase_range) \
  X(erase_empty_range) X(erase_tail) X(erase_n) X(erase_range_d) X(clear) X(clear_d) X(insert1) X(insert_end) X(insert_range) X(assign) X(dispose_and_assign) X(ctor_range) X(splice_all) X(splice_all_end) \
  X(splice_one) X(splice_one_end) X(splice_one_self) X(splice_one_self_back) X(splice_one_before_itself) X(splice_one_before_next) X(splice_range) X(splice_range_end) X(splice_range_empty) \
  X(splice_range_n) X(splice_range_self) X(swap_m) X(fswap) X(move_ctor) X(move_assign) X(dtor) X(reverse) X(shift_fwd) X(shift_back) X(shift_n) X(shift_small) X(remove_if) X(remove_if_det) X(remove_if_d) \
  X(remove_if_throw) X(remove_if_d_throw) X(unique) X(unique_d) X(unique_op) X(unique_op_d) X(unique_throw) X(remove_val) X(merge) X(merge_throw) X(clone) X(clone_rv) X(clone_throw) X(sort4) X(sort01) X(check) X(equal)
typedef list<Elem<safe_link>, constant_time_size<true> > L_safe;
typedef list<Elem<normal_link>, constant_time_size<true> > L_norm;
typedef list<Elem<normal_link>, constant_time_size<false> > L_norm_ls;
typedef list<Elem<auto_unlink>, constant_time_size<false> > L_auto;
#define I_safe(op) INST1(safe, L_safe, op)
#define I_norm(op) INST1(norm, L_norm, op)
#define I_ls(op) INST1(ls, L_norm_ls, op)
#define I_auto(op) INST1(auto, L_auto, op)
ALL(I_safe) ALL(I_norm) ALL(I_ls) ALL(I_auto)
