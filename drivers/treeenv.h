// Common environment of the tree specifications.
#ifndef TREEENV_H
#define TREEENV_H
#include "vf.h"
#include <boost/intrusive/bstree.hpp>
#include <boost/intrusive/rbtree.hpp>
#include <boost/intrusive/avltree.hpp>
#include <boost/intrusive/treap.hpp>
#include <boost/intrusive/splaytree.hpp>
#include <boost/intrusive/sgtree.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
using namespace boost::intrusive;

template<class Hook> struct TElem : Pad, Hook {
  long value;
  friend bool operator<(const TElem &a, const TElem &b) { return vf_less(&a, &b); }
  friend bool operator==(const TElem &a, const TElem &b) { return vf_equal(&a, &b); }
};
enum TKind { BS, RB, AVL, TREAP, SPLAY, SG };
// balance bookkeeping of the node, discovered by probing the node traits
template<class NT, TKind K> struct Bal { static void fields(int, typename NT::node *) {} };
template<class NT> struct Bal<NT, RB> { static void fields(int k, typename NT::node *n) {
  vf_kind_field(k, 5, vf_probe_off_i((long)NT::get_color(n))); vf_kind_field(k, 6, sizeof(typename NT::color)); vf_kind_field(k, 7, 1);
  vf_kind_field(k, 8, (long)NT::black()); vf_kind_field(k, 9, (long)NT::red()); } };
template<class NT> struct Bal<NT, AVL> { static void fields(int k, typename NT::node *n) {
  vf_kind_field(k, 5, vf_probe_off_i((long)NT::get_balance(n))); vf_kind_field(k, 6, sizeof(typename NT::balance)); vf_kind_field(k, 7, 2);
  vf_kind_field(k, 8, (long)NT::negative()); vf_kind_field(k, 9, (long)NT::zero()); vf_kind_field(k, 10, (long)NT::positive()); } };
template<class NT> struct Bal<NT, TREAP> { static void fields(int k, typename NT::node *) { vf_kind_field(k, 7, 3); } };

template<class L, TKind TK> struct TEnv {
  typedef typename L::value_type T;
  typedef typename L::value_traits VT;
  typedef typename L::node_traits NT;
  typedef typename L::node_algorithms NA;
  typedef typename NT::node node;
  int k;
  long sizeOff;
  static const bool safe = is_safe_autounlink<VT::link_mode>::value;
  TEnv() {
    node *n = (node *)vf_obj(sizeof(node), "probe_node");
    vf_poison(n);
    T *t = (T *)vf_obj(sizeof(T), "probe_elem");
    k = vf_kind_new(1, sizeof(T), vf_diff(VT::to_node_ptr(*t), t));
    vf_kind_field(k, 2, vf_probe_off(NT::get_left(n)));
    vf_kind_field(k, 3, vf_probe_off(NT::get_right(n)));
    vf_kind_field(k, 4, vf_probe_off(NT::get_parent(n)));
    vf_kind_field(k, 11, 0); vf_kind_field(k, 12, sizeof(node));
    Bal<NT, TK>::fields(k, n);
    sizeOff = -1;
    if (L::constant_time_size) {
      L *c = (L *)vf_obj(sizeof(L), "probe_tree");
      vf_poison(c);
      sizeOff = vf_probe_off_i((long)c->size());
    }
  }
  static node *hp(L *c) { return c->end().pointed_node(); }
  L *make(const char *name) {
    L *c = new (vf_obj(sizeof(L), name)) L;
    vf_header(hp(c), k);
    return c;
  }
  T *raw(const char *name) { return (T *)vf_node(k, name); }
  T *elem(const char *name) { T *x = raw(name); if (safe) NA::init(VT::to_node_ptr(*x)); return x; }
  static node *np(T *x) { return VT::to_node_ptr(*x); }
  static typename L::iterator it(T *x) { return L::s_iterator_to(*x); }
  // any tree; containing p, or p before q, at any place
  int fill(L *c, T *p = 0, T *q = 0) {
    int w = vf_tree(hp(c), k, p, q);
    if (L::constant_time_size) vf_store_at(c, sizeOff, vf_len(w), sizeof(typename L::size_type));
    return w;
  }
  void size(L *c, int w) { if (L::constant_time_size) vf_expect_same((long)c->size(), vf_len(w), "size:size() differs from the number of linked elements"); }
  void expect(L *c, int w) { vf_expect_tree(hp(c), k, w, 0, 1); if (w >= 0) size(c, w); }
  int any(L *c) { vf_expect_tree(hp(c), k, -1, 0, 1); int w = vf_tree_word(hp(c), k); size(c, w); return w; }
  void detached(T *x) { if (safe) vf_expect(NA::inited(np(x)), "detach:an element that was removed still looks linked"); }
};
template<class L> struct TDisp {
  typedef typename L::node_algorithms NA;
  int bag;
  void operator()(typename L::value_type *p) const {
    if (is_safe_autounlink<L::value_traits::link_mode>::value) vf_expect(NA::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked");
    vf_bag_remove(bag, p, "dispose");
    vf_kill(p);
  }
};
template<class L> struct TDispAll {
  typedef typename L::node_algorithms NA;
  void operator()(typename L::value_type *p) const {
    if (is_safe_autounlink<L::value_traits::link_mode>::value) vf_expect(NA::inited(L::value_traits::to_node_ptr(*p)), "detach:the disposer received an element that still looks linked");
    vf_kill(p);
  }
};
template<class L> struct TClone {
  typename L::value_type *operator()(const typename L::value_type &x) const {
    typename L::value_type *p = (typename L::value_type *)vf_clone_of(&x);
    if (is_safe_autounlink<L::value_traits::link_mode>::value) L::node_algorithms::init(L::value_traits::to_node_ptr(*p));
    return p;
  }
};
typedef constant_time_size<true> CT;
typedef constant_time_size<false> NCT;
// configurations
#define HOOK(h, m) TElem<h<link_mode<m> > >
typedef bstree<HOOK(bs_set_base_hook, safe_link), CT> L_bs; typedef bstree<HOOK(bs_set_base_hook, normal_link), CT> L_bsn; typedef bstree<HOOK(bs_set_base_hook, auto_unlink), NCT> L_bsa;
typedef rbtree<HOOK(set_base_hook, safe_link), CT> L_rb; typedef rbtree<HOOK(set_base_hook, normal_link), NCT> L_rbn; typedef rbtree<HOOK(set_base_hook, auto_unlink), NCT> L_rba;
typedef avltree<HOOK(avl_set_base_hook, safe_link), CT> L_avl; typedef avltree<HOOK(avl_set_base_hook, normal_link), NCT> L_avln; typedef avltree<HOOK(avl_set_base_hook, auto_unlink), NCT> L_avla;
typedef treap<HOOK(bs_set_base_hook, safe_link), priority<UPrio>, CT> L_tr;
typedef splaytree<HOOK(bs_set_base_hook, safe_link), CT> L_sp;
typedef sgtree<HOOK(bs_set_base_hook, safe_link)> L_sg;
#endif
