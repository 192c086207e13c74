// Node algorithms of the search trees: what the containers do not expose.
#include "treeenv.h"
template<class L, TKind TK> struct S {
  typedef TEnv<L, TK> E;
  typedef typename E::T T;
  typedef typename E::NA A;
  typedef typename E::node N;
  // swap_nodes: both in one tree, in either order, or in two trees, or the same node
  static void sw_pq() { E e; L *c = e.make("c"); T *p = e.raw("p"), *q = e.raw("q"); int w = e.fill(c, p, q); int n = vf_wcat(vf_wcat(vf_wsub(w, 0, p), vf_word("q")), vf_wcat(vf_wcat(mid(w, p, q), vf_word("p")), tail(w, q))); vf_wdead(w); A::swap_nodes(e.np(p), e.np(q)); e.expect(c, n); }
  static void sw_qp() { E e; L *c = e.make("c"); T *p = e.raw("p"), *q = e.raw("q"); int w = e.fill(c, p, q); int n = vf_wcat(vf_wcat(vf_wsub(w, 0, p), vf_word("q")), vf_wcat(vf_wcat(mid(w, p, q), vf_word("p")), tail(w, q))); vf_wdead(w); A::swap_nodes(e.np(q), e.np(p)); e.expect(c, n); }
  static void swh_pq() { E e; L *c = e.make("c"); T *p = e.raw("p"), *q = e.raw("q"); int w = e.fill(c, p, q); int n = vf_wcat(vf_wcat(vf_wsub(w, 0, p), vf_word("q")), vf_wcat(vf_wcat(mid(w, p, q), vf_word("p")), tail(w, q))); vf_wdead(w); A::swap_nodes(e.np(p), e.hp(c), e.np(q), e.hp(c)); e.expect(c, n); }
  static void sw2() { E e; L *c = e.make("c"), *d = e.make("d"); T *p = e.raw("p"), *q = e.raw("q"); int a = e.fill(c, p), b = e.fill(d, q); vf_winsert(a, q, p); vf_werase(a, p); vf_winsert(b, p, q); vf_werase(b, q); A::swap_nodes(e.np(p), e.np(q)); e.expect(c, a); e.expect(d, b); }
  static void swh2() { E e; L *c = e.make("c"), *d = e.make("d"); T *p = e.raw("p"), *q = e.raw("q"); int a = e.fill(c, p), b = e.fill(d, q); vf_winsert(a, q, p); vf_werase(a, p); vf_winsert(b, p, q); vf_werase(b, q); A::swap_nodes(e.np(p), e.hp(c), e.np(q), e.hp(d)); e.expect(c, a); e.expect(d, b); }
  static void sw_self() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); A::swap_nodes(e.np(p), e.np(p)); e.expect(c, w); }
  static int mid(int w, T *p, T *q) { int m = vf_wsub(w, p, q); vf_werase(m, p); return m; }
  static int tail(int w, T *q) { int m = vf_wsub(w, q, 0); vf_werase(m, q); return m; }
  static void repl() { E e; L *c = e.make("c"); T *p = e.raw("p"), *v = e.elem("v"); int w = e.fill(c, p); vf_winsert(w, v, p); vf_werase(w, p); A::replace_node(e.np(p), e.np(v)); e.expect(c, w); }
  static void replh() { E e; L *c = e.make("c"); T *p = e.raw("p"), *v = e.elem("v"); int w = e.fill(c, p); vf_winsert(w, v, p); vf_werase(w, p); A::replace_node(e.np(p), e.hp(c), e.np(v)); e.expect(c, w); }
  static void szfix(E &e, L *c, int w) { vf_expect_tree(e.hp(c), e.k, w, 0, 1); }
  static void unlink() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); vf_werase(w, p); A::unlink(e.np(p)); szfix(e, c, w); }
  static void erase() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); vf_werase(w, p); A::erase(e.hp(c), e.np(p)); szfix(e, c, w); }
  static void size() { E e; L *c = e.make("c"); int w = e.fill(c); vf_expect_same((long)A::size(e.hp(c)), vf_len(w), "content:size(header)"); e.expect(c, w); }
  static void queries() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p);
    vf_expect(!A::unique(e.np(p)), "content:unique() on a linked node");
    vf_expect(A::is_header(e.hp(c)), "content:is_header(header)"); vf_expect(!A::is_header(e.np(p)), "content:is_header(node)");
    vf_expect_samep(A::end_node(e.hp(c)), e.hp(c), "content:end_node"); e.expect(c, w); }
  static void get_header() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); vf_expect_samep(A::get_header(e.np(p)), e.hp(c), "content:get_header(node)"); e.expect(c, w); }
  static void root() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); N *r = A::root_node(e.hp(c)); vf_expect_samep(E::NT::get_parent(r), e.hp(c), "content:root_node()"); vf_expect(!A::is_header(r), "content:root_node() is the header"); e.expect(c, w); }
  static void swap_tree() { E e; L *c = e.make("c"), *d = e.make("d"); int a = e.fill(c), b = e.fill(d); A::swap_tree(e.hp(c), e.hp(d)); szfix(e, c, b); szfix(e, d, a); }
  static void swap_tree_self() { E e; L *c = e.make("c"); int a = e.fill(c); A::swap_tree(e.hp(c), e.hp(c)); szfix(e, c, a); }
  struct NDisp { int bag; void operator()(N *n) const { vf_bag_remove(bag, boost::intrusive::pointer_traits<typename L::pointer>::pointer_to(*E::VT::to_value_ptr(n)), "dispose"); vf_kill(&*E::VT::to_value_ptr(n)); } };
  static void clear_d() { E e; L *c = e.make("c"); int w = e.fill(c); int b = vf_wbag(w); vf_wdead(w); NDisp d = {b}; A::clear_and_dispose(e.hp(c), d); int z = vf_word(""); szfix(e, c, z); vf_expect_bag_empty(b, "dispose"); }
  static void insert_before() { E e; L *c = e.make("c"); T *p = e.raw("p"), *v = e.elem("v"); int w = e.fill(c, p); vf_winsert(w, v, p); A::insert_before(e.hp(c), e.np(p), e.np(v)); szfix(e, c, w); }
  static void insert_end() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); vf_winsert(w, v, 0); A::insert_before(e.hp(c), e.hp(c), e.np(v)); szfix(e, c, w); }
  static void push_back() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); vf_winsert(w, v, 0); A::push_back(e.hp(c), e.np(v)); szfix(e, c, w); }
  static void push_front() { E e; L *c = e.make("c"); T *v = e.elem("v"); int w = e.fill(c); int n = vf_wcat(vf_word("v"), w); vf_wdead(w); A::push_front(e.hp(c), e.np(v)); szfix(e, c, n); }
  struct NPrio { bool operator()(N *a, N *b) const { return vf_prio(&*E::VT::to_value_ptr(a), &*E::VT::to_value_ptr(b)); } };
  static void t_erase() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); vf_werase(w, p); A::erase(e.hp(c), e.np(p), NPrio()); szfix(e, c, w); }
  static void t_unlink() { E e; L *c = e.make("c"); T *p = e.raw("p"); int w = e.fill(c, p); vf_werase(w, p); A::unlink(e.np(p), NPrio()); szfix(e, c, w); }
};
#define INST1(cfg, L, TK, op) extern "C" void spec_talgo_##cfg##_##op() { S<L, TK>::op(); }
#define COMMON(X) X(size) X(queries) X(get_header) X(root) X(swap_tree) X(swap_tree_self) X(clear_d) X(sw_pq) X(sw_qp) X(swh_pq) X(sw2) X(swh2) X(sw_self) X(repl) X(replh)
#define MOD(X) X(unlink) X(erase) X(insert_before) X(insert_end) X(push_back) X(push_front)
#define I_bs(op) INST1(bs, L_bs, BS, op)
#define I_rb(op) INST1(rb, L_rb, RB, op)
#define I_avl(op) INST1(avl, L_avl, AVL, op)
#define I_tr(op) INST1(tr, L_tr, TREAP, op)
#define I_sp(op) INST1(sp, L_sp, SPLAY, op)
#define I_sg(op) INST1(sg, L_sg, SG, op)
COMMON(I_bs) MOD(I_bs)
COMMON(I_rb) MOD(I_rb)
COMMON(I_avl) MOD(I_avl)
I_tr(size) I_tr(root) I_tr(swap_tree) I_tr(clear_d) I_tr(t_erase) I_tr(t_unlink)
I_sp(size) I_sp(root) I_sp(swap_tree) I_sp(clear_d) I_sp(sw_pq) I_sp(repl)
I_sg(size) I_sg(root) I_sg(swap_tree) I_sg(clear_d) I_sg(sw_pq) I_sg(repl)
