"""compile-time witnesses for X06: for every rule a program that must be rejected and a twin, differing only in the offending construct, that must be accepted"""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <utility>
using namespace boost::intrusive;
typedef constant_time_size<true> CT; typedef constant_time_size<false> NCT; typedef link_mode<safe_link> SL; typedef link_mode<normal_link> NL; typedef link_mode<auto_unlink> AU;
template<class H> struct E : H { int v; friend bool operator<(const E &a, const E &b) { return a.v < b.v; } friend bool operator==(const E &a, const E &b) { return a.v == b.v; } friend bool priority_order(const E &a, const E &b) { return a.v < b.v; } friend std::size_t hash_value(const E &a) { return a.v; } };
struct Pred { template<class A> bool operator()(const A &) const { return true; } };
struct Disp { template<class A> void operator()(A *) const {} };
struct Clone { template<class A> A *operator()(const A &) const { return 0; } };
'''
W = []
def w(name, common, bad, good): W.append((name, common, bad, good))
use = lambda t: "typedef %s L; typedef L::value_type T; void f(L *c, const L *k, L::iterator i, L::const_iterator ci, T &x) {" % t
inst = "typedef %s L; unsigned long f() { return sizeof(L); } void g(L *p) { p->empty(); }"
SEQ = {"list": "list", "slist": "slist"}
TREES = {"set": "set_base_hook", "multiset": "set_base_hook", "avl_set": "avl_set_base_hook", "avl_multiset": "avl_set_base_hook", "bs_set": "bs_set_base_hook", "bs_multiset": "bs_set_base_hook", "splay_set": "bs_set_base_hook", "splay_multiset": "bs_set_base_hook", "treap_set": "bs_set_base_hook", "treap_multiset": "bs_set_base_hook", "rbtree": "set_base_hook", "avltree": "avl_set_base_hook", "bstree": "bs_set_base_hook", "splaytree": "bs_set_base_hook", "treap": "bs_set_base_hook"}
ALLH = dict(TREES, **{"list": "list_base_hook", "slist": "slist_base_hook", "unordered_set": "unordered_set_base_hook", "unordered_multiset": "unordered_set_base_hook"})
for c, h in sorted(ALLH.items()):
    w("autounlink_ctsize_" + c, "", inst % ("%s<E<%s<AU> >, CT>" % (c, h)), inst % ("%s<E<%s<AU> >, NCT>" % (c, h)))
    w("safelink_ctsize_" + c, "", "int f() { return no_such_name; }", inst % ("%s<E<%s<SL> >, CT>" % (c, h)) + "\n" + (inst % ("%s<E<%s<NL> >, CT>" % (c, h))).replace("f()", "f2()").replace("g(L", "g2(M").replace(" L;", " M;").replace("sizeof(L)", "sizeof(M)"))
for c in ("sg_set", "sg_multiset", "sgtree"):
    w("autounlink_" + c, "", inst % ("%s<E<bs_set_base_hook<AU> > >" % c), inst % ("%s<E<bs_set_base_hook<SL> > >" % c))
for c, h in sorted(dict(ALLH, sg_set="bs_set_base_hook", sg_multiset="bs_set_base_hook", sgtree="bs_set_base_hook").items()):
    t = "%s<E<%s<> > >" % (c, h)
    w("copy_ctor_" + c, use(t), "L d(*k); }", "L d(std::move(*c)); }")
    w("copy_assign_" + c, use(t), "*c = *k; }", "*c = std::move(*c); }")
    w("const_iter_write_" + c, use(t), "(*ci).v = 1; }", "(*i).v = 1; int z = (*ci).v; (void)z; }")
    w("const_iter_arrow_" + c, use(t), "ci->v = 1; }", "i->v = 1; int z = ci->v; (void)z; }")
    w("const_iter_to_iter_" + c, use(t), "i = ci; }", "ci = i; }")
    w("const_iter_ctor_" + c, use(t), "L::iterator j(ci); }", "L::const_iterator j(i); }")
    w("const_begin_" + c, use(t), "i = k->begin(); }", "i = c->begin(); ci = k->begin(); ci = c->begin(); ci = k->cbegin(); }")
    w("const_end_" + c, use(t), "i = k->end(); }", "i = c->end(); ci = k->end(); ci = k->cend(); }")
    w("const_clear_" + c, use(t), "k->clear(); }", "c->clear(); }")
    w("const_swap_" + c, use(t), "c->swap(*k); }", "c->swap(*c); }")
    w("const_iterator_to_" + c, use(t), "const T &y = x; i = c->iterator_to(y); }", "const T &y = x; i = c->iterator_to(x); ci = k->iterator_to(y); }")
    w("const_insert_" + c, use(t), "const T &y = x; c->%s; }" % ("push_front(y)" if c in ("list", "slist") else "insert(y)" if "set" in c else "insert_equal(y)"), "c->%s; }" % ("push_front(x)" if c in ("list", "slist") else "insert(x)" if "set" in c else "insert_equal(x)"))
    w("foreign_type_" + c, use(t) , "struct Other { int v; } o; c->%s; }" % ("push_front(o)" if c in ("list", "slist") else "insert(o)" if "set" in c else "insert_equal(o)"), "c->%s; }" % ("push_front(x)" if c in ("list", "slist") else "insert(x)" if "set" in c else "insert_equal(x)"))
    w("missing_hook_" + c, "struct N { int v; };", inst % ("%s<N>" % c), inst % t)
    ins = "push_front(x)" if c in ("list", "slist") else "insert(x)" if "set" in c else "insert_equal(x)"
    tg = "struct A; struct B; typedef %s<E<%s<tag<A> > >, base_hook<%s<tag<%%s> > > > L; void f(L *c, L::value_type &x) { c->%s; }" % (c, h, h, ins)
    w("wrong_tag_" + c, "", tg % "B", tg % "A")
    if c not in ("list", "slist"):
        other = "list_base_hook"
    else: other = "set_base_hook"
    w("wrong_hook_" + c, use("%s<E<%s<> >, base_hook<%s<> > >" % (c, h, h)).replace(h + "<> >, base", h + "<> >, base"), "L::node_ptr n = (E<%s<> > *)0; (void)n; }" % other, "c->empty(); }")
for c, h in sorted(TREES.items()):
    w("remove_node_ctsize_" + c, "", use("%s<E<%s<> >, CT>" % (c, h)) + "L::remove_node(x); }", use("%s<E<%s<> >, NCT>" % (c, h)) + "L::remove_node(x); }" if "treap" not in c else use("%s<E<%s<> >, NCT>" % (c, h)) + "c->clear(); }")
# singly linked lists
w("slist_autounlink_cache_last", "", inst % "slist<E<slist_base_hook<AU> >, NCT, cache_last<true> >", inst % "slist<E<slist_base_hook<AU> >, NCT, cache_last<false> >")
w("slist_autounlink_linear", "", inst % "slist<E<slist_base_hook<AU> >, NCT, linear<true> >", inst % "slist<E<slist_base_hook<AU> >, NCT, linear<false> >")
for m, a in (("push_back", "c->push_back(x);"), ("back", "c->back();"), ("back_const", "k->back();")):
    w("slist_%s_without_cache_last" % m, "", use("slist<E<slist_base_hook<> >, cache_last<false> >") + a + " }", use("slist<E<slist_base_hook<> >, cache_last<true> >") + a + " }")
w("slist_linear_container_from_end", "", use("slist<E<slist_base_hook<> >, linear<true> >") + "L::container_from_end_iterator(i); }", use("slist<E<slist_base_hook<> >, linear<false> >") + "L::container_from_end_iterator(i); }")
w("slist_linear_container_from_end_const", "", use("slist<E<slist_base_hook<> >, linear<true> >") + "L::container_from_end_iterator(ci); }", use("slist<E<slist_base_hook<> >, linear<false> >") + "L::container_from_end_iterator(ci); }")
for m, a in (("insert_after", "L::s_insert_after(ci, x);"), ("erase_after", "L::s_erase_after(ci);")):
    w("slist_s_%s_ctsize" % m, "", use("slist<E<slist_base_hook<> >, CT>") + a + " }", use("slist<E<slist_base_hook<> >, NCT>") + a + " }")
    w("slist_s_%s_cache_last" % m, "", use("slist<E<slist_base_hook<> >, NCT, cache_last<true> >") + a + " }", use("slist<E<slist_base_hook<> >, NCT>") + a + " }")
w("slist_decrement", use("slist<E<slist_base_hook<> > >"), "--i; }", "++i; }")
w("slist_shift_negative_reverse_iter", use("slist<E<slist_base_hook<> > >"), "k->rbegin(); }", "k->begin(); }")
# unordered
UB = "unordered_set<E<unordered_set_base_hook<%s> >, %s>"
w("uset_compare_hash_without_store_hash", "", inst % (UB % ("store_hash<false>", "compare_hash<true>")), inst % (UB % ("store_hash<true>", "compare_hash<true>")))
w("umset_compare_hash_without_store_hash", "", inst % (UB % ("store_hash<false>", "compare_hash<true>")).replace("unordered_set<", "unordered_multiset<"), inst % (UB % ("store_hash<true>", "compare_hash<true>")).replace("unordered_set<", "unordered_multiset<"))
w("uset_fastmod_power2", "", inst % (UB % ("store_hash<false>", "fastmod_buckets<true>, power_2_buckets<true>")), inst % (UB % ("store_hash<false>", "power_2_buckets<true>")) + "\ntypedef " + UB % ("store_hash<false>", "fastmod_buckets<true>") + " M; bool h(M *m) { return m->empty(); }")
w("uset_fastmod_incremental", "", inst % (UB % ("store_hash<false>", "fastmod_buckets<true>, incremental<true>")), inst % (UB % ("store_hash<false>", "incremental<true>")))
w("uset_cache_begin_autounlink", "", inst % "unordered_set<E<unordered_set_base_hook<AU> >, NCT, cache_begin<true> >", inst % "unordered_set<E<unordered_set_base_hook<AU> >, NCT, cache_begin<false> >")
w("umset_cache_begin_autounlink", "", inst % "unordered_multiset<E<unordered_set_base_hook<AU> >, NCT, cache_begin<true> >", inst % "unordered_multiset<E<unordered_set_base_hook<AU> >, NCT, cache_begin<false> >")
w("uset_incremental_rehash_without_option", "", use(UB % ("store_hash<false>", "incremental<false>")) + "c->incremental_rehash(true); }", use(UB % ("store_hash<false>", "incremental<true>")) + "c->incremental_rehash(true); }")
w("uset_incremental_rehash_buckets_without_option", "", use(UB % ("store_hash<false>", "incremental<false>")) + "L::bucket_type b[4]; c->incremental_rehash(L::bucket_traits(b, 4)); }", use(UB % ("store_hash<false>", "incremental<true>")) + "L::bucket_type b[4]; c->incremental_rehash(L::bucket_traits(b, 4)); }")
w("uset_no_default_ctor", "typedef unordered_set<E<unordered_set_base_hook<> > > L;", "void f() { L l; }", "L::bucket_type b[4]; void f() { L l(L::bucket_traits(b, 4)); }")
w("uset_decrement", use("unordered_set<E<unordered_set_base_hook<> > >"), "--i; }", "++i; }")
w("uset_local_iterator_mix", use("unordered_set<E<unordered_set_base_hook<> > >"), "i = c->begin(1); }", "L::local_iterator l = c->begin(1); (void)l; }")
w("uset_const_local", use("unordered_set<E<unordered_set_base_hook<> > >"), "L::local_iterator l = k->begin(1); (void)l; }", "L::const_local_iterator l = k->begin(1); (void)l; }")
w("uset_const_find", use("unordered_set<E<unordered_set_base_hook<> > >"), "i = k->find(x); }", "ci = k->find(x); i = c->find(x); }")
w("bucket_copy", "typedef unordered_set<E<unordered_set_base_hook<> > > L; typedef L::bucket_type B;", "struct Z { int a; }; void f(Z z) { B b(z); }", "void f() { B b; (void)b; }")
# scapegoat
w("sg_float_balance", "", use("sg_set<E<bs_set_base_hook<> >, floating_point<false> >") + "c->balance_factor(0.7f); }", use("sg_set<E<bs_set_base_hook<> >, floating_point<true> >") + "c->balance_factor(0.7f); }")
# const lookups of trees
for c in ("set", "multiset", "avl_set", "bs_set", "splay_set", "sg_set", "treap_set"):
    t = "%s<E<%s<> > >" % (c, TREES.get(c, "bs_set_base_hook"))
    for m in ("find", "lower_bound", "upper_bound"):
        w("const_%s_%s" % (m, c), use(t), "i = k->%s(x); }" % m, "ci = k->%s(x); i = c->%s(x); }" % (m, m))
    w("const_erase_%s" % c, use(t), "k->erase(ci); }", "c->erase(ci); }")
    w("const_rbegin_%s" % c, use(t), "L::reverse_iterator r = k->rbegin(); (void)r; }", "L::const_reverse_iterator r = k->rbegin(); L::reverse_iterator q = c->rbegin(); (void)r; (void)q; }")
    w("const_container_from_end_%s" % c, use(t), "L &z = L::container_from_end_iterator(ci); (void)z; }", "const L &z = L::container_from_end_iterator(ci); L &y = L::container_from_end_iterator(i); (void)z; (void)y; }")
    w("const_range_%s" % c, use(t), "std::pair<L::iterator, L::iterator> p = k->equal_range(x); (void)p; }", "std::pair<L::const_iterator, L::const_iterator> p = k->equal_range(x); std::pair<L::iterator, L::iterator> q = c->equal_range(x); (void)p; (void)q; }")
for c, h in (("list", "list_base_hook"), ("slist", "slist_base_hook")):
    t = "%s<E<%s<> > >" % (c, h)
    w("const_front_" + c, use(t), "k->front().v = 1; }", "c->front().v = 1; int z = k->front().v; (void)z; }")
    w("const_splice_" + c, use(t), "c->%s(ci, *k); }" % ("splice" if c == "list" else "splice_after"), "c->%s(ci, *c); }" % ("splice" if c == "list" else "splice_after"))
    w("const_merge_" + c, use(t), "c->merge(*k); }", "c->merge(*c); }")
    w("const_reverse_" + c, use(t), "k->reverse(); }", "c->reverse(); }")
    w("const_container_from_end_" + c, use(t), "L &z = L::container_from_end_iterator(ci); (void)z; }", "const L &z = L::container_from_end_iterator(ci); L &y = L::container_from_end_iterator(i); (void)z; (void)y; }")
w("list_const_back", use("list<E<list_base_hook<> > >"), "k->back().v = 1; }", "c->back().v = 1; int z = k->back().v; (void)z; }")
w("list_splice_other_type", use("list<E<list_base_hook<> > >"), "list<E<list_base_hook<NL> > > o; c->splice(ci, o); }", "L o; c->splice(ci, o); }")
w("set_merge_other_value", use("set<E<set_base_hook<> > >"), "set<E<set_base_hook<NL> > > o; c->merge(o); }", "L o; c->merge(o); multiset<E<set_base_hook<> > > m; c->merge(m); }")
# hooks
for h in ("list_base_hook", "list_member_hook", "slist_base_hook", "slist_member_hook", "set_base_hook", "set_member_hook", "avl_set_base_hook", "avl_set_member_hook", "bs_set_base_hook", "bs_set_member_hook", "unordered_set_base_hook", "unordered_set_member_hook"):
    w("unlink_safe_" + h, "", "void f(%s<SL> *h) { h->unlink(); }" % h, "void f(%s<AU> *h) { h->unlink(); }" % h)
    w("unlink_normal_" + h, "", "void f(%s<NL> *h) { h->unlink(); }" % h, "void f(%s<AU> *h) { h->unlink(); bool b = h->is_linked(); (void)b; }" % h)
    w("is_linked_normal_" + h, "", "bool f(%s<NL> *h) { return h->is_linked(); }" % h, "bool f(%s<SL> *h) { return h->is_linked(); }" % h)
w("is_linked_normal_any", "", "bool f(any_base_hook<NL> *h) { return h->is_linked(); }", "bool f(any_base_hook<SL> *h) { return h->is_linked(); }")
w("any_to_list_as_slist", "typedef E<any_base_hook<> > T;", inst % "slist<T, any_to_list_hook<base_hook<any_base_hook<> > > >" + " void z(L *c, T &x) { c->push_front(x); c->erase_after(c->before_begin()); L::node_algorithms::link_after(c->begin().pointed_node(), c->begin().pointed_node()); slist_node<void *> *n = c->begin().pointed_node(); }", inst % "slist<T, any_to_slist_hook<base_hook<any_base_hook<> > > >" + " void z(L *c, T &x) { c->push_front(x); c->erase_after(c->before_begin()); }")
w("any_ctsize_ok", "typedef E<any_base_hook<> > T;", "int f() { return no_such_name; }", " ".join("typedef %s M%d; bool f%d(M%d *m) { return m->empty(); }" % (t, i, i, i) for i, t in enumerate(["list<T, any_to_list_hook<base_hook<any_base_hook<> > > >", "set<T, any_to_set_hook<base_hook<any_base_hook<> > > >", "avl_set<T, any_to_avl_set_hook<base_hook<any_base_hook<> > > >", "bs_set<T, any_to_bs_set_hook<base_hook<any_base_hook<> > > >", "unordered_set<T, any_to_unordered_set_hook<base_hook<any_base_hook<> > > >", "slist<T, any_to_slist_hook<base_hook<any_base_hook<> > > >"])))
# two base hooks: the wrong or missing choice is rejected
w("member_hook_wrong_class", "struct A { list_member_hook<> h; }; struct B { list_member_hook<> h; };", inst % "list<A, member_hook<B, list_member_hook<>, &B::h> >", inst % "list<A, member_hook<A, list_member_hook<>, &A::h> >")
w("private_iterator_arith", use("list<E<list_base_hook<> > >"), "i += 2; }", "++i; i++; --i; i--; }")
w("iterator_null_compare_other", use("list<E<list_base_hook<> > >"), "slist<E<slist_base_hook<> > >::iterator j; bool b = i == j; (void)b; }", "bool b = i == ci; b = ci == i; b = i != ci; (void)b; }")
w("stateful_s_iterator_to", "struct T; struct VT { typedef list_node_traits<void *> node_traits; typedef node_traits::node node; typedef node_traits::node_ptr node_ptr; typedef node_traits::const_node_ptr const_node_ptr; typedef T value_type; typedef T *pointer; typedef const T *const_pointer; static const link_mode_type link_mode = normal_link; int state; node_ptr to_node_ptr(T &) const { return 0; } const_node_ptr to_node_ptr(const T &) const { return 0; } pointer to_value_ptr(node_ptr) const { return 0; } const_pointer to_value_ptr(const_node_ptr) const { return 0; } }; struct T { int v; }; typedef list<T, value_traits<VT> > L;", "void f(T &t) { L::s_iterator_to(t); }", "void f(L *l, T &t) { l->iterator_to(t); }")
NMEMB = {}
# explicit instantiation of every container: every non-template member must compile in every documented valid combination
POS = []
for lm in ("SL", "NL", "AU"):
    ct = ["NCT"] if lm == "AU" else ["CT", "NCT"]
    for s in ct:
        POS.append(("list_%s_%s" % (lm, s), "template class boost::intrusive::list_impl<list<E<list_base_hook<%s> >, %s>::value_traits, std::size_t, %s, void>;" % (lm, s, "true" if s == "CT" else "false")))
        for c, h in sorted(TREES.items()):
            if "tree" in c or c == "treap": continue
            t = "%s<E<%s<%s> >, %s>" % (c, h, lm, s)
            POS.append(("%s_%s_%s" % (c, lm, s), "typedef %s L; typedef L::value_type T; void f(L *c, const L *k, T &x, L::iterator i, L::const_iterator ci) { %s }" % (t, " ".join(
              ["c->begin(); k->begin(); k->cbegin(); c->end(); k->end(); k->cend(); c->rbegin(); k->rbegin(); k->crbegin(); c->rend(); k->rend(); k->crend(); c->root(); k->root(); k->croot();",
               "L::container_from_end_iterator(i); L::container_from_end_iterator(ci); L::container_from_iterator(i); L::container_from_iterator(ci); k->key_comp(); k->value_comp(); k->empty(); k->size(); c->swap(*c);",
               "c->clone_from(*k, Clone(), Disp()); c->insert(x); c->insert(ci, x); c->insert_before(ci, x); c->push_back(x); c->push_front(x); c->erase(ci); c->erase(ci, ci); c->erase(x); c->erase_and_dispose(ci, Disp()); c->erase_and_dispose(ci, ci, Disp()); c->erase_and_dispose(x, Disp());",
               "c->clear(); c->clear_and_dispose(Disp()); k->count(x); c->lower_bound(x); k->lower_bound(x); c->upper_bound(x); k->upper_bound(x); c->find(x); k->find(x); c->equal_range(x); k->equal_range(x); c->bounded_range(x, x, true, false); k->bounded_range(x, x, true, false); L::s_iterator_to(x); c->iterator_to(x); k->iterator_to((const T &)x); L::init_node(x); c->unlink_leftmost_without_rebalance(); c->replace_node(i, x); c->merge(*c);"]
              + (["L::remove_node(x);"] if s == "NCT" and "treap" not in c else [])))))
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
def run_job(ctx, job):
    d = os.path.join(ctx.tmp, "wit"); os.makedirs(d, exist_ok=True)
    inc = ["-std=c++17", "-w", "-I" + ctx.repo + "/include", "-isystem", "/opt/vp/compat"]
    pch = os.path.join(d, "pre.hpp"); open(pch, "w").write("#pragma once\n" + PRE)
    r = run(["/usr/bin/clang++"] + inc + ["-x", "c++-header", pch, "-o", pch + ".pch"])
    if r.returncode:
        print("ERROR: the headers do not compile:\n" + r.stderr[:2000], flush=True); raise SystemExit(2)
    def comp(name, code):
        f = os.path.join(d, name + ".cpp"); open(f, "w").write(code + "\n")
        return run(["/usr/bin/clang++"] + inc + ["-include-pch", pch + ".pch", "-c", "-emit-llvm", "-O0", "-o", "/dev/null", f] if False else ["/usr/bin/clang++"] + inc + ["-include-pch", pch + ".pch", "-fsyntax-only", f])
    def one(t):
        name, common, bad, good = t
        res = dict(spec="reject_" + name, driver="witness", checks=2, ends=1, undecided=[], violations=[])
        g = comp("g_" + name, common + "\n" + good)
        if g.returncode:
            e = [l for l in g.stderr.splitlines() if "error:" in l]
            res["violations"].append(dict(cat="valid", msg="a valid program is rejected: %s ==> %s" % (good[:250], (e or ["?"])[0][-250:]), loc=(e or ["?"])[0][:160], trace=[common, good])); return res
        b = comp("b_" + name, common + "\n" + bad)
        if b.returncode == 0:
            res["violations"].append(dict(cat="invalid", msg="an invalid program is accepted (%s): %s" % (name, bad[:300]), loc="rule " + name, trace=[common, bad]))
        return res
    def pos(t):
        name, code = t
        g = comp("p_" + name, code); res = dict(spec="accept_" + name, driver="witness", checks=1, ends=1, undecided=[], violations=[])
        if g.returncode:
            e = [l for l in g.stderr.splitlines() if "error:" in l]
            res["violations"].append(dict(cat="valid", msg="a documented member does not compile in a valid combination: " + (e or ["?"])[0][-300:], loc=(e or ["?"])[0][:160], trace=[code[:300]]))
        return res
    with ThreadPoolExecutor(ctx.jobs) as ex:
        ctx.results += list(ex.map(one, W)) + list(ex.map(pos, POS))
    # the entries of the effect driver: every documented operation of every configuration compiles
    r = run([VERIF + "/drivers/compile.sh", VERIF + "/drivers/ops.cpp", os.path.join(d, "ops.bc"), "-DVF_PERMISSIVE", "-ferror-limit=5"], env=dict(os.environ, VF_REPO=ctx.repo))
    res = dict(spec="accept_all_documented_operations", driver="ops", checks=1, ends=1, undecided=[], violations=[])
    if r.returncode:
        e = [l for l in r.stderr.splitlines() if "error:" in l]
        res["violations"].append(dict(cat="valid", msg="a documented operation does not compile: " + (e or ["?"])[0][-300:], loc=(e or ["?"])[0][:160], trace=e[:5]))
    ctx.results.append(res)
    if len(W) < job["min"]: print("ERROR: too few witnesses"); raise SystemExit(2)
