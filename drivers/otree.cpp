// Ordered trees: lookups and insertions for every key, on any sorted tree.
#include "treeenv.h"
template<class L, TKind TK> struct S {
  typedef TEnv<L, TK> E;
  typedef typename E::T T;
  typedef typename L::iterator It;
  typedef typename L::const_iterator CIt;
  typedef typename E::NA NA;
  struct Key { long x; };
  // environment of a lookup: sorted tree c, key k
  struct Q : E { L *c; int w, key; const Key *k;
    Q(int) {}
    Q() { c = this->make("c"); k = (const Key *)vf_obj(sizeof(Key), "key"); key = vf_key(k); w = this->fill(c); vf_wsorted(w); }
    It end() { return c->end(); }
    const void *at(CIt i) { return i == ((const L *)c)->end() ? (const void *)0 : (const void *)&*i; }
    void lower(CIt i, const char *cat = "order") { vf_expect_bound(w, at(i), key, 0, 1, cat); }
    void upper(CIt i, const char *cat = "order") { vf_expect_bound(w, at(i), key, 1, 2, cat); }
    void same() { this->expect(c, w); }
  };
  static void lower() { Q q; It i = q.c->lower_bound(*q.k, ULess()); q.lower(i); q.same(); }
  static void lower_c() { Q q; CIt i = ((const L *)q.c)->lower_bound(*q.k, ULess()); q.lower(i); q.same(); }
  static void upper() { Q q; It i = q.c->upper_bound(*q.k, ULess()); q.upper(i); q.same(); }
  static void upper_c() { Q q; CIt i = ((const L *)q.c)->upper_bound(*q.k, ULess()); q.upper(i); q.same(); }
  static void found(Q &q, CIt i) { if (q.at(i)) { vf_zone_is(&*i, q.key, 1, 1, "order"); vf_expect_bound(q.w, &*i, q.key, 1, 1, "order"); } else vf_expect_none(q.w, q.key, 1, "order"); }
  static void find() { Q q; It i = q.c->find(*q.k, ULess()); found(q, i); q.same(); }
  static void find_c() { Q q; CIt i = ((const L *)q.c)->find(*q.k, ULess()); found(q, i); q.same(); }
  static void equal() { Q q; std::pair<It, It> r = q.c->equal_range(*q.k, ULess()); q.lower(r.first); q.upper(r.second); q.same(); }
  static void equal_c() { Q q; std::pair<CIt, CIt> r = ((const L *)q.c)->equal_range(*q.k, ULess()); q.lower(r.first); q.upper(r.second); q.same(); }
  static void lub() { Q q; std::pair<It, It> r = q.c->lower_bound_range(*q.k, ULess()); lubc(q, r.first, r.second); }
  static void lub_c() { Q q; std::pair<CIt, CIt> r = ((const L *)q.c)->lower_bound_range(*q.k, ULess()); lubc(q, r.first, r.second); }
  static void lubc(Q &q, CIt a, CIt b) { q.lower(a); if (a == b) vf_expect_none(q.w, q.key, 1, "order"); else { vf_zone_is(&*a, q.key, 1, 1, "order"); vf_expect_adjacent(q.w, &*a, q.at(b), "order"); } q.same(); }
  static void count() { Q q; long n = (long)((const L *)q.c)->count(*q.k, ULess()); std::pair<It, It> r = q.c->equal_range(*q.k, ULess()); vf_expect_same(n, vf_len(vf_wsub(q.w, q.at(r.first), q.at(r.second))), "order:count() differs from the number of equivalent elements"); }
  // overloads without a comparison: the key is an element
  struct QK : Q { T *t; QK() : Q(0) { this->c = this->make("c"); t = this->raw("t"); this->k = (const Key *)t; this->key = vf_key(t); vf_zone(t, this->key, 1, 1); this->w = this->fill(this->c); vf_wsorted(this->w); } };
  static void lower_k() { QK q; if (vf_choice(2)) { It i = q.c->lower_bound(*q.t); q.lower(i); } else { CIt i = ((const L *)q.c)->lower_bound(*q.t); q.lower(i); } q.same(); }
  static void upper_k() { QK q; if (vf_choice(2)) { It i = q.c->upper_bound(*q.t); q.upper(i); } else { CIt i = ((const L *)q.c)->upper_bound(*q.t); q.upper(i); } q.same(); }
  static void find_k() { QK q; if (vf_choice(2)) { It i = q.c->find(*q.t); found(q, i); } else { CIt i = ((const L *)q.c)->find(*q.t); found(q, i); } q.same(); }
  static void equal_k() { QK q; std::pair<It, It> r = q.c->equal_range(*q.t); q.lower(r.first); q.upper(r.second); q.same(); }
  static void equal_ck() { QK q; std::pair<CIt, CIt> r = ((const L *)q.c)->equal_range(*q.t); q.lower(r.first); q.upper(r.second); q.same(); }
  static void uequal_k() { QK q; std::pair<It, It> r = q.c->equal_range(*q.t); lubc(q, r.first, r.second); }
  static void uequal_ck() { QK q; std::pair<CIt, CIt> r = ((const L *)q.c)->equal_range(*q.t); lubc(q, r.first, r.second); }
  static void ucount_k() { QK q; long n = (long)((const L *)q.c)->count(*q.t); if (n == 0) vf_expect_none(q.w, q.key, 1, "order"); else { vf_expect_same(n, 1, "order:count() of a set is neither 0 nor 1"); vf_expect_some(q.w, q.key, 1, "order:count() reports an element although none is equivalent"); } q.same(); }
  // two keys lo < hi
  template<bool C> static void bounded(bool lc, bool rc) {
    E e; L *c = e.make("c"); const Key *k1 = (const Key *)vf_obj(sizeof(Key), "lo"), *k2 = (const Key *)vf_obj(sizeof(Key), "hi");
    if ((lc || rc) && vf_choice(2)) k2 = k1; // the same key twice
    vf_flag(10, 1); int a = vf_key(k1), b = k1 == k2 ? a : vf_key(k2); int w = e.fill(c); vf_wsorted(w);
    const void *x, *y; const L *d = c;
    if (C) { std::pair<CIt, CIt> r = d->bounded_range(*k1, *k2, ULess(), lc, rc); x = r.first == d->end() ? 0 : &*r.first; y = r.second == d->end() ? 0 : &*r.second; }
    else { std::pair<It, It> r = c->bounded_range(*k1, *k2, ULess(), lc, rc); x = r.first == c->end() ? 0 : &*r.first; y = r.second == c->end() ? 0 : &*r.second; }
    vf_expect_bound(w, x, a, lc ? 0 : 1, lc ? 1 : 2, "order"); vf_expect_bound(w, y, b, rc ? 1 : 0, rc ? 2 : 1, "order"); e.expect(c, w);
  }
  static void bounded_oo() { bounded<false>(false, false); }
  static void bounded_co() { bounded<false>(true, false); }
  static void bounded_oc() { bounded<false>(false, true); }
  static void bounded_cc() { bounded<false>(true, true); }
  static void bounded_c() { bounded<true>(true, false); }
  // ---- insertion: v itself is the key
  struct V : E { L *c; int w, key; T *v;
    V(int) {}
    V() { c = this->make("c"); v = this->elem("v"); key = vf_key(v); vf_zone(v, key, 1, 1); w = this->fill(c); vf_wsorted(w); }
    // v was inserted; elements before it lie in [0,mb], elements after it in [ma,2]; nothing else changed
    void inserted(int mb, int ma) {
      vf_expect_tree(E::hp(c), this->k, -1, 0, 1); int r = vf_tree_word(E::hp(c), this->k); this->size(c, r);
      vf_expect_all(vf_wsub(r, 0, v), key, 0, mb, "order:an element before the inserted one is ordered after it");
      int b = vf_wsub(r, v, 0); vf_werase(b, v); vf_expect_all(b, key, ma, 2, "order:an element after the inserted one is ordered before it");
      vf_werase(r, v); vf_expect_words(w, r, "content:elements other than the inserted one changed");
    }
    void refused(It i) { vf_expect(&*i != v, "order:insertion reported as refused returns the new element"); vf_zone_is(&*i, key, 1, 1, "order"); this->expect(c, w); this->detached(v); }
  };
  static void ins_eq() { V q; It i = q.c->insert_equal(*q.v); vf_expect_samep(&*i, q.v, "content:insert_equal returns the new element"); q.inserted(1, 2); }
  static void ins_un() { V q; std::pair<It, bool> r = q.c->insert_unique(*q.v); un(q, r.second, r.first); }
  static void s_ins() { V q; std::pair<It, bool> r = q.c->insert(*q.v); un(q, r.second, r.first); }
  static void s_ins_ck() { V q; typename L::insert_commit_data d; std::pair<It, bool> r = q.c->insert_check(*q.v, ULess(), d); if (r.second) { It i = q.c->insert_commit(*q.v, d); un(q, true, i); } else un(q, false, r.first); }
  static void s_hint() { H<false> q; It i = q.c->insert(q.hint(), *q.v); if (&*i == q.v) q.inserted(0, 2); else q.refused(i); }
  static void m_ins() { V q; It i = q.c->insert(*q.v); vf_expect_samep(&*i, q.v, "content:insert returns the new element"); q.inserted(1, 2); }
  static void m_hint() { H<false> q; It i = q.c->insert(q.hint(), *q.v); vf_expect_samep(&*i, q.v, "content:insert returns the new element"); q.inserted(1, 1); }
  static void un(V &q, bool did, It i) { if (did) { vf_expect_samep(&*i, q.v, "content:insert_unique returns the new element"); q.inserted(0, 2); } else q.refused(i); }
  static void ins_un_ck() { V q; typename L::insert_commit_data d; std::pair<It, bool> r = q.c->insert_unique_check(*q.v, ULess(), d);
    if (r.second) { It i = q.c->insert_unique_commit(*q.v, d); un(q, true, i); } else un(q, false, r.first); }
  // hints: any element of the tree, or end()
  template<bool END> struct H : V { T *h;
    It hint() { return END ? this->c->end() : E::it(h); }
    H() : V(0) { this->c = this->make("c"); this->v = this->elem("v"); h = END ? 0 : this->raw("h"); this->key = vf_key(this->v); vf_zone(this->v, this->key, 1, 1); this->w = this->fill(this->c, h); vf_wsorted(this->w); } };
  template<bool END> static void h_eq() { H<END> q; It i = q.c->insert_equal(q.hint(), *q.v); vf_expect_samep(&*i, q.v, "content:insert_equal returns the new element"); q.inserted(1, 1); }
  template<bool END> static void h_un() { H<END> q; It i = q.c->insert_unique(q.hint(), *q.v); if (&*i == q.v) q.inserted(0, 2); else q.refused(i); }
  template<bool END> static void h_un_ck() { H<END> q; typename L::insert_commit_data d; std::pair<It, bool> r = q.c->insert_unique_check(q.hint(), *q.v, ULess(), d);
    if (r.second) { It i = q.c->insert_unique_commit(*q.v, d); un(q, true, i); } else un(q, false, r.first); }
  static void hint_eq() { h_eq<false>(); }
  static void hint_eq_end() { h_eq<true>(); }
  static void hint_un() { h_un<false>(); }
  static void hint_un_end() { h_un<true>(); }
  static void hint_un_ck() { h_un_ck<false>(); }
  static void hint_un_ck_end() { h_un_ck<true>(); }
};
#define INST1(cfg, L, TK, op) extern "C" void spec_otree_##cfg##_##op() { S<L, TK>::op(); }
#define LOOK(X) X(lower) X(lower_c) X(upper) X(upper_c) X(find) X(find_c) X(equal) X(equal_c) X(lub) X(lub_c)
#define BND(X) X(bounded_oo) X(bounded_co) X(bounded_oc) X(bounded_cc) X(bounded_c)
#define INS(X) X(ins_eq) X(ins_un) X(ins_un_ck) X(hint_eq) X(hint_eq_end) X(hint_un) X(hint_un_end) X(hint_un_ck) X(hint_un_ck_end)
#define I_bs(op) INST1(bs, L_bs, BS, op)
#define I_rb(op) INST1(rb, L_rb, RB, op)
#define I_avl(op) INST1(avl, L_avl, AVL, op)
#define I_tr(op) INST1(tr, L_tr, TREAP, op)
#define I_sp(op) INST1(sp, L_sp, SPLAY, op)
#define I_sg(op) INST1(sg, L_sg, SG, op)
typedef bs_set<HOOK(bs_set_base_hook, safe_link), CT> L_bset; typedef bs_multiset<HOOK(bs_set_base_hook, safe_link), CT> L_bmset;
typedef set<HOOK(set_base_hook, safe_link), CT> L_set; typedef multiset<HOOK(set_base_hook, safe_link), CT> L_mset;
typedef avl_set<HOOK(avl_set_base_hook, safe_link), CT> L_aset; typedef avl_multiset<HOOK(avl_set_base_hook, safe_link), CT> L_amset;
typedef treap_set<HOOK(bs_set_base_hook, safe_link), priority<UPrio>, CT> L_tset; typedef treap_multiset<HOOK(bs_set_base_hook, safe_link), priority<UPrio>, CT> L_tmset;
typedef sg_set<HOOK(bs_set_base_hook, safe_link)> L_gset; typedef sg_multiset<HOOK(bs_set_base_hook, safe_link)> L_gmset;
#define I_bset(op) INST1(bset, L_bset, BS, op)
#define I_bmset(op) INST1(bmset, L_bmset, BS, op)
#define I_set(op) INST1(set, L_set, RB, op)
#define I_mset(op) INST1(mset, L_mset, RB, op)
#define I_aset(op) INST1(aset, L_aset, AVL, op)
#define I_amset(op) INST1(amset, L_amset, AVL, op)
#define I_tset(op) INST1(tset, L_tset, TREAP, op)
#define I_tmset(op) INST1(tmset, L_tmset, TREAP, op)
#define I_gset(op) INST1(gset, L_gset, SG, op)
#define I_gmset(op) INST1(gmset, L_gmset, SG, op)
#define KEYED(X) X(lower_k) X(upper_k) X(find_k)
#define SETQ(X) X(uequal_k) X(uequal_ck) X(ucount_k) X(lower) X(upper) X(find)
KEYED(I_bs) I_bs(equal_k) I_bs(equal_ck) KEYED(I_rb) KEYED(I_tr)
SETQ(I_bset) SETQ(I_set) SETQ(I_aset) SETQ(I_tset) SETQ(I_gset)
I_bset(s_ins) I_bset(s_ins_ck) I_bset(s_hint) I_set(s_ins) I_set(s_ins_ck) I_aset(s_ins)
I_bset(equal) I_tset(equal) I_gset(equal) I_bset(equal_c) I_tset(equal_c) I_gset(equal_c) I_bmset(m_ins) I_bmset(m_hint) I_mset(m_ins) I_amset(m_ins) I_bmset(equal) I_bmset(equal_c) I_bmset(equal_k) I_bmset(equal_ck) I_tmset(equal) I_gmset(equal) I_tmset(equal_c) I_gmset(equal_c)
LOOK(I_bs) BND(I_bs) INS(I_bs)
LOOK(I_rb) INS(I_rb)
LOOK(I_avl) INS(I_avl)
LOOK(I_tr) BND(I_tr)
LOOK(I_sg)
LOOK(I_sp)
