typedef L::value_type T; typedef L::iterator I; typedef L::const_iterator C; typedef L::size_type N; typedef vfu::Key K;
#if TREAP
#define PX x  // treap operations call the priority comparison
#else
#define PX n
#endif
#if SPLAY
#define RO x  // lookups of splay trees through non-const access restructure the tree
#else
#define RO rx
#endif
OP(ctor, nc, (void *p), { new (p) L; })
OP(ctor_range, x, (void *p, const I &b, const I &e), { new (p) L(b, e); })
OP(ctor_move, nc, (void *p, L *c), { new (p) L(boost::move(*c)); })
OP(assign_move, nc, (L *c, L *d), { *c = boost::move(*d); })
OP(dtor, n, (L *c), { c->~L(); })
OP(begin, rnc, (L *c), { vfu::use(c->begin()); vfu::use(c->end()); })
OP(begin_c, rnc, (const L *c), { vfu::use(c->begin()); vfu::use(c->cbegin()); vfu::use(c->end()); vfu::use(c->cend()); })
OP(rbegin, rnc, (L *c), { vfu::use(c->rbegin()); vfu::use(c->rend()); })
OP(rbegin_c, rnc, (const L *c), { vfu::use(c->rbegin()); vfu::use(c->rend()); vfu::use(c->crbegin()); vfu::use(c->crend()); })
OP(root, rnc, (L *c), { vfu::use(c->root()); })
OP(root_c, rnc, (const L *c), { vfu::use(c->root()); vfu::use(c->croot()); })
OP(from_end, rnc, (const I &i), { vfu::use(&L::container_from_end_iterator(i)); })
OP(from_end_c, rnc, (const C &i), { vfu::use(&L::container_from_end_iterator(i)); })
OP(from_it, rn, (const I &i), { vfu::use(&L::container_from_iterator(i)); })
OP(from_it_c, rn, (const C &i), { vfu::use(&L::container_from_iterator(i)); })
OP(comps, rnc, (const L *c), { vfu::use(c->key_comp()); vfu::use(c->value_comp()); })
OP(empty, rnc, (const L *c), { vfu::use(c->empty()); })
#if CTSIZE
OP(size, rnc, (const L *c), { vfu::use(c->size()); })
#else
OP(size, rn, (const L *c), { vfu::use(c->size()); })
#endif
OP(swap, nc, (L *c, L *d), { c->swap(*d); })
OP(fswap, n, (L *c, L *d), { swap(*c, *d); })
OP(clone, x, (L *c, const L *d), { c->clone_from(*d, UClone(), UDisp()); })
OP(clone_rv, x, (L *c, L *d), { c->clone_from(boost::move(*d), UCloneMv(), UDisp()); })
OP(insert, x, (L *c, T *x), { vfu::use(c->insert(*x)); })
OP(insert_h, x, (L *c, const C &h, T *x), { vfu::use(c->insert(h, *x)); })
OP(insert_r, x, (L *c, const I &b, const I &e), { c->insert(b, e); })
#if !MULTI
#if TREAP
OP(insert_check, x, (L *c, const T *x), { L::insert_commit_data d; vfu::use(c->insert_check(*x, *x, d)); vfu::use(d); })
OP(insert_check_h, x, (L *c, const C &h, const T *x), { L::insert_commit_data d; vfu::use(c->insert_check(h, *x, *x, d)); vfu::use(d); })
OP(insert_check_k, x, (L *c, const K *k), { L::insert_commit_data d; vfu::use(c->insert_check(*k, ULess(), *k, UPrio(), d)); vfu::use(d); })
OP(insert_check_hk, x, (L *c, const C &h, const K *k), { L::insert_commit_data d; vfu::use(c->insert_check(h, *k, ULess(), *k, UPrio(), d)); vfu::use(d); })
#else
OP(insert_check, x, (L *c, const T *x), { L::insert_commit_data d; vfu::use(c->insert_check(*x, d)); vfu::use(d); })
OP(insert_check_h, x, (L *c, const C &h, const T *x), { L::insert_commit_data d; vfu::use(c->insert_check(h, *x, d)); vfu::use(d); })
OP(insert_check_k, x, (L *c, const K *k), { L::insert_commit_data d; vfu::use(c->insert_check(*k, ULess(), d)); vfu::use(d); })
OP(insert_check_hk, x, (L *c, const C &h, const K *k), { L::insert_commit_data d; vfu::use(c->insert_check(h, *k, ULess(), d)); vfu::use(d); })
#endif
OP(insert_commit, n, (L *c, T *x, const L::insert_commit_data *d), { vfu::use(c->insert_commit(*x, *d)); })
OP(merge_multi, x, (L *c, LM *d), { c->merge(*d); })
#else
OP(merge_set, x, (L *c, LS *d), { c->merge(*d); })
#endif
OP(merge, x, (L *c, L *d), { c->merge(*d); })
OP(insert_before, PX, (L *c, const C &p, T *x), { vfu::use(c->insert_before(p, *x)); })
OP(push_back, PX, (L *c, T *x), { c->push_back(*x); })
OP(push_front, PX, (L *c, T *x), { c->push_front(*x); })
OP(erase, PX, (L *c, const C &i), { vfu::use(c->erase(i)); })
OP(erase_r, PX, (L *c, const C &i, const C &j), { vfu::use(c->erase(i, j)); })
OP(erase_v, x, (L *c, const T *x), { vfu::use(c->erase(*x)); })
OP(erase_k, x, (L *c, const K *k), { vfu::use(c->erase(*k, ULess())); })
OP(erase_d, PX, (L *c, const C &i), { vfu::use(c->erase_and_dispose(i, UDisp())); })
OP(erase_rd, PX, (L *c, const C &i, const C &j), { vfu::use(c->erase_and_dispose(i, j, UDisp())); })
OP(erase_vd, x, (L *c, const T *x), { vfu::use(c->erase_and_dispose(*x, UDisp())); })
OP(erase_kd, x, (L *c, const K *k), { vfu::use(c->erase_and_dispose(*k, ULess(), UDisp())); })
OP(clear, n, (L *c), { c->clear(); })
OP(clear_d, n, (L *c), { c->clear_and_dispose(UDisp()); })
OP(count, RO, (L *c, const T *x), { vfu::use(c->count(*x)); })
OP(count_k, RO, (L *c, const K *k), { vfu::use(c->count(*k, ULess())); })
OP(lower, RO, (L *c, const T *x), { vfu::use(c->lower_bound(*x)); })
OP(lower_k, RO, (L *c, const K *k), { vfu::use(c->lower_bound(*k, ULess())); })
OP(upper, RO, (L *c, const T *x), { vfu::use(c->upper_bound(*x)); })
OP(upper_k, RO, (L *c, const K *k), { vfu::use(c->upper_bound(*k, ULess())); })
OP(find, RO, (L *c, const T *x), { vfu::use(c->find(*x)); })
OP(find_k, RO, (L *c, const K *k), { vfu::use(c->find(*k, ULess())); })
OP(erange, RO, (L *c, const T *x), { vfu::use(c->equal_range(*x)); })
OP(erange_k, RO, (L *c, const K *k), { vfu::use(c->equal_range(*k, ULess())); })
OP(brange, RO, (L *c, const T *x, const T *y, bool l, bool r), { vfu::use(c->bounded_range(*x, *y, l, r)); })
OP(brange_k, RO, (L *c, const K *x, const K *y, bool l, bool r), { vfu::use(c->bounded_range(*x, *y, ULess(), l, r)); })
OP(count_c, rx, (const L *c, const T *x), { vfu::use(c->count(*x)); })
OP(count_kc, rx, (const L *c, const K *k), { vfu::use(c->count(*k, ULess())); })
OP(lower_c, rx, (const L *c, const T *x), { vfu::use(c->lower_bound(*x)); })
OP(lower_kc, rx, (const L *c, const K *k), { vfu::use(c->lower_bound(*k, ULess())); })
OP(upper_c, rx, (const L *c, const T *x), { vfu::use(c->upper_bound(*x)); })
OP(upper_kc, rx, (const L *c, const K *k), { vfu::use(c->upper_bound(*k, ULess())); })
OP(find_c, rx, (const L *c, const T *x), { vfu::use(c->find(*x)); })
OP(find_kc, rx, (const L *c, const K *k), { vfu::use(c->find(*k, ULess())); })
OP(erange_c, rx, (const L *c, const T *x), { vfu::use(c->equal_range(*x)); })
OP(erange_kc, rx, (const L *c, const K *k), { vfu::use(c->equal_range(*k, ULess())); })
OP(brange_c, rx, (const L *c, const T *x, const T *y, bool l, bool r), { vfu::use(c->bounded_range(*x, *y, l, r)); })
OP(brange_kc, rx, (const L *c, const K *x, const K *y, bool l, bool r), { vfu::use(c->bounded_range(*x, *y, ULess(), l, r)); })
OP(s_iter, rnc, (T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(s_iter_c, rnc, (const T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(iter, rnc, (L *c, T *x), { vfu::use(c->iterator_to(*x)); })
OP(iter_c, rnc, (const L *c, const T *x), { vfu::use(c->iterator_to(*x)); })
OP(init_node, nc, (T *x), { L::init_node(*x); })
OP(unlink_leftmost, n, (L *c), { vfu::use(c->unlink_leftmost_without_rebalance()); })
OP(replace_node, nc, (L *c, const I &i, T *x), { c->replace_node(i, *x); })
#if !TREAP && !CTSIZE
OP(remove_node, n, (T *x), { L::remove_node(*x); })
#endif
#if BST
OP(rebalance, n, (L *c), { c->rebalance(); })
OP(rebalance_sub, n, (L *c, const I &i), { vfu::use(c->rebalance_subtree(i)); })
#endif
#if SPLAY
OP(splay_up, n, (L *c, const I &i), { c->splay_up(i); })
OP(splay_down, x, (L *c, const T *x), { vfu::use(c->splay_down(*x)); })
OP(splay_down_k, x, (L *c, const K *k), { vfu::use(c->splay_down(*k, ULess())); })
#endif
#if TREAP
OP(top, rnc, (L *c), { vfu::use(c->top()); vfu::use(c->rtop()); })
OP(top_c, rnc, (const L *c), { vfu::use(c->top()); vfu::use(c->ctop()); vfu::use(c->rtop()); vfu::use(c->crtop()); vfu::use(c->priority_comp()); })
#endif
#if SGT
OP(balance, rnc, (const L *c), { vfu::use(c->balance_factor()); })
#if !MULTI
OP(set_balance, n, (L *c, float f), { c->balance_factor(f); })
#endif
#endif
OP(it_next, rn, (const C &i), { C j(i); ++j; vfu::use(j); j++; vfu::use(j); })
OP(it_prev, rn, (const C &i), { C j(i); --j; vfu::use(j); j--; vfu::use(j); })
OP(it_deref, rnc, (const C &i, const I &k), { vfu::use(&*i); vfu::use(&*k); vfu::use(i == C(k)); vfu::use(C(k)); vfu::use(k.unconst()); })
OP(eq, rx, (const L *c, const L *d), { vfu::use(*c == *d); vfu::use(*c != *d); })
OP(lt, rx, (const L *c, const L *d), { vfu::use(*c < *d); vfu::use(*c > *d); })
OP(le, rx, (const L *c, const L *d), { vfu::use(*c <= *d); vfu::use(*c >= *d); })
#undef PX
#undef RO
