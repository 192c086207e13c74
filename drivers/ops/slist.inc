typedef L::value_type T; typedef L::iterator I; typedef L::const_iterator C; typedef L::size_type N;
OP(ctor, nc, (void *p), { new (p) L; })
OP(ctor_range, n, (void *p, const I &b, const I &e), { new (p) L(b, e); })
OP(ctor_move, n, (void *p, L *c), { new (p) L(boost::move(*c)); })
OP(assign_move, n, (L *c, L *d), { *c = boost::move(*d); })
OP(dtor, n, (L *c), { c->~L(); })
OP(push_front, nc, (L *c, T *x), { c->push_front(*x); })
OP(pop_front, nc, (L *c), { c->pop_front(); })
OP(pop_front_d, nc, (L *c), { c->pop_front_and_dispose(UDisp()); })
#if CLAST
OP(push_back, nc, (L *c, T *x), { c->push_back(*x); })
OP(back, nc, (L *c), { vfu::use(&c->back()); })
OP(back_c, rnc, (const L *c), { vfu::use(&c->back()); })
OP(last, rnc, (L *c), { vfu::use(c->last()); })
OP(last_c, rnc, (const L *c), { vfu::use(c->last()); vfu::use(c->clast()); })
OP(splice_after_all, nc, (L *c, const C &p, L *d), { c->splice_after(p, *d); })
OP(swap, nc, (L *c, L *d), { c->swap(*d); })
#else
OP(swap, n, (L *c, L *d), { c->swap(*d); })
#endif
OP(front, nc, (L *c), { vfu::use(&c->front()); })
OP(front_c, rnc, (const L *c), { vfu::use(&c->front()); })
OP(begin, rnc, (L *c), { vfu::use(c->begin()); vfu::use(c->before_begin()); })
OP(begin_c, rnc, (const L *c), { vfu::use(c->begin()); vfu::use(c->cbegin()); vfu::use(c->before_begin()); vfu::use(c->cbefore_begin()); })
OP(end, rnc, (L *c), { vfu::use(c->end()); })
OP(end_c, rnc, (const L *c), { vfu::use(c->end()); vfu::use(c->cend()); })
#if !LINEAR
OP(from_end, rnc, (const I &i), { vfu::use(&L::container_from_end_iterator(i)); })
OP(from_end_c, rnc, (const C &i), { vfu::use(&L::container_from_end_iterator(i)); })
#endif
#if CTSIZE
OP(size, rnc, (const L *c), { vfu::use(c->size()); })
#else
OP(size, rn, (const L *c), { vfu::use(c->size()); })
OP(splice_after_rngc, nc, (L *c, const C &p, L *d, const C &f, const C &e), { c->splice_after(p, *d, f, e); })
#endif
OP(splice_after_n, nc, (L *c, const C &p, L *d, const C &f, const C &e, N n), { c->splice_after(p, *d, f, e, n); })
OP(incorporate_n, nc, (L *c, const C &p, const L::node_ptr &f, const L::node_ptr &e, N n), { c->incorporate_after(p, f, e, n); })
OP(incorporate, n, (L *c, const C &p, const L::node_ptr &f, const L::node_ptr &e), { c->incorporate_after(p, f, e); })
OP(empty, rnc, (const L *c), { vfu::use(c->empty()); })
OP(fswap, n, (L *c, L *d), { swap(*c, *d); })
OP(shift_b, n, (L *c, N n), { c->shift_backwards(n); })
OP(shift_f, n, (L *c, N n), { c->shift_forward(n); })
OP(clear, n, (L *c), { c->clear(); })
OP(clear_d, n, (L *c), { c->clear_and_dispose(UDisp()); })
OP(clone, x, (L *c, const L *d), { c->clone_from(*d, UClone(), UDisp()); })
OP(clone_rv, x, (L *c, L *d), { c->clone_from(boost::move(*d), UCloneMv(), UDisp()); })
OP(insert_after, nc, (L *c, const C &p, T *x), { vfu::use(c->insert_after(p, *x)); })
OP(insert_after_r, n, (L *c, const C &p, const I &b, const I &e), { c->insert_after(p, b, e); })
OP(insert, n, (L *c, const C &p, T *x), { vfu::use(c->insert(p, *x)); })
OP(insert_r, n, (L *c, const C &p, const I &b, const I &e), { c->insert(p, b, e); })
OP(erase_after, nc, (L *c, const C &i), { vfu::use(c->erase_after(i)); })
OP(erase_after_r, n, (L *c, const C &i, const C &j), { vfu::use(c->erase_after(i, j)); })
OP(erase_after_n, n, (L *c, const C &i, const C &j, N n), { vfu::use(c->erase_after(i, j, n)); })
OP(erase, n, (L *c, const C &i), { vfu::use(c->erase(i)); })
OP(erase_r, n, (L *c, const C &i, const C &j), { vfu::use(c->erase(i, j)); })
OP(erase_rn, n, (L *c, const C &i, const C &j, N n), { vfu::use(c->erase(i, j, n)); })
OP(erase_after_d, nc, (L *c, const C &i), { vfu::use(c->erase_after_and_dispose(i, UDisp())); })
OP(erase_after_rd, n, (L *c, const C &i, const C &j), { vfu::use(c->erase_after_and_dispose(i, j, UDisp())); })
OP(erase_d, n, (L *c, const C &i), { vfu::use(c->erase_and_dispose(i, UDisp())); })
OP(erase_rd, n, (L *c, const C &i, const C &j), { vfu::use(c->erase_and_dispose(i, j, UDisp())); })
OP(assign, n, (L *c, const I &b, const I &e), { c->assign(b, e); })
OP(dispose_and_assign, n, (L *c, const I &b, const I &e), { c->dispose_and_assign(UDisp(), b, e); })
OP(splice_after_all_l, n, (L *c, const C &p, L *d), { C l; c->splice_after(p, *d, &l); vfu::use(l); })
OP(splice_after1, nc, (L *c, const C &p, L *d, const C &e), { c->splice_after(p, *d, e); })
OP(splice_after_rng, n, (L *c, const C &p, L *d, const C &f, const C &e), { c->splice_after(p, *d, f, e); })
OP(splice_all, n, (L *c, const C &p, L *d), { c->splice(p, *d); })
OP(splice1, n, (L *c, const C &p, L *d, const C &e), { c->splice(p, *d, e); })
OP(splice_rng, n, (L *c, const C &p, L *d, const C &f, const C &e), { c->splice(p, *d, f, e); })
OP(splice_rngn, n, (L *c, const C &p, L *d, const C &f, const C &e, N n), { c->splice(p, *d, f, e, n); })
OP(sort, x, (L *c), { c->sort(); })
OP(sort_p, x, (L *c), { c->sort(ULess()); })
OP(merge, x, (L *c, L *d), { c->merge(*d); })
OP(merge_p, x, (L *c, L *d), { C l; c->merge(*d, ULess(), &l); vfu::use(l); })
OP(reverse, n, (L *c), { c->reverse(); })
OP(remove, x, (L *c, const T *x), { c->remove(*x); })
OP(remove_d, x, (L *c, const T *x), { c->remove_and_dispose(*x, UDisp()); })
OP(remove_if, x, (L *c), { c->remove_if(UPred()); })
OP(remove_if_d, x, (L *c), { c->remove_and_dispose_if(UPred(), UDisp()); })
OP(unique, x, (L *c), { c->unique(); })
OP(unique_p, x, (L *c), { c->unique(UEqual()); })
OP(unique_d, x, (L *c), { c->unique_and_dispose(UDisp()); })
OP(unique_pd, x, (L *c), { c->unique_and_dispose(UEqual(), UDisp()); })
OP(s_iter, rnc, (T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(s_iter_c, rnc, (const T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(iter, rnc, (L *c, T *x), { vfu::use(c->iterator_to(*x)); })
OP(iter_c, rnc, (const L *c, const T *x), { vfu::use(c->iterator_to(*x)); })
OP(previous, rn, (L *c, const I &i), { vfu::use(c->previous(i)); })
OP(previous_c, rn, (const L *c, const C &i), { vfu::use(c->previous(i)); })
OP(previous2, rn, (L *c, const C &p, const I &i), { vfu::use(c->previous(p, i)); })
OP(previous2_c, rn, (const L *c, const C &p, const C &i), { vfu::use(c->previous(p, i)); })
OP(it_next, rnc, (const C &i), { C j(i); ++j; vfu::use(j); j++; vfu::use(j); })
OP(it_deref, rnc, (const C &i, const I &k), { vfu::use(&*i); vfu::use(&*k); vfu::use(i == C(k)); vfu::use(C(k)); vfu::use(k.unconst()); })
OP(eq, rx, (const L *c, const L *d), { vfu::use(*c == *d); })
OP(ne, rx, (const L *c, const L *d), { vfu::use(*c != *d); })
OP(lt, rx, (const L *c, const L *d), { vfu::use(*c < *d); vfu::use(*c > *d); })
OP(le, rx, (const L *c, const L *d), { vfu::use(*c <= *d); vfu::use(*c >= *d); })
