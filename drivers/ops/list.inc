typedef L::value_type T; typedef L::iterator I; typedef L::const_iterator C; typedef L::size_type N;
OP(ctor, nc, (void *p), { new (p) L; })
OP(ctor_range, n, (void *p, const I &b, const I &e), { new (p) L(b, e); })
OP(ctor_move, nc, (void *p, L *c), { new (p) L(boost::move(*c)); })
OP(assign_move, nc, (L *c, L *d), { *c = boost::move(*d); })
OP(dtor, n, (L *c), { c->~L(); })
OP(push_back, nc, (L *c, T *x), { c->push_back(*x); })
OP(push_front, nc, (L *c, T *x), { c->push_front(*x); })
OP(pop_back, nc, (L *c), { c->pop_back(); })
OP(pop_front, nc, (L *c), { c->pop_front(); })
OP(pop_back_d, nc, (L *c), { c->pop_back_and_dispose(UDisp()); })
OP(pop_front_d, nc, (L *c), { c->pop_front_and_dispose(UDisp()); })
OP(front, nc, (L *c), { vfu::use(&c->front()); })
OP(front_c, rnc, (const L *c), { vfu::use(&c->front()); })
OP(back, nc, (L *c), { vfu::use(&c->back()); })
OP(back_c, rnc, (const L *c), { vfu::use(&c->back()); })
OP(begin, rnc, (L *c), { vfu::use(c->begin()); })
OP(begin_c, rnc, (const L *c), { vfu::use(c->begin()); vfu::use(c->cbegin()); })
OP(end, rnc, (L *c), { vfu::use(c->end()); })
OP(end_c, rnc, (const L *c), { vfu::use(c->end()); vfu::use(c->cend()); })
OP(rbegin, rnc, (L *c), { vfu::use(c->rbegin()); vfu::use(c->rend()); })
OP(rbegin_c, rnc, (const L *c), { vfu::use(c->rbegin()); vfu::use(c->rend()); vfu::use(c->crbegin()); vfu::use(c->crend()); })
OP(from_end, rnc, (const I &i), { vfu::use(&L::container_from_end_iterator(i)); })
OP(from_end_c, rnc, (const C &i), { vfu::use(&L::container_from_end_iterator(i)); })
#if CTSIZE
OP(size, rnc, (const L *c), { vfu::use(c->size()); })
OP(splice_n, nc, (L *c, const C &p, L *d, const C &f, const C &e, N n), { c->splice(p, *d, f, e, n); })
#else
OP(size, rn, (const L *c), { vfu::use(c->size()); })
OP(splice_range, nc, (L *c, const C &p, L *d, const C &f, const C &e), { c->splice(p, *d, f, e); })
OP(splice_n, nc, (L *c, const C &p, L *d, const C &f, const C &e, N n), { c->splice(p, *d, f, e, n); })
#endif
OP(empty, rnc, (const L *c), { vfu::use(c->empty()); })
OP(swap, nc, (L *c, L *d), { c->swap(*d); })
OP(fswap, nc, (L *c, L *d), { swap(*c, *d); })
OP(shift_b, n, (L *c, N n), { c->shift_backwards(n); })
OP(shift_f, n, (L *c, N n), { c->shift_forward(n); })
OP(erase, nc, (L *c, const C &i), { vfu::use(c->erase(i)); })
OP(erase_range, n, (L *c, const C &i, const C &j), { vfu::use(c->erase(i, j)); })
OP(erase_range_n, n, (L *c, const C &i, const C &j, N n), { vfu::use(c->erase(i, j, n)); })
OP(erase_d, nc, (L *c, const C &i), { vfu::use(c->erase_and_dispose(i, UDisp())); })
OP(erase_range_d, n, (L *c, const C &i, const C &j), { vfu::use(c->erase_and_dispose(i, j, UDisp())); })
OP(clear, n, (L *c), { c->clear(); })
OP(clear_d, n, (L *c), { c->clear_and_dispose(UDisp()); })
OP(clone, x, (L *c, const L *d), { c->clone_from(*d, UClone(), UDisp()); })
OP(clone_rv, x, (L *c, L *d), { c->clone_from(boost::move(*d), UCloneMv(), UDisp()); })
OP(insert, nc, (L *c, const C &p, T *x), { vfu::use(c->insert(p, *x)); })
OP(insert_range, n, (L *c, const C &p, const I &b, const I &e), { c->insert(p, b, e); })
OP(assign, n, (L *c, const I &b, const I &e), { c->assign(b, e); })
OP(dispose_and_assign, n, (L *c, const I &b, const I &e), { c->dispose_and_assign(UDisp(), b, e); })
OP(splice_all, nc, (L *c, const C &p, L *d), { c->splice(p, *d); })
OP(splice1, nc, (L *c, const C &p, L *d, const C &e), { c->splice(p, *d, e); })
OP(splice_rng, n, (L *c, const C &p, L *d, const C &f, const C &e), { c->splice(p, *d, f, e); })
OP(sort, x, (L *c), { c->sort(); })
OP(sort_p, x, (L *c), { c->sort(ULess()); })
OP(merge, x, (L *c, L *d), { c->merge(*d); })
OP(merge_p, x, (L *c, L *d), { c->merge(*d, ULess()); })
OP(reverse, n, (L *c), { c->reverse(); })
OP(remove, x, (L *c, const T *x), { c->remove(*x); })
OP(remove_d, x, (L *c, const T *x), { c->remove_and_dispose(*x, UDisp()); })
OP(remove_if, x, (L *c), { c->remove_if(UPred()); })
OP(remove_if_d, x, (L *c), { c->remove_and_dispose_if(UPred(), UDisp()); })
OP(unique, x, (L *c), { c->unique(); })
OP(unique_p, x, (L *c), { c->unique(UEqual()); })
OP(unique_d, x, (L *c), { c->unique_and_dispose(UDisp()); })
OP(unique_pd, x, (L *c), { c->unique_and_dispose(UEqual(), UDisp()); })
OP(s_iter, rnc, (T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(s_iter_c, rnc, (const T *x), { vfu::use(L::s_iterator_to(*x)); })
OP(iter, rnc, (L *c, T *x), { vfu::use(c->iterator_to(*x)); })
OP(iter_c, rnc, (const L *c, const T *x), { vfu::use(c->iterator_to(*x)); })
OP(it_next, rnc, (const C &i), { C j(i); ++j; vfu::use(j); j++; vfu::use(j); })
OP(it_prev, rnc, (const C &i), { C j(i); --j; vfu::use(j); j--; vfu::use(j); })
OP(it_deref, rnc, (const C &i, const I &k), { vfu::use(&*i); vfu::use(&*k); vfu::use(i == C(k)); vfu::use(C(k)); vfu::use(k.unconst()); })
OP(eq, rx, (const L *c, const L *d), { vfu::use(*c == *d); })
OP(ne, rx, (const L *c, const L *d), { vfu::use(*c != *d); })
OP(lt, rx, (const L *c, const L *d), { vfu::use(*c < *d); vfu::use(*c > *d); })
OP(le, rx, (const L *c, const L *d), { vfu::use(*c <= *d); vfu::use(*c >= *d); })
