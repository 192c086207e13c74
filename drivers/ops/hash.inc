typedef L::value_type T; typedef L::iterator I; typedef L::const_iterator C; typedef L::local_iterator LI; typedef L::const_local_iterator LC; typedef L::size_type N; typedef L::bucket_traits BT; typedef vfu::Key K;
#if STOREHASH
#define HX n
#else
#define HX x
#endif
OP(ctor, n, (void *p, const BT *b), { new (p) L(*b); })
OP(ctor_move, n, (void *p, L *c), { new (p) L(boost::move(*c)); })
OP(assign_move, nc, (L *c, L *d), { *c = boost::move(*d); })
OP(dtor, n, (L *c), { c->~L(); })
OP(begin, rn, (L *c), { vfu::use(c->begin()); })
OP(begin_c, rn, (const L *c), { vfu::use(c->begin()); vfu::use(c->cbegin()); })
OP(end, rnc, (L *c), { vfu::use(c->end()); })
OP(end_c, rnc, (const L *c), { vfu::use(c->end()); vfu::use(c->cend()); })
OP(functors, rnc, (const L *c), { vfu::use(c->hash_function()); vfu::use(c->key_eq()); })
#if CTSIZE
OP(size, rnc, (const L *c), { vfu::use(c->size()); })
OP(empty, rnc, (const L *c), { vfu::use(c->empty()); })
#else
OP(size, rn, (const L *c), { vfu::use(c->size()); })
OP(empty, rn, (const L *c), { vfu::use(c->empty()); })
#endif
OP(swap, nc, (L *c, L *d), { c->swap(*d); })
OP(clone, x, (L *c, const L *d), { c->clone_from(*d, UClone(), UDisp()); })
OP(clone_rv, x, (L *c, L *d), { c->clone_from(boost::move(*d), UCloneMv(), UDisp()); })
OP(insert, x, (L *c, T *x), { vfu::use(c->insert(*x)); })
OP(insert_r, x, (L *c, const I &b, const I &e), { c->insert(b, e); })
#if !MULTI
OP(insert_check, x, (L *c, const T *x), { L::insert_commit_data d; vfu::use(c->insert_check(*x, d)); vfu::use(d); })
OP(insert_check_k, x, (L *c, const K *k), { L::insert_commit_data d; vfu::use(c->insert_check(*k, UHash(), UEqual(), d)); vfu::use(d); })
OP(insert_commit, n, (L *c, T *x, const L::insert_commit_data *d), { vfu::use(c->insert_commit(*x, *d)); })
OP(insert_fast_commit, n, (L *c, T *x, const L::insert_commit_data *d), { vfu::use(c->insert_fast_commit(*x, *d)); })
#endif
OP(erase, n, (L *c, const C &i), { c->erase(i); })
OP(erase_r, n, (L *c, const C &i, const C &j), { c->erase(i, j); })
OP(erase_v, x, (L *c, const T *x), { vfu::use(c->erase(*x)); })
OP(erase_k, x, (L *c, const K *k), { vfu::use(c->erase(*k, UHash(), UEqual())); })
OP(erase_d, n, (L *c, const C &i), { c->erase_and_dispose(i, UDisp()); })
OP(erase_rd, n, (L *c, const C &i, const C &j), { c->erase_and_dispose(i, j, UDisp()); })
OP(erase_vd, x, (L *c, const T *x), { vfu::use(c->erase_and_dispose(*x, UDisp())); })
OP(erase_kd, x, (L *c, const K *k), { vfu::use(c->erase_and_dispose(*k, UHash(), UEqual(), UDisp())); })
OP(clear, n, (L *c), { c->clear(); })
OP(clear_d, n, (L *c), { c->clear_and_dispose(UDisp()); })
OP(count, rx, (const L *c, const T *x), { vfu::use(c->count(*x)); })
OP(count_k, rx, (const L *c, const K *k), { vfu::use(c->count(*k, UHash(), UEqual())); })
OP(find, rx, (L *c, const T *x), { vfu::use(c->find(*x)); })
OP(find_k, rx, (L *c, const K *k), { vfu::use(c->find(*k, UHash(), UEqual())); })
OP(find_c, rx, (const L *c, const T *x), { vfu::use(c->find(*x)); })
OP(find_kc, rx, (const L *c, const K *k), { vfu::use(c->find(*k, UHash(), UEqual())); })
OP(erange, rx, (L *c, const T *x), { vfu::use(c->equal_range(*x)); })
OP(erange_k, rx, (L *c, const K *k), { vfu::use(c->equal_range(*k, UHash(), UEqual())); })
OP(erange_c, rx, (const L *c, const T *x), { vfu::use(c->equal_range(*x)); })
OP(erange_kc, rx, (const L *c, const K *k), { vfu::use(c->equal_range(*k, UHash(), UEqual())); })
OP(iter, rx, (L *c, T *x), { vfu::use(c->iterator_to(*x)); })
OP(iter_c, rx, (const L *c, const T *x), { vfu::use(c->iterator_to(*x)); })
OP(s_liter, rnc, (T *x), { vfu::use(L::s_local_iterator_to(*x)); })
OP(s_liter_c, rnc, (const T *x), { vfu::use(L::s_local_iterator_to(*x)); })
OP(liter, rnc, (L *c, T *x), { vfu::use(c->local_iterator_to(*x)); })
OP(liter_c, rnc, (const L *c, const T *x), { vfu::use(c->local_iterator_to(*x)); })
OP(bucket_count, rnc, (const L *c), { vfu::use(c->bucket_count()); vfu::use(c->bucket_pointer()); vfu::use(c->split_count()); })
OP(bucket_size, rn, (const L *c, N n), { vfu::use(c->bucket_size(n)); })
OP(bucket, rx, (const L *c, const T *x), { vfu::use(c->bucket(*x)); })
OP(bucket_k, rx, (const L *c, const K *k), { vfu::use(c->bucket(*k, UHash())); })
OP(lbegin, rnc, (L *c, N n), { vfu::use(c->begin(n)); vfu::use(c->end(n)); })
OP(lbegin_c, rnc, (const L *c, N n), { vfu::use(c->begin(n)); vfu::use(c->cbegin(n)); vfu::use(c->end(n)); vfu::use(c->cend(n)); })
OP(rehash, x, (L *c, const BT *b), { c->rehash(*b); })
OP(full_rehash, x, (L *c), { c->full_rehash(); })
#if INCR
OP(incr, x, (L *c, bool g), { vfu::use(c->incremental_rehash(g)); })
OP(incr_b, x, (L *c, const BT *b), { vfu::use(c->incremental_rehash(*b)); })
#endif
OP(suggested, rn, (N n), { vfu::use(L::suggested_upper_bucket_count(n)); vfu::use(L::suggested_lower_bucket_count(n)); })
OP(it_next, rn, (const C &i), { C j(i); ++j; vfu::use(j); j++; vfu::use(j); })
OP(it_deref, rnc, (const C &i, const I &k), { vfu::use(&*i); vfu::use(&*k); vfu::use(i == C(k)); vfu::use(C(k)); vfu::use(k.unconst()); })
OP(lit_next, rnc, (const LC &i), { LC j(i); ++j; vfu::use(&*j); vfu::use(j); })
OP(eq, rx, (const L *c, const L *d), { vfu::use(*c == *d); vfu::use(*c != *d); })
#undef HX
