OP(h_ctor, nc, (void *p), { new (p) H; })
OP(h_copy, nc, (void *p, const H *h), { new (p) H(*h); })
OP(h_assign, nc, (H *h, const H *g), { *h = *g; })
OP(is_linked, rnc, (const H *h), { vfu::use(h->is_linked()); })
#if AUTOU
OP(h_unlink, n, (H *h), { h->unlink(); })
OP(h_dtor, n, (H *h), { h->~H(); })
#else
OP(h_dtor, nc, (H *h), { h->~H(); })
#endif
