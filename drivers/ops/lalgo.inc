typedef A::node_ptr P; typedef A::const_node_ptr CP; 
OP(a_init, nc, (const P &n), { A::init(n); })
OP(a_unique, rnc, (const CP &n), { vfu::use(A::unique(n)); })
OP(a_inited, rnc, (const CP &n), { vfu::use(A::inited(n)); })
OP(a_count, rn, (const CP &n), { vfu::use(A::count(n)); })
#if DLIST
OP(a_unlink, nc, (const P &n), { vfu::use(A::unlink(n)); })
OP(a_unlink2, nc, (const P &n, const P &m), { A::unlink(n, m); })
OP(a_link_before, nc, (const P &n, const P &m), { A::link_before(n, m); })
OP(a_swap_nodes, nc, (const P &n, const P &m), { A::swap_nodes(n, m); })
OP(a_transfer, nc, (const P &p, const P &b, const P &e), { A::transfer(p, b, e); })
OP(a_transfer1, nc, (const P &p, const P &i), { A::transfer(p, i); })
OP(a_reverse, n, (const P &p), { A::reverse(p); })
OP(a_move_b, n, (const P &p, std::size_t n), { A::move_backwards(p, n); })
OP(a_move_f, n, (const P &p, std::size_t n), { A::move_forward(p, n); })
#else
OP(a_unlink_after, nc, (const P &n), { A::unlink_after(n); })
OP(a_unlink_after2, nc, (const P &n, const P &m), { A::unlink_after(n, m); })
OP(a_transfer_after, nc, (const P &p, const P &b, const P &e), { A::transfer_after(p, b, e); })
OP(a_reverse, n, (const P &p), { A::reverse(p); })
OP(a_previous, rn, (const P &p, const P &q), { vfu::use(A::get_previous_node(p, q)); })
#endif
OP(a_link_after, nc, (const P &n, const P &m), { A::link_after(n, m); })
