typedef A::node_ptr P; typedef A::const_node_ptr CP;
OP(a_init, nc, (const P &n), { A::init(n); })
OP(a_init_header, nc, (const P &n), { A::init_header(n); })
OP(a_unique, rnc, (const CP &n), { vfu::use(A::unique(n)); })
OP(a_inited, rnc, (const CP &n), { vfu::use(A::inited(n)); })
OP(a_begin_node, rnc, (const CP &n), { vfu::use(A::begin_node(n)); vfu::use(A::end_node(n)); vfu::use(A::root_node(n)); })
OP(a_get_header, rn, (const CP &n), { vfu::use(A::get_header(n)); })
OP(a_size, rn, (const CP &n), { vfu::use(A::size(n)); })
OP(a_next, rn, (const P &n), { vfu::use(A::next_node(n)); vfu::use(A::prev_node(n)); })
OP(a_swap_tree, nc, (const P &n, const P &m), { A::swap_tree(n, m); })
OP(a_swap_nodes, n, (const P &n, const P &m), { A::swap_nodes(n, m); })
OP(a_swap_nodes4, nc, (const P &n, const P &h, const P &m, const P &g), { A::swap_nodes(n, h, m, g); })
OP(a_replace, n, (const P &n, const P &m), { A::replace_node(n, m); })
OP(a_replace3, nc, (const P &n, const P &h, const P &m), { A::replace_node(n, h, m); })
OP(a_unlink_leftmost, n, (const P &h), { vfu::use(A::unlink_leftmost_without_rebalance(h)); })
OP(a_is_header, rn, (const CP &n), { vfu::use(A::is_header(n)); })
