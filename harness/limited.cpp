// Size-limited conjunction (C09).
#include "hx.h"
using namespace hx;
// upper bound on the count of the plain recursion (every recursion tree node and every copied operand node counted)
static size_t tree_bound(node_ref f, node_ref g) {
    if (f == g) return f.nr_nodes(); if (f.is_terminal()) return f.is_topsink() ? g.nr_nodes() : 0; if (g.is_terminal()) return g.is_topsink() ? f.nr_nodes() : 0;
    size_t v = std::min(f.variable(), g.variable()); node_ref f0 = f.variable() == v ? f.low() : f, f1 = f.variable() == v ? f.high() : f, g0 = g.variable() == v ? g.low() : g, g1 = g.variable() == v ? g.high() : g;
    return 1 + tree_bound(f0, g0) + tree_bound(f1, g1);
}
SX_ENTRY(limited) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), pre = sx_param("pre", 1); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; const unsigned n = std::max(nf, ng) + sx_param("shift", 0); auto vars = seq(n), vf = seq(nf), vg = seq(ng, n - ng); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits tf = sym_tt("F", nf), tg = sym_tt("G", ng), R(1u << n); for (unsigned x = 0; x < R.size(); ++x) R[x] = tf[x & (tf.size() - 1)] && tg[x >> (n - ng)];
    node_ref f = build(*m, tf, vf), g = build(*m, tg, vg);
    const size_t bound = tree_bound(f, g); const unsigned history = pre ? sx_choose("history", 0, 2) : 0;
    if (history == 1) m->and_rec(f, g);
    if (history == 2) { m->or_rec(f, g); m->and_rec_limited(f, g, sx_choose("l0", 0, 2)); }
    const uint64_t limit = sx_sym("limit", 64);
    auto [r, cnt] = m->and_rec_limited(f, g, limit);
    if (r.address() == nullptr) { CHECK(cnt == std::numeric_limits<size_t>::max(), "null handle without the maximal count"); CHECK(limit < bound, "refused although the limit admits the plain recursion"); sx_reach("refused"); }
    else { CHECK(cnt != std::numeric_limits<size_t>::max(), "maximal count although a result is returned"); check_fn(r, R, vars, "limited conjunction is wrong"); sx_reach("done"); }
    // later operations
    const unsigned later = sx_choose("later", 0, 2);
    if (later == 0) { node_ref q = m->and_rec(f, g); check_fn(q, R, vars, "conjunction after the limited one is wrong"); if (r.address()) CHECK(q == r, "limited and plain conjunction differ"); CHECK(q == build(*m, R, vars), "conjunction after the limited one is not canonical"); }
    else if (later == 1) { Bits O(1u << n); for (unsigned x = 0; x < R.size(); ++x) O[x] = tf[x & (tf.size() - 1)] || tg[x >> (n - ng)]; check_fn(m->or_rec(f, g), O, vars, "disjunction after the limited conjunction is wrong"); if (r.address()) CHECK(r == build(*m, R, vars), "limited conjunction is not canonical"); }
    else { auto [q, c2] = m->and_rec_limited(g, f, std::numeric_limits<size_t>::max()); check_fn(q, R, vars, "second limited conjunction is wrong"); CHECK(q == m->and_rec(f, g), "limited and plain conjunction differ"); }
    check_fn(f, tf, vf, "operand changed"); check_fn(g, tg, vg, "operand changed");
    sx_reach("end"); sx_done();
}
