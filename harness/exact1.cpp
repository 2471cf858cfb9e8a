// Exactly-one-solution query (C12).
#include "hx.h"
using namespace hx;
SX_ENTRY(exact_all) {
    const unsigned n = sx_param("n", 3), lay = sx_param("lay", 0); bdd_mgr* m = new bdd_mgr; std::vector<size_t> vars; for (unsigned i = 0; i < n; ++i) vars.push_back(i * (1 + lay));
    Bits t = sym_tt("F", n); node_ref f = build(*m, t, vars);
    // solutions over the support: solutions over all n variables divided by 2^(n - support)
    auto sup = f.variables(); size_t sols = 0; for (auto b : t) sols += b; const size_t scale = size_t(1) << (n - sup.size());
    CHECK(f.exactly_one_solution() == (sols == scale), "exactly one solution"); CHECK(f.exactly_one_solution() == (sols == scale), "exactly one solution, asked again");
    check_fn(f, t, vars, "query changed the BDD"); CHECK(f.nr_nodes() < (1u << (n + 1)), "marks");
    sx_reach("end"); sx_done();
}
// chains: cubes over k of the variables (one solution over the support), optionally with a second solution added
SX_ENTRY(exact_chain) {
    const unsigned n = sx_param("n", 6); bdd_mgr* m = new bdd_mgr; node_ref f = m->topsink(); unsigned k = 0;
    for (unsigned i = 0; i < n; ++i) m->add_variable();
    std::vector<int> c(n, 2); for (unsigned i = 0; i < n; ++i) { c[i] = sx_choose("lit", 0, 2); if (c[i] < 2) { f = m->and_rec(f, c[i] ? m->projection(i) : m->neg_projection(i)); ++k; } }
    CHECK(f.exactly_one_solution(), "a cube has exactly one solution");
    if (k >= 1) { unsigned at = sx_choose("flip", 0, n - 1); if (c[at] < 2 && k >= 2) { // a second solution: another literal of the cube flipped too
        node_ref g = m->topsink(); unsigned second = n; for (unsigned i = 0; i < n; ++i) if (c[i] < 2 && i != at) { second = i; break; }
        for (unsigned i = 0; i < n; ++i) if (c[i] < 2) { bool v = c[i]; if (i == at || i == second) v = !v; g = m->and_rec(g, v ? m->projection(i) : m->neg_projection(i)); }
        node_ref h = m->or_rec(f, g); CHECK(!h.exactly_one_solution(), "two solutions accepted"); } }
    sx_reach("end"); sx_done();
}
