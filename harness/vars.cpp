// Variables and literals (C20).
#include "hx.h"
using namespace hx;
// existing BDDs survive adding variables at any time; K arbitrary steps
SX_ENTRY(vars_steps) {
    const unsigned K = sx_param("K", 4), maxv = sx_param("maxv", 6); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; size_t nv = sx_choose("initial", 0, 2); for (size_t i = 0; i < nv; ++i) CHECK(m->add_variable() == i, "indices are consecutive");
    CHECK(m->nr_variables() == nv, "number of variables");
    std::vector<node_ref> h; std::vector<std::pair<int, size_t>> what; // (-1: negated, 1: positive, 2: and of first two), variable
    for (unsigned k = 0; k < K; ++k) {
        unsigned op = sx_choose("op", 0, 2);
        if (op == 0) { size_t r = m->add_variable(); CHECK(r == nv, "index of a new variable"); ++nv; }
        else if (op == 1) { size_t v = sx_choose("v", 0, maxv); h.push_back(m->projection(v)); what.push_back({1, v}); nv = std::max(nv, v + 1); }
        else { if (nv == 0) continue; size_t v = sx_choose("v", 0, nv - 1); h.push_back(m->neg_projection(v)); what.push_back({-1, v}); }
        CHECK(m->nr_variables() == nv, "number of variables");
        for (size_t i = 0; i < h.size(); ++i) {
            CHECK(h[i].variable() == what[i].second && !h[i].is_terminal(), "literal has another variable");
            CHECK(what[i].first == 1 ? h[i].low().is_botsink() && h[i].high().is_topsink() : h[i].low().is_topsink() && h[i].high().is_botsink(), "literal changed");
            CHECK((what[i].first == 1 ? m->projection(what[i].second) : m->neg_projection(what[i].second)) == h[i], "literal has another handle now");
        }
    }
    for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < h.size(); ++j) CHECK((h[i] == h[j]) == (what[i] == what[j]), "literals equal exactly if the same");
    sx_reach("end"); sx_done();
}
// an arbitrary function, then variables are added (the variable vector moves), everything is unaffected
SX_ENTRY(vars_grow) {
    const unsigned n = sx_param("n", 3); sx_key_mode = sx_param("keys", 0); bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits t = sym_tt("F", n); node_ref f = build(*m, t, vars); size_t nodes = m->nr_nodes();
    const size_t k = sx_choose("added", 1, sx_param("added", 7));
    if (sx_flag("byliteral")) { node_ref l = m->projection(n + k - 1); CHECK(l.variable() == n + k - 1 && l.low().is_botsink() && l.high().is_topsink(), "literal"); CHECK(m->nr_nodes() == nodes + 1, "adding variables created nodes"); }
    else for (size_t i = 0; i < k; ++i) CHECK(m->add_variable() == n + i, "indices are consecutive");
    CHECK(m->nr_variables() == n + k, "number of variables");
    check_fn(f, t, vars, "existing BDD changed"); node_ref r = build(*m, t, vars); CHECK(r == f, "existing BDD has another handle");
    auto v2 = vars; v2.push_back(n + k - 1); Bits t2(t.size() * 2); for (unsigned x = 0; x < t2.size(); ++x) t2[x] = t[x & (t.size() - 1)] && (x >> n); check_fn(m->and_rec(f, m->projection(n + k - 1)), t2, v2, "operation with a new variable is wrong");
    check_fn(m->negate(f), [&] { Bits q = t; for (auto& b : q) b = !b; return q; }(), vars, "operation on an old BDD is wrong");
    sx_reach("end"); sx_done();
}
// a table that has grown moves along
SX_ENTRY(vars_move_grown) {
    const unsigned c = sx_param("c", 8); sx_key_mode = 5; bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    std::vector<node_ref> pool{m->botsink(), m->topsink()}; sx_key_mode = sx_param("keys", 14); for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i - 1)); sx_key_mode = 5;
    std::vector<node_ref> made; std::vector<std::pair<size_t, size_t>> ab; const size_t before = sx_choose("before", 0, 3) * 17; size_t n = 0;
    for (size_t d = 1; d < c; ++d) for (size_t a = 0; a < c; ++a, ++n) {
        if (n == before) for (size_t i = 0; i < 20; ++i) m->add_variable();
        made.push_back(m->unique_find(0, pool[a], pool[(a + d) % c])); ab.push_back({a, (a + d) % c});
    }
    for (size_t i = 0; i < made.size(); ++i) { CHECK(m->unique_find(0, pool[ab[i].first], pool[ab[i].second]) == made[i], "node lost when variables were added"); CHECK(made[i].low() == pool[ab[i].first] && made[i].variable() == 0, "node changed"); }
    CHECK(m->nr_nodes() == 2 + c - 2 + made.size(), "node count"); 
    sx_reach("end"); sx_done();
}
