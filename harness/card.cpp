// Cardinality and covering constructors (C08).
#include "hx.h"
using namespace hx;
static Bits count_tt(unsigned kind, const std::vector<Bits>& ts, unsigned n, size_t b) {
    Bits r(size_t(1) << n);
    for (size_t x = 0; x < r.size(); ++x) { size_t c = 0; for (auto& t : ts) c += t[x]; r[x] = kind == 0 ? c == 0 : kind == 1 ? c >= 1 : kind == 2 ? c <= 1 : kind == 3 ? c == 1 : kind == 4 ? c >= b : kind == 5 ? c <= b : c == b; }
    return r;
}
static node_ref make(bdd_mgr& m, unsigned kind, std::vector<node_ref>& v, size_t b) {
    switch (kind) { case 0: return m.all_false(v.begin(), v.end()); case 1: return m.at_least_one(v.begin(), v.end()); case 2: return m.at_most_one(v.begin(), v.end()); case 3: return m.simplex(v.begin(), v.end());
        case 4: return m.at_least(v.begin(), v.end(), b); case 5: return m.at_most(v.begin(), v.end(), b); default: return m.cardinality(v.begin(), v.end(), b); }
}
// literals (positive or negative, one variable each, any order), any size, any bound
SX_ENTRY(card_lits) {
    const unsigned N = sx_param("N", 5), pol = sx_param("pol", 1);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(N); for (unsigned i = 0; i < N; ++i) m->add_variable();
    const unsigned n = sx_choose("n", sx_param("from", 1), N), kind = sx_choose("kind", 0, 6);
    uint64_t b = kind >= 4 ? sx_sym("b", 64) : 0; // every bound: values above n are one case
    if (kind >= 4) b = b > n + 1 ? b : sx_pick(b);
    std::vector<node_ref> v; std::vector<Bits> ts;
    const bool rev = sx_flag("reverse");
    for (unsigned j = 0; j < n; ++j) { unsigned i = rev ? n - 1 - j : j; bool p = pol ? sx_flag("positive") : true; Bits t(size_t(1) << N); for (size_t x = 0; x < t.size(); ++x) t[x] = ((x >> i) & 1) == p; v.push_back(p ? m->projection(i) : m->neg_projection(i)); ts.push_back(t); }
    node_ref r = make(*m, kind, v, b);
    check_fn(r, count_tt(kind, ts, N, kind >= 4 && b > n ? n + 1 : b), vars, "constructed BDD counts wrongly");
    sx_reach("end"); sx_done();
}
// arbitrary operand BDDs, including constants, repetitions and complements
SX_ENTRY(card_funcs) {
    const unsigned N = sx_param("N", 3), nv = sx_param("nv", 2); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(nv); for (unsigned i = 0; i < nv; ++i) m->add_variable();
    const unsigned n = sx_choose("n", 1, N), kind = sx_choose("kind", 0, 6); const size_t b = kind >= 4 ? sx_choose("b", 0, n + 1) : 0;
    std::vector<node_ref> v; std::vector<Bits> ts; for (unsigned i = 0; i < n; ++i) { ts.push_back(sym_tt("F", nv)); v.push_back(build(*m, ts.back(), vars)); }
    node_ref r = make(*m, kind, v, b);
    check_fn(r, count_tt(kind, ts, nv, b), vars, "constructed BDD counts wrongly");
    for (unsigned i = 0; i < n; ++i) check_fn(v[i], ts[i], vars, "operand changed");
    sx_reach("end"); sx_done();
}
// larger numbers of literals, spread over arbitrary starting variable
SX_ENTRY(card_large) {
    const unsigned N = sx_param("N", 9); bdd_mgr* m = new bdd_mgr; const unsigned n = sx_choose("n", 6, N), kind = sx_choose("kind", 0, 6), gap = sx_choose("gap", 0, 1);
    auto vars = seq(n); std::vector<size_t> vs; std::vector<node_ref> v; for (unsigned i = 0; i < n; ++i) { vs.push_back(i * (gap + 1)); v.push_back(m->projection(vs.back())); }
    const size_t b = kind >= 4 ? sx_choose("b", 0, n + 1) : 0;
    node_ref r = make(*m, kind, v, b);
    uint64_t x = sx_sym("x", n); uint64_t c = 0; for (unsigned i = 0; i < n; ++i) c += (x >> i) & 1;
    bool want = kind == 0 ? c == 0 : kind == 1 ? c >= 1 : kind == 2 ? c <= 1 : kind == 3 ? c == 1 : kind == 4 ? c >= b : kind == 5 ? c <= b : c == b;
    // the BDD as a term over the symbolic assignment, each node once
    std::vector<node_ref> po = r.is_terminal() ? std::vector<node_ref>() : r.nodes_postorder(); std::vector<uint64_t> val(po.size());
    auto get = [&](node_ref p) -> uint64_t { if (p.is_topsink()) return 1; if (p.is_botsink()) return 0; for (size_t i = 0; i < po.size(); ++i) if (po[i] == p) return val[i]; CHECK(false, "node missing from postorder"); return 0; };
    for (size_t i = 0; i < po.size(); ++i) { unsigned k = po[i].variable() / (gap + 1); CHECK(k < n && vs[k] == po[i].variable(), "foreign variable"); val[i] = sx_ite((x >> k) & 1, get(po[i].high()), get(po[i].low())); }
    CHECK(get(r) == (uint64_t)want, "constructed BDD counts wrongly");
    sx_reach("end"); sx_done();
}
