// Helpers for harnesses about bdd_collection: observation through the public node views and queries only.
#pragma once
#include "hx.h"
#include <set>
#include <map>
#include <array>
#include <unordered_set>
#include <unordered_map>
namespace cx {
using namespace hx;
typedef bdd_collection_node cnode;
// value of a stored BDD on assignment x (bit i: vars[i]); x may be symbolic, no branching on it
inline uint64_t cvalue(const cnode& p, const std::vector<size_t>& vars, uint64_t x, int depth = 0) {
    if (p.is_topsink()) return 1; if (p.is_botsink()) return 0;
    CHECK(depth <= (int)vars.size() + 1, "path longer than the number of variables");
    const size_t v = p.variable(); size_t k = vars.size(); for (size_t i = 0; i < vars.size(); ++i) if (vars[i] == v) k = i;
    CHECK(k < vars.size(), "stored BDD depends on a foreign variable");
    uint64_t h = cvalue(p.high(), vars, x, depth + 1), l = cvalue(p.low(), vars, x, depth + 1);
    return sx_ite((x >> k) & 1, h, l);
}
inline void ccollect(const cnode& p, std::vector<cnode>& out) { if (p.is_terminal()) return; for (auto& q : out) if (q == p) return; out.push_back(p); ccollect(p.low(), out); ccollect(p.high(), out); }
// the stored representation is ordered, reduced and complete
inline void check_rep(bdd_collection& c, size_t nr, bool ordered = true) {
    bdd_collection_entry e = c[nr]; const size_t n = e.nr_nodes(); CHECK(n >= 2 && n == c.nr_bdd_nodes(nr), "node count below the terminals");
    std::vector<cnode> r; ccollect(e.root_node(), r); CHECK(r.size() + 2 == n, "nodes not reachable from the root, or count wrong");
    for (size_t i = 0; i < r.size(); ++i) {
        cnode l = r[i].low(), h = r[i].high(); CHECK(l != h, "node with equal branches");
        if (ordered) { CHECK(l.is_terminal() || l.variable() > r[i].variable(), "variables not increasing along low branch"); CHECK(h.is_terminal() || h.variable() > r[i].variable(), "variables not increasing along high branch"); }
        CHECK(!l.is_terminal() || l.is_botsink() != l.is_topsink(), "terminal"); CHECK(!h.is_terminal() || h.is_botsink() != h.is_topsink(), "terminal");
        for (size_t j = 0; j < i; ++j) CHECK(r[j].variable() != r[i].variable() || r[j].low() != l || r[j].high() != h, "two nodes with the same variable and branches");
    }
    CHECK(e.botsink().is_botsink() && !e.botsink().is_topsink() && e.topsink().is_topsink() && !e.topsink().is_botsink(), "terminals exchanged or missing");
}
struct Col {
    bdd_mgr* m; bdd_collection* c; std::vector<size_t> vars; std::vector<Bits> t; std::vector<std::vector<size_t>> v; // tables and variables of each stored BDD
    uint64_t xeval = 0; bool xdrawn = false;
    Col(unsigned n) : m(new bdd_mgr), c(new bdd_collection), vars(seq(n)) { for (unsigned i = 0; i < n; ++i) m->add_variable(); }
    Col(const std::vector<size_t>& vs) : m(new bdd_mgr), c(new bdd_collection), vars(vs) { for (size_t i = 0; i <= vs.back(); ++i) m->add_variable(); }
    size_t add(const Bits& f) { size_t i = c->add_bdd(build(*m, f, vars)); CHECK(i == t.size(), "index of the added BDD"); note(f); return i; }
    void note(const Bits& f) { t.push_back(f); v.push_back(vars); }
    size_t nodes(size_t i) { return build(*m, t[i], v[i]).nr_nodes() + 2; }
    uint64_t xv = 0; bool xvd = false; uint64_t xall() { if (!xvd) { xv = sx_sym("x", 16); xvd = true; } return xv; } // one arbitrary assignment per path
    // BDD i still is what it should be, for all assignments at once
    void check(size_t i, const char* msg, bool rep = true) {
        const uint64_t x = xall() & ((1u << v[i].size()) - 1); CHECK(cvalue((*c)[i].root_node(), v[i], x) == ttval(t[i], x), msg);
        CHECK(c->nr_bdd_nodes(i) == nodes(i), "node count of a stored BDD"); if (rep) check_rep(*c, i);
    }
    void check_all(const char* msg) { CHECK(c->nr_bdds() == t.size() && c->size() == t.size(), "number of BDDs"); for (size_t i = 0; i < t.size(); ++i) check(i, msg); }
    void check_all_but_count(const char* msg) { for (size_t i = 0; i < t.size(); ++i) check(i, msg); }
    // evaluate() of BDD i, branching only along one path
    void check_eval(size_t i, const char* msg) {
        if (!xdrawn) { xeval = sx_pick(sx_sym("xeval", v[i].size())); xdrawn = true; } // one assignment for all evaluations of a path
        const uint64_t x = xeval & ((1u << v[i].size()) - 1); std::vector<char> a(v[i].back() + 1, 0); for (size_t k = 0; k < v[i].size(); ++k) a[v[i][k]] = (x >> k) & 1;
        bool r = c->evaluate(i, a.begin(), a.end()); CHECK((uint64_t)r == ttval(t[i], x), msg);
    }
};
inline Bits tt_and(const Bits& a, const Bits& b) { Bits r(a.size()); for (size_t i = 0; i < r.size(); ++i) r[i] = a[i] && b[i]; return r; }
inline Bits tt_const(unsigned n, bool b) { return Bits(1u << n, b); }
inline Bits tt_var(unsigned n, unsigned v) { Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) t[x] = (x >> v) & 1; return t; }
// a function of n variables that depends only on variables [from, from+k): k-variable table lifted
inline Bits lift(const Bits& s, unsigned n, unsigned from) { unsigned k = 0; while ((1u << k) < s.size()) ++k; Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) t[x] = s[(x >> from) & ((1u << k) - 1)]; return t; }
// some fixed functions of n variables
inline Bits tt_kind(unsigned n, unsigned kind) {
    Bits t(1u << n);
    for (unsigned x = 0; x < t.size(); ++x) switch (kind) {
        case 0: t[x] = __builtin_popcount(x) == 1; break; case 1: t[x] = __builtin_popcount(x) & 1; break; case 2: t[x] = x & 1; break;
        case 3: t[x] = !(x & 1) || (x >> (n - 1) & 1); break; case 4: t[x] = 0; break; case 5: t[x] = 1; break; case 6: t[x] = x != 0; break; default: t[x] = !(x >> (n - 1) & 1); }
    return t;
}
}
