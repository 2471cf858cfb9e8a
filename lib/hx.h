// Helpers shared by the harnesses; public interface of the library only.
#pragma once
#include "bdd.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include "sx.h"
#include <algorithm>
#include <vector>
#include <tuple>
namespace hx {
using namespace BDD;
typedef std::vector<unsigned char> Bits;
// truth table of n variables: bit k of the index is the value of variable k
// arbitrary function: one symbolic bit per assignment, case-split while the diagram is built
inline Bits sym_tt(const char* name, unsigned n) { Bits t(1u << n); for (auto& b : t) b = sx_pick(sx_sym(name, 1)); return t; }
inline node_ref build_rec(bdd_mgr& m, const Bits& t, const std::vector<size_t>& vars, unsigned lvl, unsigned idx) {
    if (lvl == vars.size()) return t[idx] ? m.topsink() : m.botsink();
    node_ref lo = build_rec(m, t, vars, lvl + 1, idx);
    node_ref hi = build_rec(m, t, vars, lvl + 1, idx | (1u << lvl));
    return m.unique_find(vars[lvl], lo, hi);
}
// BDD of truth table t over increasing variables `vars` (created on demand)
inline node_ref build(bdd_mgr& m, const Bits& t, const std::vector<size_t>& vars) {
    while (!vars.empty() && m.nr_variables() <= vars.back()) m.add_variable();
    return build_rec(m, t, vars, 0, 0);
}
inline std::vector<size_t> seq(size_t n, size_t from = 0) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = from + i; return v; }
inline bool val(const Bits& t, unsigned x) { return t[x]; }
// value of a BDD on assignment x (bit i of x: i-th entry of vars); walks low/high. x may be symbolic: no branching on it.
inline uint64_t value(node_ref p, const std::vector<size_t>& vars, uint64_t x, unsigned depth = 0) {
    if (p.is_topsink()) return 1; if (p.is_botsink()) return 0;
    CHECK(depth <= vars.size(), "path longer than the number of variables");
    const size_t v = p.variable(); size_t k = vars.size(); for (size_t i = 0; i < vars.size(); ++i) if (vars[i] == v) k = i;
    CHECK(k < vars.size(), "BDD depends on a variable outside its operands' support");
    uint64_t h = value(p.high(), vars, x, depth + 1), l = value(p.low(), vars, x, depth + 1);
    return sx_ite((x >> k) & 1, h, l);
}
inline uint64_t ttval(const Bits& t, uint64_t x) { // t[x] for symbolic x, as an ite chain
    uint64_t r = t[0]; for (size_t i = 1; i < t.size(); ++i) r = sx_ite(x == i, t[i], r); return r;
}
// the BDD denotes truth table t over vars: decided for all assignments at once by the solver
inline void check_fn(node_ref p, const Bits& t, const std::vector<size_t>& vars, const char* msg) {
    CHECK(p.address() != nullptr, "null handle returned"); 
    uint64_t x = sx_sym("x", vars.empty() ? 1 : vars.size());
    if (vars.empty()) x = 0;
    CHECK(value(p, vars, x) == ttval(t, x), msg);
}
inline bool has_bit(const std::vector<node_ref>& v, node_ref p) { for (auto& q : v) if (q == p) return true; return false; }
inline void collect(node_ref p, std::vector<node_ref>& out) { if (p.is_terminal() || has_bit(out, p)) return; out.push_back(p); collect(p.low(), out); collect(p.high(), out); }
// ordered and reduced
inline void check_wellformed(node_ref p) {
    std::vector<node_ref> ns; collect(p, ns);
    for (auto& n : ns) {
        CHECK(n.low() != n.high(), "node with equal branches");
        CHECK(n.low().is_terminal() || n.low().variable() > n.variable(), "variables not increasing along low branch");
        CHECK(n.high().is_terminal() || n.high().variable() > n.variable(), "variables not increasing along high branch");
        for (auto& q : ns) CHECK(q == n || q.variable() != n.variable() || q.low() != n.low() || q.high() != n.high(), "two nodes with the same variable and branches");
    }
}
}
