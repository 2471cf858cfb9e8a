#include "hx.h"
using namespace hx;
static void check_traversals(node_ref p, unsigned n) {
    std::vector<node_ref> ns; collect(p, ns);
    CHECK(p.nr_nodes() == ns.size(), "nr_nodes");
    // postorder: every inner node once, children before parents, root last
    std::vector<node_ref> po = p.nodes_postorder();
    CHECK(po.size() == ns.size(), "postorder size");
    for (size_t i = 0; i < po.size(); ++i) {
        CHECK(has_bit(ns, po[i]), "postorder lists a foreign node");
        for (size_t j = 0; j < i; ++j) CHECK(po[j] != po[i], "postorder lists a node twice");
        bool lo = po[i].low().is_terminal(), hi = po[i].high().is_terminal();
        for (size_t j = 0; j < i; ++j) { if (po[j] == po[i].low()) lo = true; if (po[j] == po[i].high()) hi = true; }
        CHECK(lo && hi, "postorder lists a parent before its child");
    }
    if (!po.empty()) CHECK(po.back() == p, "postorder root last");
    CHECK(p.nr_nodes() == ns.size(), "nr_nodes after postorder");
    if (!p.is_terminal()) {
        std::vector<node_ref> bf = p.nodes_bfs();
        CHECK(bf.size() == ns.size(), "bfs size");
        CHECK(bf[0] == p, "bfs root first");
        std::vector<size_t> dist(bf.size(), 1000); dist[0] = 0;
        for (size_t i = 0; i < bf.size(); ++i) {
            CHECK(has_bit(ns, bf[i]), "bfs lists a foreign node");
            for (size_t j = 0; j < i; ++j) CHECK(bf[j] != bf[i], "bfs lists a node twice");
            for (size_t j = 0; j < bf.size(); ++j) if (bf[j] == bf[i].low() || bf[j] == bf[i].high()) dist[j] = std::min(dist[j], dist[i] + 1);
        }
        for (size_t r = 0; r < bf.size(); ++r) for (size_t i = 0; i < bf.size(); ++i) for (size_t j = 0; j < bf.size(); ++j) if (bf[j] == bf[i].low() || bf[j] == bf[i].high()) dist[j] = std::min(dist[j], dist[i] + 1);
        for (size_t i = 1; i < bf.size(); ++i) CHECK(dist[i - 1] <= dist[i], "bfs not by increasing distance");
    } else {
        std::vector<node_ref> bf = p.nodes_bfs();
        for (auto& q : bf) CHECK(q == p, "bfs of a terminal");
    }
    std::vector<size_t> vs = p.variables(); size_t cnt = 0;
    for (size_t v = 0; v < n; ++v) { bool in = false; for (auto& q : ns) if (q.variable() == v) in = true; if (in) ++cnt; CHECK(in == (std::find(vs.begin(), vs.end(), v) != vs.end()), "variables: wrong support"); }
    CHECK(vs.size() == cnt, "variables: wrong size"); for (size_t i = 1; i < vs.size(); ++i) CHECK(vs[i - 1] < vs[i], "variables not sorted");
    for (auto& q : ns) CHECK(!q.marked(), "mark left behind");
    CHECK(p.nr_nodes() == ns.size(), "nr_nodes repeated");
}
SX_ENTRY(traverse_all) {
    const unsigned n = sx_param("n", 3);
    const unsigned st = sx_choose("stride", 1, sx_param("stride", 1)); bdd_mgr* m = new bdd_mgr; std::vector<size_t> vars; for (unsigned i = 0; i < n; ++i) vars.push_back(i * st);
    Bits t = sym_tt("T", n);
    node_ref p = build(*m, t, vars);
    check_traversals(p, n * st);
    // a sub-diagram, then the whole again
    if (!p.is_terminal()) { check_traversals(p.low(), n * st); check_traversals(p.high(), n * st); check_traversals(p, n * st); sx_reach("inner"); }
    sx_reach("end"); sx_done();
}
