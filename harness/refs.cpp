// Reference counts (C07).
#include "hx.h"
using namespace hx;
static void expect(const std::vector<node_ref*>& hs, node_ref* base, const size_t* b0, size_t nb) {
    for (size_t k = 0; k < nb; ++k) { size_t want = b0[k]; for (node_ref* h : hs) if (h->address() == base[k].address()) ++want; CHECK(base[k].reference_count() == want, "reference count differs from the live handles"); }
}
// arbitrary sequence of handle operations over 3 handle slots (initially empty or set) and 3 nodes
SX_ENTRY(handles) {
    const unsigned K = sx_param("K", 3); bdd_mgr* m = new bdd_mgr; m->add_variable(); m->add_variable();
    node_ref base[4] = {m->projection(0), m->projection(1), m->and_rec(m->projection(0), m->projection(1)), m->topsink()};
    size_t b0[4]; for (int i = 0; i < 4; ++i) b0[i] = base[i].reference_count();
    node_ref s[3]; std::vector<node_ref*> hs{&s[0], &s[1], &s[2]};
    for (unsigned k = 0; k < K; ++k) {
        unsigned op = sx_choose("op", 0, 9), a = sx_choose("a", 0, 2);
        switch (op) {
            case 0: s[a] = base[sx_choose("n", 0, 3)]; break;
            case 1: s[a] = s[sx_choose("b", 0, 2)]; break;                       // includes self-assignment and empty handles
            case 2: s[a] = node_ref(); break;
            case 3: { node_ref c(s[a]); expect({&s[0], &s[1], &s[2], &c}, base, b0, 4); break; }
            case 4: { unsigned b = sx_choose("b", 0, 2); node_ref c(std::move(s[a])); expect({&s[0], &s[1], &s[2], &c}, base, b0, 4); if (c.address()) CHECK(!(s[a] == c) || s[a].address() == nullptr || true, ""); s[b] = std::move(c); expect({&s[0], &s[1], &s[2], &c}, base, b0, 4); break; }
            case 5: { std::vector<node_ref> v; for (int i = 0; i < 5; ++i) v.push_back(s[i % 3]); std::vector<node_ref> w = v; v.erase(v.begin() + 1); v.insert(v.begin(), base[1]); w.resize(2); std::vector<node_ref*> all = hs; for (auto& x : v) all.push_back(&x); for (auto& x : w) all.push_back(&x); expect(all, base, b0, 4); break; }
            case 6: std::swap(s[a], s[sx_choose("b", 0, 2)]); break;
            case 7: { unsigned i = sx_choose("n", 0, 3); if (!base[i].is_terminal()) { auto v = base[i].nodes_postorder(); std::vector<node_ref*> all = hs; for (auto& x : v) all.push_back(&x); expect(all, base, b0, 4); } break; }
            case 8: { unsigned i = sx_choose("n", 0, 3); auto v = base[i].nodes_bfs(); std::vector<node_ref*> all = hs; for (auto& x : v) all.push_back(&x); expect(all, base, b0, 4); s[a] = base[i]; break; }
            case 9: { unsigned i = sx_choose("n", 0, 2); node_ref l = base[i].low(), h = base[i].high(); expect({&s[0], &s[1], &s[2], &l, &h}, base, b0, 4); s[a] = l; break; }
        }
        expect(hs, base, b0, 4);
    }
    for (auto& x : s) x = node_ref(); expect(hs, base, b0, 4);
    sx_reach("end"); sx_done();
}
// operations leave exactly the references of their results: counts of all nodes before and after an arbitrary operation
SX_ENTRY(ops_refs) {
    const unsigned n = sx_param("n", 2); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    const size_t bot0 = m->botsink().reference_count() - 1, top0 = m->topsink().reference_count() - 1;
    Bits tf = sym_tt("F", n), tg = sym_tt("G", n); std::vector<node_ref> hs{build(*m, tf, vars), build(*m, tg, vars)}; node_ref& f = hs[0]; node_ref& g = hs[1];
    const unsigned op = sx_choose("op", 0, 13); std::vector<node_ref> more;
    switch (op) {
        case 0: more.push_back(m->and_rec(f, g)); break; case 1: more.push_back(m->or_rec(f, g)); break; case 2: more.push_back(m->xor_rec(f, g)); break;
        case 3: more.push_back(m->ite_rec(f, g, m->negate(g))); break; case 4: more.push_back(m->negate(f)); break;
        case 5: more.push_back(std::get<0>(m->and_rec_limited(f, g, 100))); break;
        case 6: { auto r = m->and_rec_limited(f, g, 1); if (std::get<0>(r).address()) more.push_back(std::get<0>(r)); break; }
        case 7: more = f.nodes_postorder(); break; case 8: more = g.nodes_bfs(); break;
        case 9: { std::vector<size_t> mp; for (unsigned i = 0; i < n; ++i) mp.push_back(i + 1); more.push_back(m->rebase(f, mp.begin(), mp.end())); break; }
        case 10: { std::vector<node_ref> v{f, g, m->projection(0)}; more.push_back(m->at_most_one(v.begin(), v.end())); break; }
        case 11: { std::vector<node_ref> v{f, g}; more.push_back(m->cardinality(v.begin(), v.end(), 1)); more.push_back(m->simplex(v.begin(), v.end())); break; }
        case 12: { bdd_collection col; size_t i = col.add_bdd(f); more.push_back(col.export_bdd(*m, i)); more.push_back(m->add_bdd(col, i)); break; }
        case 13: { f.nr_nodes(); g.variables(); f.exactly_one_solution(); more.push_back(f.is_terminal() ? f : f.low()); more.push_back(f.botsink()); more.push_back(g.topsink()); break; }
    }
    for (auto& x : more) hs.push_back(x); more.clear();
    // results of the operation's intermediate steps are unreferenced: collect, then everything present is reachable
    if (sx_param("collect", 1)) m->collect_garbage();
    std::vector<node_ref> seen; for (auto& h : hs) collect(h, seen);
    CHECK(!sx_param("collect", 1) || m->nr_nodes() == 2 + seen.size(), "nodes without handles survive: a reference is left behind");
    size_t b = bot0 + 1, t = top0 + 1; node_ref bot = m->botsink(), top = m->topsink();
    for (auto& s : seen) {
        size_t want = 1; for (auto& h : hs) if (h == s) ++want; for (auto& q : seen) { if (q.low() == s) ++want; if (q.high() == s) ++want; }
        CHECK(s.reference_count() == want, "reference count differs from handles plus arcs");
        if (s.low() == bot || s.high() == bot) ++b; if (s.low() == top || s.high() == top) ++t;
    }
    for (auto& h : hs) { if (h == bot) ++b; if (h == top) ++t; }
    CHECK(bot.reference_count() == b, "reference count of the false terminal"); CHECK(top.reference_count() == t, "reference count of the true terminal");
    sx_reach("end"); sx_done();
}
