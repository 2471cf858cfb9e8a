// Memory safety and teardown (C22), independence of managers (C26).
#include "cx.h"
using namespace cx;
// K arbitrary operations on handles and stored BDDs, then everything is destroyed in an arbitrary order
SX_ENTRY(teardown) {
    const uint64_t heap0 = sx_live_heap(); const unsigned n = sx_param("n", 3), K = sx_param("K", 3), kinds = sx_param("kinds", 14); sx_key_mode = sx_param("keys", 0);
    {
        bdd_mgr* m = new bdd_mgr; bdd_collection* c = new bdd_collection; const unsigned early = sx_param("early", 0); for (unsigned i = 0; i < (early ? early : n); ++i) m->add_variable(); auto vars = seq(n);
        {
            std::vector<node_ref> h; for (unsigned i = 0; i < n; ++i) h.push_back(m->projection(i)); h.push_back(build(*m, tt_kind(n, 0), vars)); const size_t P = h.size();
            size_t last = P - 1; auto put = [&](node_ref r) { if (r.address()) { last = (last + 1) % P; h[last] = r; } };
            for (unsigned k = 0; k < K; ++k) {
                const unsigned op = sx_choose("op", 0, kinds - 1); auto pick = [&](const char* nm) -> node_ref& { return h[sx_choose(nm, P > 2 ? P - 3 : 0, P - 1)]; };
                switch (op) {
                    case 0: put(m->and_rec(pick("i"), pick("j"))); break; case 1: put(m->xor_rec(pick("i"), pick("j"))); break; case 2: put(m->negate(pick("i"))); break;
                    case 3: pick("i") = sx_flag("t") ? m->topsink() : m->botsink(); break; case 4: m->collect_garbage(); break;
                    case 5: { size_t v = m->add_variable(); put(m->ite_rec(m->projection(v), pick("i"), pick("j"))); break; }
                    case 6: c->add_bdd(pick("i")); break;
                    case 7: if (c->nr_bdds()) { size_t a = c->nr_bdds() - 1; c->bdd_and(a, (size_t)0); } break;
                    case 8: if (c->nr_bdds()) { std::vector<size_t> r{sx_flag("last") ? c->nr_bdds() - 1 : 0}; c->remove(r.begin(), r.end()); } break;
                    case 9: if (c->nr_bdds()) put(m->add_bdd(*c, c->nr_bdds() - 1)); break;
                    case 10: if (c->nr_bdds()) { std::unordered_set<size_t> p{0}, q{1}; c->bdd_or_var(0, p, q); } break;
                    case 11: { std::map<size_t, size_t> mp; for (size_t i = 0; i < m->nr_variables(); ++i) mp[i] = i + 1; put(m->rebase(pick("i"), mp)); break; }
                    case 12: { node_ref& a = pick("i"); a.nodes_postorder(); a.nodes_bfs(); a.variables(); a.exactly_one_solution(); break; }
                    case 13: put(m->at_most(h.begin(), h.begin() + n, sx_choose("b", 0, 2))); break;
                }
            }
            for (auto& q : h) { check_wellformed(q); CHECK(q.find_bdd_mgr() == m, "handle finds its manager"); }
        }
        const unsigned order = sx_choose("order", 0, 2); if (order == 1) { m->collect_garbage(); CHECK(m->nr_nodes() == 2, "nodes left after all handles are gone"); }
        if (order == 2) { delete c; delete m; } else { delete m; delete c; }
    }
    CHECK(sx_live_heap() == heap0, "memory not released"); sx_reach("end"); sx_done();
}
// many nodes: pools and tables grow past their first pages, any share kept when the manager goes through collections
SX_ENTRY(teardown_large) {
    const uint64_t heap0 = sx_live_heap(); const size_t L = sx_param("L", 70); sx_key_mode = sx_param("keys", 0);
    { bdd_mgr* m = new bdd_mgr; { std::vector<node_ref> v; for (size_t i = 0; i < L; ++i) v.push_back(m->projection(i)); std::vector<node_ref> keep; const unsigned period = sx_choose("period", 1, 4), rounds = sx_choose("rounds", 0, 2);
        for (unsigned r = 0; r <= rounds; ++r) { for (unsigned b = 0; b < 3; ++b) { node_ref q = m->at_most(v.begin(), v.end(), 5 * b + r + 1); if ((b + r) % period == 0) keep.push_back(q); } if (sx_flag("gc")) m->collect_garbage(); }
        for (auto& q : keep) { CHECK(q.nr_nodes() > L, "size"); std::vector<char> x(L, 0); CHECK(q.evaluate(x.begin(), x.end()), "value"); }
      } if (sx_flag("gc2")) { m->collect_garbage(); } delete m; }
    CHECK(sx_live_heap() == heap0, "memory not released"); sx_reach("end"); sx_done();
}
// a manager destroyed with unreferenced nodes left in tables of one variable that grew, then another one created
SX_ENTRY(teardown_tables) {
    const uint64_t heap0 = sx_live_heap(); sx_key_mode = sx_param("keys", 13); const unsigned K = sx_param("K", 3), big = sx_param("big", 60);
    for (int rep = 0; rep < 2; ++rep) { bdd_mgr* m = new bdd_mgr; { for (unsigned i = 0; i < 8; ++i) m->add_variable(); std::vector<node_ref> ch{m->botsink(), m->topsink()}; sx_key_mode = 0; for (unsigned i = 7; i >= 1; --i) { std::vector<node_ref> nw; for (size_t a = 0; a + 1 < ch.size() && ch.size() < 10; ++a) nw.push_back(m->unique_find(i, ch[a], ch[a + 1])); for (auto& q : nw) ch.push_back(q); }
            sx_key_mode = rep ? 0 : (int)sx_param("keys", 13); unsigned made = 0; const unsigned want = rep ? big : K; std::vector<node_ref> kept; for (size_t a = 0; a < ch.size() && made < want; ++a) for (size_t b = 0; b < ch.size() && made < want; ++b) if (a != b) { node_ref q = m->unique_find(0, ch[a], ch[b]); ++made; if (rep ? made % 3 == 0 : sx_flag("keep")) kept.push_back(q); }
            if (sx_flag("gc")) m->collect_garbage(); for (auto& q : kept) CHECK(q.variable() == 0, "node"); }
        delete m; CHECK(sx_live_heap() == heap0, "memory not released"); }
    sx_reach("end"); sx_done();
}
// two managers: arbitrary operations in each, interleaved; neither influences the other
SX_ENTRY(two_managers) {
    const unsigned n = 2, K = sx_param("K", 3); sx_key_mode = sx_param("keys", 0); bdd_mgr* m[2] = {new bdd_mgr, new bdd_mgr}; auto vars = seq(n); std::vector<node_ref> h[2]; std::vector<Bits> t[2];
    for (int k = 0; k < 2; ++k) { for (unsigned i = 0; i < n; ++i) { h[k].push_back(m[k]->projection(i)); t[k].push_back(tt_var(n, i)); } }
    { Bits f = sym_tt("F", n); h[0].push_back(build(*m[0], f, vars)); t[0].push_back(f); h[1].push_back(build(*m[1], f, vars)); t[1].push_back(f); }
    for (unsigned s = 0; s < K; ++s) {
        const unsigned w = sx_choose("which", 0, 1), op = sx_choose("op", 0, 5); const size_t cnt = m[1 - w]->nr_nodes(), nv = m[1 - w]->nr_variables(); const size_t i = h[w].size() - 1, j = sx_choose("j", 0, h[w].size() - 1); Bits r(1u << n); node_ref q;
        for (unsigned x = 0; x < r.size(); ++x) { bool a = t[w][i][x], b = t[w][j][x]; r[x] = op == 0 ? a && b : op == 1 ? a || b : op == 2 ? a != b : !a; }
        if (op == 0) q = h[w][i] & h[w][j]; else if (op == 1) q = h[w][i] || h[w][j]; else if (op == 2) q = h[w][i] ^ h[w][j]; else if (op == 3) q = !h[w][i]; else if (op == 4) { if (h[w].size() > 1) { h[w].erase(h[w].begin() + j); t[w].erase(t[w].begin() + j); } m[w]->collect_garbage(); } else m[w]->add_variable();
        if (q.address()) { h[w].push_back(q); t[w].push_back(r); check_fn(q, r, vars, "result with two managers"); }
        CHECK(m[1 - w]->nr_nodes() == cnt && m[1 - w]->nr_variables() == nv, "an operation in one manager changes the other's counts");
    }
    for (int k = 0; k < 2; ++k) { CHECK(m[k]->botsink() != m[1 - k]->botsink() && m[k]->topsink() != m[1 - k]->topsink(), "terminals shared"); for (size_t i = 0; i < h[k].size(); ++i) { check_fn(h[k][i], t[k][i], vars, "BDD with two managers"); CHECK(h[k][i].find_bdd_mgr() == m[k], "handle finds the wrong manager"); CHECK(h[k][i].botsink() == m[k]->botsink() && h[k][i].topsink() == m[k]->topsink(), "handle finds the wrong terminals"); CHECK(h[k][i] == build(*m[k], t[k][i], vars), "handle"); for (auto& q : h[1 - k]) CHECK(q != h[k][i], "handles of different managers are equal"); } }
    // one of them goes; the other keeps working
    const int g = sx_choose("gone", 0, 1); h[g].clear(); delete m[g]; const int o = 1 - g; for (size_t i = 0; i < h[o].size(); ++i) { check_fn(h[o][i], t[o][i], vars, "BDD after the other manager is gone"); node_ref z = m[o]->xor_rec(h[o][i], h[o][0]); Bits r(1u << n); for (unsigned x = 0; x < r.size(); ++x) r[x] = t[o][i][x] != t[o][0][x]; check_fn(z, r, vars, "operation after the other manager is gone"); } 
    sx_reach("end"); sx_done();
}
// every handle of an arbitrary function, inner nodes included
SX_ENTRY(find_mgr) {
    const unsigned n = sx_param("n", 3); bdd_mgr* m1 = new bdd_mgr; bdd_mgr* m = new bdd_mgr; bdd_mgr* m3 = new bdd_mgr; Bits f = sym_tt("F", n); auto vars = seq(n, sx_choose("from", 0, 1)); build(*m1, f, vars); node_ref h = build(*m, f, vars); build(*m3, f, vars); std::vector<node_ref> ns; collect(h, ns); ns.push_back(h);
    for (auto& q : ns) { CHECK(q.find_bdd_mgr() == m, "handle finds the wrong manager"); CHECK(q.botsink() == m->botsink() && q.topsink() == m->topsink(), "handle finds the wrong terminals"); CHECK(q.botsink().is_botsink() && q.topsink().is_topsink(), "terminals"); } sx_reach("end"); sx_done();
}
