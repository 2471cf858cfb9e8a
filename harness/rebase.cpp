// Renaming of variables (C10).
#include "hx.h"
#include <map>
#include <unordered_map>
using namespace hx;
// all functions of n variables, arbitrary increasing target variables (existing or not), map / hash map / sequence
SX_ENTRY(rebase_all) {
    const unsigned n = sx_param("n", 3), maxgap = sx_param("gap", 2), have = sx_choose("have", 0, sx_param("have", 1)); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n + have; ++i) m->add_variable();
    Bits t = sym_tt("F", n); node_ref f = build(*m, t, vars); const size_t nodes0 = f.nr_nodes();
    const unsigned form = sx_choose("form", 0, 2);
    std::vector<size_t> target; size_t v = sx_choose("first", 0, maxgap); for (unsigned i = 0; i < n; ++i) { target.push_back(v); v += 1 + sx_choose("gap", 0, maxgap); }
    if (sx_param("far", 0)) for (auto& x : target) x += sx_param("far", 0);
    const size_t vars0 = m->nr_variables();
    node_ref r;
    if (form == 0) { std::map<size_t, size_t> mp; for (unsigned i = 0; i < n; ++i) mp[i] = target[i]; r = m->rebase(f, mp); }
    else if (form == 1) { std::unordered_map<size_t, size_t> mp; for (unsigned i = 0; i < n; ++i) mp[i] = target[i]; r = m->rebase(f, mp); }
    else r = m->rebase(f, target.begin(), target.end());
    CHECK(m->nr_variables() == std::max(vars0, target.back() + 1), "number of variables after rebasing");
    check_fn(r, t, target, "rebased BDD has another function");
    check_fn(f, t, vars, "rebasing changed the original");
    CHECK(r.nr_nodes() == nodes0, "sharing lost"); CHECK(f.nr_nodes() == nodes0, "original has other nodes");
    CHECK(r == build(*m, t, target), "rebased BDD is not canonical"); CHECK(f == build(*m, t, vars), "original no longer canonical"); check_wellformed(r);
    // and back
    { std::map<size_t, size_t> mp; for (unsigned i = 0; i < n; ++i) mp[target[i]] = i; CHECK(m->rebase(r, mp) == f, "renaming back does not give the original"); }
    sx_reach("end"); sx_done();
}
// only the support needs to be mapped; source variables spread
SX_ENTRY(rebase_support) {
    const unsigned n = sx_param("n", 2); bdd_mgr* m = new bdd_mgr; std::vector<size_t> src, dst; size_t s = sx_choose("s0", 0, 2), d = sx_choose("d0", 0, 2);
    for (unsigned i = 0; i < n; ++i) { src.push_back(s); s += 1 + sx_choose("sg", 0, 1); dst.push_back(d); d += 1 + sx_choose("dg", 0, 2); }
    for (unsigned i = sx_choose("more", 0, 1) * 4; i > 0; --i) m->add_variable();
    Bits t = sym_tt("F", n); node_ref f = build(*m, t, src); auto sup = f.variables();
    std::map<size_t, size_t> mp; for (unsigned i = 0; i < n; ++i) if (std::find(sup.begin(), sup.end(), src[i]) != sup.end() || sx_flag("extra")) mp[src[i]] = dst[i];
    const size_t nv = m->nr_variables(); 
    node_ref r = m->rebase(f, mp); CHECK(m->nr_variables() >= nv, "variables lost"); for (size_t v : r.variables()) CHECK(v < m->nr_variables(), "target variable missing"); check_fn(r, t, dst, "rebased BDD has another function"); check_fn(f, t, src, "rebasing changed the original");
    std::vector<size_t> seqm(src.back() + 1 + sx_choose("longer", 0, 1), 0); size_t last = 0; for (size_t v = 0; v < seqm.size(); ++v) { seqm[v] = last; for (unsigned i = 0; i < n; ++i) if (src[i] == v) seqm[v] = last = dst[i]; }
    CHECK(m->rebase(f, seqm.begin(), seqm.end()) == r, "map and sequence forms differ");
    sx_reach("end"); sx_done();
}
