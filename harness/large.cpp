// Large instances: symmetric functions of hundreds of variables (tens of thousands of nodes), where counters, tables and
// caches outgrow any small width. Expected results come from layers of unique_find requests, compared by handle.
#include "cx.h"
#include "bdd_node_depth.h"
using namespace hx;
typedef std::vector<char> Pred; // value by number of true variables
static Pred pred(unsigned n, unsigned kind) {
    Pred p(n + 1); for (unsigned c = 0; c <= n; ++c) switch (kind) {
        case 0: p[c] = c >= n / 3; break; case 1: p[c] = c % 3 == 1; break; case 2: p[c] = c & 1; break; case 3: p[c] = c >= n / 4 && c <= n / 2; break; case 4: p[c] = c == n / 2; break;
        case 5: p[c] = (c * 2654435761u >> 13) & 1; break; default: p[c] = c <= 1; }
    return p;
}
// the function "pred(number of true variables among v0, v0+st, ...)"
static node_ref sym(bdd_mgr& m, const Pred& p, size_t v0 = 0, size_t st = 1) {
    const size_t n = p.size() - 1; node_ref bot = m.botsink(), top = m.topsink(); std::vector<node_ref> cur; cur.reserve(n + 1);
    for (size_t c = 0; c <= n; ++c) cur.push_back(p[c] ? top : bot);
    for (size_t i = n; i-- > 0;) for (size_t c = 0; c <= i; ++c) cur[c] = m.unique_find(v0 + st * i, cur[c], cur[c + 1]);
    return cur[0];
}
static size_t nodes_of(const Pred& p) { // nodes of the reduced BDD: distinct non-constant windows of p
    const size_t n = p.size() - 1; size_t total = 0; std::vector<size_t> id(n + 1), nx; for (size_t c = 0; c <= n; ++c) id[c] = p[c]; size_t next = 2;
    for (size_t i = n; i-- > 0;) { std::map<std::pair<size_t, size_t>, size_t> seen; nx.assign(i + 1, 0); for (size_t c = 0; c <= i; ++c) { if (id[c] == id[c + 1]) { nx[c] = id[c]; continue; } auto k = std::make_pair(id[c], id[c + 1]); auto it = seen.find(k); if (it == seen.end()) { it = seen.insert({k, next++}).first; ++total; } nx[c] = it->second; } id = nx; }
    return total; // (all windows are reachable: every count is)
}
// long constant stretches make xor and ite negate large sub-BDDs, which the library does in exponential time: those get an alternating operand
static bool alternating(const Pred& a) { size_t run = 0, mx = 0; for (size_t c = 0; c < a.size(); ++c) { run = c && a[c] == a[c - 1] ? run + 1 : 1; if (run > mx) mx = run; } return mx <= 8; }
static Pred comb(const Pred& a, const Pred& b, unsigned op) {
    Pred r(a.size()), w = pred(a.size() - 1, 1), u = pred(a.size() - 1, 5); const bool alt = alternating(a) && alternating(b);
    for (size_t c = 0; c < r.size(); ++c) r[c] = op == 0 ? a[c] & b[c] : op == 1 ? a[c] | b[c] : op == 2 ? (alt ? a[c] ^ b[c] : w[c] ? a[c] : u[c]) : op == 3 ? (a[c] ? b[c] : w[c]) : op == 4 ? (b[c] ? w[c] : a[c]) : a[c] & b[c];
    return r; }
static node_ref doop(bdd_mgr& m, node_ref f, node_ref g, const Pred& pf, const Pred& pg, unsigned op) {
    if (op == 0) return m.and_rec(f, g);
    if (op == 1) return m.or_rec(f, g);
    if (op == 2 && alternating(pf) && alternating(pg)) return m.xor_rec(f, g);
    if (op == 5) return std::get<0>(m.and_rec_limited(f, g, ~size_t(0)));
    node_ref w = sym(m, pred(pf.size() - 1, 1));
    return op == 2 ? m.ite_rec(w, f, sym(m, pred(pf.size() - 1, 5))) : op == 3 ? m.ite_rec(f, g, w) : m.ite_rec(g, w, f); }
static void add_vars(bdd_mgr& m, size_t n) { while (m.nr_variables() < n) m.add_variable(); }
static std::vector<char> pattern(size_t n, unsigned k) { std::vector<char> a(n); unsigned s = k * 2654435761u + 12345; for (auto& x : a) { s = s * 1664525u + 1013904223u; x = (s >> 28) < (k & 15); } return a; }
static size_t ones(const std::vector<char>& a) { size_t c = 0; for (char x : a) c += x; return c; }

SX_ENTRY(big_ops) {
    const unsigned n = sx_param("n", 100), what = sx_param("what", 0), ops = sx_param("ops", 5); sx_key_mode = sx_param("keys", 5);
    bdd_mgr* m = new bdd_mgr; add_vars(*m, n); const Pred pf = pred(n, sx_choose("f", 0, sx_param("kf", 4))), pg = pred(n, sx_choose("g", sx_param("g0", 0), sx_param("kg", 5)));
    node_ref f = sym(*m, pf), g = sym(*m, pg); const unsigned o1 = sx_choose("op1", 0, ops);
    node_ref r = doop(*m, f, g, pf, pg, o1); CHECK(r == sym(*m, comb(pf, pg, o1)), "operation on large BDDs is wrong or not canonical");
    auto a = pattern(n, sx_choose("pattern", 0, sx_param("pats", 2))); CHECK(r.evaluate(a.begin(), a.end()) == (bool)comb(pf, pg, o1)[ones(a)], "value of the result");
    if (what & 1) for (unsigned o2 = 0; o2 <= 5; ++o2) { node_ref q = doop(*m, f, g, pf, pg, o2); CHECK(q == sym(*m, comb(pf, pg, o2)), "operation after other operations on the same large BDDs"); }
    if (what & 2) { // collection in between, into storage of dropped BDDs
        const unsigned keep = sx_choose("keep", 0, 3); if (!(keep & 1)) r = node_ref(); if (!(keep & 2)) g = node_ref();
        m->collect_garbage();
        const Pred p2 = pred(n, sx_param("second", 5)); node_ref h = sym(*m, p2);
        for (unsigned o2 = 0; o2 <= 5; ++o2) { node_ref q = doop(*m, f, h, pf, p2, o2); CHECK(q == sym(*m, comb(pf, p2, o2)), "operation after a collection"); }
        if (keep & 2) { CHECK(sym(*m, pg) == g, "kept BDD not found again"); node_ref q = doop(*m, f, g, pf, pg, o1); if (keep & 1) CHECK(q == r, "operation after collection differs from the kept result"); }
    }
    sx_reach("end"); sx_done();
}
SX_ENTRY(big_gc) {
    const unsigned n = sx_param("n", 300); sx_key_mode = sx_param("keys", 5); bdd_mgr* m = new bdd_mgr; add_vars(*m, n);
    std::vector<Pred> ps = {pred(n, 5), pred(n, 1), pred(n, 3)}; std::vector<node_ref> h; for (auto& p : ps) h.push_back(sym(*m, p));
    for (unsigned round = 0; round < sx_param("rounds", 2); ++round) {
        for (unsigned i = 0; i < 3; ++i) { const bool k = sx_flag("keep"); if (!k) h[i] = node_ref(); }
        m->collect_garbage();
        std::unordered_set<node*> live; for (auto& x : h) if (x.address()) for (auto& q : x.nodes_postorder()) live.insert(q.address());
        CHECK(m->nr_nodes() == 2 + live.size(), "node count after collecting large BDDs");
        for (unsigned i = 0; i < 3; ++i) { const size_t before = m->nr_nodes(); node_ref q = sym(*m, ps[i]); if (h[i].address()) { CHECK(q == h[i], "kept BDD not found again"); } h[i] = q; }
        std::vector<char> a = pattern(n, 7 + round); for (unsigned i = 0; i < 3; ++i) CHECK(h[i].evaluate(a.begin(), a.end()) == (bool)ps[i][ones(a)], "value after collection");
    }
    h.clear(); m->collect_garbage(); CHECK(m->nr_nodes() == 2, "count after dropping everything"); CHECK(m->botsink().reference_count() == 2 && m->topsink().reference_count() == 2, "terminal references left");
    sx_reach("end"); delete m; sx_reach("destroyed"); sx_done();
}
SX_ENTRY(big_traverse) {
    const unsigned n = sx_param("n", 400), st = 1 + 2 * sx_choose("st", 0, 1); sx_key_mode = 5; bdd_mgr* m = new bdd_mgr; add_vars(*m, size_t(n) * st);
    const Pred p = pred(n, sx_choose("kind", sx_param("k0", 4), 5)); node_ref f = sym(*m, p, 0, st); const size_t want = nodes_of(p);
    const unsigned q = sx_choose("query", 0, 3);
    for (int rep = 0; rep < 2; ++rep) {
        if (q == 0) CHECK(f.nr_nodes() == want, "node count of a large BDD");
        if (q == 1) { auto v = f.nodes_postorder(); CHECK(v.size() == want && v.back() == f, "postorder of a large BDD"); std::unordered_set<node*> seen; for (auto& x : v) { CHECK(seen.insert(x.address()).second, "listed twice"); CHECK((x.low().is_terminal() || seen.count(x.low().address())) && (x.high().is_terminal() || seen.count(x.high().address())), "child after parent"); } }
        if (q == 2) { auto v = f.nodes_bfs(); CHECK(v.size() == want && v[0] == f, "breadth-first list of a large BDD"); std::unordered_map<node*, size_t> d; d[f.address()] = 0; size_t last = 0; std::unordered_set<node*> seen; for (auto& x : v) { CHECK(seen.insert(x.address()).second, "listed twice"); auto it = d.find(x.address()); CHECK(it != d.end(), "node before its parents"); CHECK(it->second >= last, "not by increasing distance"); last = it->second; for (node_ref y : {x.low(), x.high()}) if (!y.is_terminal()) d.insert({y.address(), last + 1}); } }
        if (q == 3) { auto v = f.variables(); CHECK(v.size() == n, "support of a large BDD"); for (size_t i = 0; i < v.size(); ++i) CHECK(v[i] == i * st, "support of a large BDD"); }
    }
    CHECK(!f.marked() && f.nr_nodes() == want, "marks left behind");
    sx_reach("end"); sx_done();
}
SX_ENTRY(big_rebase) {
    const unsigned n = sx_param("n", 300), form = sx_choose("form", 0, 1), st = sx_choose("st", 1, 2), off = sx_choose("off", 0, 1) * 300; sx_key_mode = 5; bdd_mgr* m = new bdd_mgr; add_vars(*m, n);
    const Pred p = pred(n, 5); node_ref f = sym(*m, p), r;
    if (form == 0) { std::unordered_map<size_t, size_t> mp; for (size_t i = 0; i < n; ++i) mp[i] = off + i * st; r = m->rebase(f, mp); } else { std::vector<size_t> v; for (size_t i = 0; i < n; ++i) v.push_back(off + i * st); r = m->rebase(f, v.begin(), v.end()); }
    CHECK(m->nr_variables() >= off + (n - 1) * st + 1, "target variables missing"); CHECK(r == sym(*m, p, off, st), "rebased large BDD is wrong"); CHECK(f == sym(*m, p), "original changed"); CHECK(r.nr_nodes() == f.nr_nodes(), "sharing lost");
    sx_reach("end"); sx_done();
}
// collections of more than 65536 instructions
SX_ENTRY(big_coll) {
    const unsigned n = sx_param("n", 120), what = sx_choose("what", sx_param("w0", 0), sx_param("w1", 5)); sx_key_mode = 5; bdd_mgr* m = new bdd_mgr; bdd_collection* c = new bdd_collection; add_vars(*m, 2 * n);
    const size_t total = sx_param("total", 66000); std::vector<Pred> ps; std::vector<node_ref> fs; const unsigned first = sx_choose("first", 0, 1);
    for (unsigned k = 0; k < 3; ++k) { ps.push_back(pred(n, k == 0 ? 5 : k)); fs.push_back(sym(*m, ps.back())); }
    std::vector<size_t> kind; size_t sum = 0; for (unsigned k = first; sum < total; ++k) { const size_t w = k % 4 == 3 ? 1 : k % 4 == 2 ? 2 : 0; const size_t i = c->add_bdd(fs[w]); CHECK(i == kind.size(), "index of the added BDD"); kind.push_back(w); sum += c->nr_bdd_nodes(i); CHECK(c->nr_bdd_nodes(i) == nodes_of(ps[w]) + 2, "node count of a stored BDD"); }
    const size_t B = kind.size(); const unsigned pat = sx_choose("pattern", 0, 1); auto a = pattern(2 * n, 8 + pat); size_t cnt = 0; for (unsigned i = 0; i < n; ++i) cnt += a[i];
    auto chk = [&](size_t i, size_t w, const char* msg) { CHECK(c->evaluate(i, a.begin(), a.end()) == (bool)ps[w][cnt], msg); };
    const size_t L = B - 1, M = B - 2;
    if (what == 0) { for (size_t i : {size_t(0), M, L}) { CHECK(c->export_bdd(*m, i) == fs[kind[i]], "export of a large collection"); CHECK(m->add_bdd(*c, i) == fs[kind[i]], "import from a large collection"); } }
    if (what == 1) { std::vector<size_t> r; for (size_t i = 0; i + 2 < B; ++i) if (i % 3 != 1) r.push_back(i); std::vector<size_t> rest; for (size_t i = 0; i < B; ++i) if (!(i + 2 < B && i % 3 != 1)) rest.push_back(kind[i]); c->remove(r.begin(), r.end()); CHECK(c->nr_bdds() == rest.size(), "number of BDDs after removal"); for (size_t i = 0; i < rest.size(); ++i) { chk(i, rest[i], "remaining BDD changed"); CHECK(c->nr_bdd_nodes(i) == nodes_of(ps[rest[i]]) + 2, "node count after removal"); } CHECK(c->export_bdd(*m, rest.size() - 1) == fs[rest.back()], "remaining BDD changed"); }
    if (what == 2) { const size_t k = c->bdd_and(M, L); CHECK(k == B, "index of the result"); CHECK(c->export_bdd(*m, k) == sym(*m, comb(ps[kind[M]], ps[kind[L]], 0)), "conjunction in a large collection"); const size_t need = c->nr_bdd_nodes(k); CHECK(c->bdd_and(M, L, need - 1) == ~size_t(0) && c->nr_bdds() == B + 1, "limit below the need"); CHECK(c->bdd_and(L, M, need) == B + 1 && c->nr_bdd_nodes(B + 1) == need, "limit that just suffices"); }
    if (what == 3) { std::vector<size_t> l{M, L, 0}; const size_t k = c->bdd_and(l.begin(), l.end()); CHECK(k == B, "index of the result"); Pred q = comb(comb(ps[kind[M]], ps[kind[L]], 0), ps[kind[0]], 0); CHECK(c->export_bdd(*m, k) == sym(*m, q), "list conjunction in a large collection"); const size_t need = c->nr_bdd_nodes(k); CHECK(c->bdd_and(l.begin(), l.end(), need - 1) == ~size_t(0) && c->nr_bdds() == B + 1, "limit below the need"); CHECK(c->bdd_and(l.begin(), l.end(), need) == B + 1, "limit that just suffices"); }
    if (what == 4) { std::vector<size_t> mp; for (size_t i = 0; i < 2 * n; ++i) mp.push_back(i + n); c->rebase(M, mp.begin(), mp.end()); CHECK(c->export_bdd(*m, M) == sym(*m, ps[kind[M]], n), "rebased BDD of a large collection"); CHECK(c->export_bdd(*m, L) == fs[kind[L]] && c->export_bdd(*m, M - 1) == fs[kind[M - 1]], "neighbour of a rebased BDD changed"); auto v = c->variables(M); CHECK(v.size() == n && v[0] == n && v.back() == 2 * n - 1, "support after rebasing"); }
    if (what == 5) { std::set<size_t> p{0, 2}, q{1}; const size_t i = kind[L] == 1 ? L : M, w = kind[i]; const size_t k = c->bdd_or_var(i, p, q); CHECK(k == B, "index of the result"); node_ref o = m->or_rec(m->or_rec(fs[w], m->projection(0)), m->or_rec(m->projection(2), m->neg_projection(1))); CHECK(c->export_bdd(*m, k) == o, "disjunction with literals in a large collection"); CHECK(c->nr_bdd_nodes(k) == o.nr_nodes() + 2, "result not reduced"); auto e = (*c)[k]; CHECK(e.nr_nodes() == o.nr_nodes() + 2 && e.botsink().is_botsink() && e.topsink().is_topsink(), "views of the result"); size_t per = 0; for (size_t v = 0; v < n; ++v) per += e.nr_nodes(v); CHECK(per + 2 == e.nr_nodes(), "per-variable counts"); }
    for (size_t i : {size_t(0), L}) if (what != 1) chk(i, kind[i], "other BDD of the collection changed");
    CHECK(c->nr_bdd_nodes(0) > 0, "counts");
    sx_reach("end"); sx_done();
}
// chains of many variables
SX_ENTRY(big_chain) {
    const unsigned n = sx_param("n", 3000), kind = sx_choose("kind", 0, 3); sx_key_mode = 5; bdd_mgr* m = new bdd_mgr; add_vars(*m, n + 2); bdd_node_depth d; const bool dep = sx_param("depth", 0); if (dep) { d.add_botsink(m->botsink().address()); d.add_topsink(m->topsink().address()); }
    node_ref f = m->topsink(); const unsigned odd = sx_choose("odd", 0, 2) * (n / 2 - 1);
    for (unsigned i = n; i-- > 0;) { node_ref z = m->botsink(); if (kind == 1 && i == odd) z = m->topsink(); if (kind == 2 && i == odd) z = f; if (i == odd && kind == 3) { z = f; f = m->botsink(); } f = (i & 1) ? m->unique_find(i, z, f) : m->unique_find(i, f, z); if (dep && !f.is_terminal() && !(kind == 2 && i == odd)) CHECK(d.add_node(f.address()) == n - i - (kind == 2 && i < odd ? 1 : 0), "depth of a long chain"); }
    CHECK(f.exactly_one_solution() == (kind != 1), "unique solution of a long chain"); // in kind 2 the variable skipped is not in the support
    CHECK(f.nr_nodes() == n - (kind == 2), "node count of a chain"); CHECK(f.variables().size() == n - (kind == 2), "support of a chain"); CHECK(f.find_bdd_mgr() == m && f.topsink() == m->topsink() && f.botsink() == m->botsink(), "manager of a chain");
    CHECK(m->negate(m->negate(f)) == f, "double negation of a chain");
    sx_reach("end"); sx_done();
}
// very many handles, variables, managers
SX_ENTRY(big_counts) {
    const unsigned what = sx_choose("what", 0, 1); bdd_mgr* m = new bdd_mgr;
    if (what == 0) { add_vars(*m, 3); node_ref f = m->and_rec(m->projection(0), m->projection(1)); const size_t b = f.reference_count(); const size_t N = sx_param("N", 140000); { std::vector<node_ref> v(N, f); CHECK(f.reference_count() == b + N, "many handles"); std::vector<node_ref> w = std::move(v); CHECK(f.reference_count() == b + N, "moved handles"); w.resize(N / 2); CHECK(f.reference_count() == b + N / 2, "half of the handles"); m->collect_garbage(); CHECK(f.nr_nodes() == 2, "collection with many handles"); } CHECK(f.reference_count() == b, "all handles gone"); }
    if (what == 1) { const size_t N = sx_param("V", 66000); sx_key_mode = 5; std::vector<node_ref> k; for (size_t i = 0; i < N; ++i) { if (i % 3) { CHECK(m->add_variable() == i, "index of a new variable"); } else { node_ref p = m->projection(i); CHECK(p.variable() == i && p.low() == m->botsink() && p.high() == m->topsink(), "literal"); if (i % 33 == 0) k.push_back(p); } CHECK(m->nr_variables() == i + 1, "number of variables"); }
        for (size_t j = 0; j < k.size(); ++j) CHECK(m->projection(33 * j) == k[j] && k[j].variable() == 33 * j, "literal lost as variables were added"); node_ref r = m->and_rec(m->projection(1), m->projection(N - 1)); CHECK(r.variable() == 1 && r.high() == m->projection(N - 1) && r.low() == m->botsink(), "operation on distant variables"); node_ref q = m->neg_projection(N - 2); CHECK(q == m->negate(m->projection(N - 2)), "negative literal"); }
    sx_reach("end"); sx_done();
}
