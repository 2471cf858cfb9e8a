// Collections: disjunction with literals (C16), rebase and removal (C17), views and queries (C18), node-by-node construction (C21), exports (C23).
#include "cx.h"
using namespace cx;
// every path to the false terminal tests variable v
static bool false_needs(const cnode& p, size_t v) { if (p.is_topsink()) return true; if (p.is_botsink()) return false; if (p.variable() == v) return true; return false_needs(p.low(), v) && false_needs(p.high(), v); }
template <class SET> static size_t orvar(Col& C, size_t k, const std::vector<size_t>& pos, const std::vector<size_t>& neg) { SET a(pos.begin(), pos.end()), b(neg.begin(), neg.end()); return C.c->bdd_or_var(k, a, b); }
struct MapSet { std::map<size_t, size_t> m; template <class I> MapSet(I b, I e) { for (; b != e; ++b) m[*b] = 1; } size_t count(size_t v) const { return m.count(v); } };
SX_ENTRY(or_var) {
    const unsigned n = sx_param("n", 3), extra = sx_param("extra", 1); Col C(n + extra); // the last `extra` variables are outside the support
    if (sx_flag("pre")) C.add(tt_kind(n + extra, 0));
    Bits f = lift(sym_tt("F", n), n + extra, 0); const size_t k = C.add(f); if (sx_param("post", 0)) C.add(tt_kind(n + extra, 1));
    std::vector<size_t> pos, neg; for (unsigned i = 0; i < n + extra; ++i) { unsigned s = sx_choose("sign", 0, i < n ? 3 : sx_param("xs", 1)); if (s & 1) pos.push_back(i); if (s & 2) neg.push_back(i); }
    bool exact = true; { cnode r = (*C.c)[k].root_node(); for (auto v : pos) exact &= false_needs(r, v); for (auto v : neg) exact &= false_needs(r, v); }
    const unsigned form = sx_param("forms", 0) ? sx_choose("form", 0, 2) : pos.size() % 3;
    const size_t q = form == 0 ? orvar<std::unordered_set<size_t>>(C, k, pos, neg) : form == 1 ? orvar<std::set<size_t>>(C, k, pos, neg) : orvar<MapSet>(C, k, pos, neg);
    CHECK(q == C.t.size(), "index of the result"); CHECK(C.c->nr_bdds() == q + 1, "number of BDDs");
    Bits d = f; for (unsigned x = 0; x < d.size(); ++x) { for (auto v : pos) if (x >> v & 1) d[x] = 1; for (auto v : neg) if (!(x >> v & 1)) d[x] = 1; }
    const uint64_t x = sx_sym("x", n + extra); const uint64_t r = cvalue((*C.c)[q].root_node(), C.vars, x), lo = ttval(f, x), hi = ttval(d, x);
    CHECK(lo <= r && r <= hi, "result is not between the original and the disjunction"); if (exact) { CHECK(r == hi, "result is not the disjunction although all paths to false test the variables"); sx_reach("exact"); } else sx_reach("inexact");
    check_rep(*C.c, q); C.check_all_but_count("original or another BDD changed");
    // the result can be used: canonical handle of what it denotes, node count that of the canonical BDD
    node_ref h = C.c->export_bdd(*C.m, q); CHECK(h.nr_nodes() + 2 == C.c->nr_bdd_nodes(q), "result is not reduced"); CHECK(value(h, C.vars, x) == r, "export of the result");
    CHECK(C.c->add_bdd(h) == q + 1, "index after the result");
    sx_reach("end"); sx_done();
}
// clauses and simplices of m variables (every path to false tests all clause variables), arbitrary signs; large BDDs
SX_ENTRY(or_var_clause) {
    const unsigned m = sx_choose("m", 1, sx_param("M", 6)), n = m + 1; Col C(n); const bool simplex = sx_flag("simplex");
    Bits f(1u << n); unsigned sg = sx_pick(sx_sym("lits", m)); for (unsigned x = 0; x < f.size(); ++x) f[x] = simplex ? __builtin_popcount((x ^ sg) & ((1u << m) - 1)) <= 1 && (x >> m & 1) : ((x ^ sg) & ((1u << m) - 1)) != 0;
    const size_t k = C.add(f); std::vector<size_t> pos, neg; unsigned nm = sx_pick(sx_sym("neg", m)); for (unsigned i = 0; i < m; ++i) (nm >> i & 1 ? neg : pos).push_back(i);
    bool exact = true; { cnode r = (*C.c)[k].root_node(); for (auto v : pos) exact &= false_needs(r, v); for (auto v : neg) exact &= false_needs(r, v); }
    const size_t q = orvar<std::unordered_set<size_t>>(C, k, pos, neg); Bits d = f; for (unsigned x = 0; x < d.size(); ++x) { for (auto v : pos) if (x >> v & 1) d[x] = 1; for (auto v : neg) if (!(x >> v & 1)) d[x] = 1; }
    const uint64_t x = sx_sym("x", n); const uint64_t r = cvalue((*C.c)[q].root_node(), C.vars, x); CHECK(ttval(f, x) <= r && r <= ttval(d, x), "result is not between the original and the disjunction"); if (exact) CHECK(r == ttval(d, x), "result is not the disjunction although all paths to false test the variables");
    check_rep(*C.c, q); C.check_all_but_count("original changed"); sx_reach("end"); sx_done();
}
SX_ENTRY(or_var_large) { // more than 127 nodes disappear, or the whole BDD does
    const size_t L = sx_param("L", 150); bdd_mgr* m = new bdd_mgr; for (size_t i = 0; i < L + 1; ++i) m->add_variable(); bdd_collection* c = new bdd_collection; std::vector<node_ref> v; for (size_t i = 0; i < L; ++i) v.push_back(m->projection(i));
    node_ref f = sx_flag("simplex") ? m->simplex(v.begin(), v.end()) : m->and_rec(m->at_least(v.begin(), v.begin() + 20, 3), m->at_most(v.begin() + 10, v.begin() + 30, 15)); c->add_bdd(f);
    const size_t at = sx_choose("at", 0, 3) * 9; const bool ng = sx_flag("neg"), both = sx_flag("both"); std::unordered_set<size_t> pos, neg; (ng ? neg : pos).insert(at); if (both) (ng ? pos : neg).insert(at + 2); pos.insert(L); // L: not in the support
    const size_t n0 = c->nr_bdd_nodes(0); const size_t q = c->bdd_or_var(0, pos, neg); CHECK(q == 1 && c->nr_bdds() == 2 && c->nr_bdd_nodes(0) == n0, "index or original"); CHECK(c->export_bdd(*m, 0) == f, "original changed");
    node_ref r = c->export_bdd(*m, q); node_ref d = m->or_rec(f, m->projection(L)); for (auto i : pos) d = m->or_rec(d, m->projection(i)); for (auto i : neg) d = m->or_rec(d, m->neg_projection(i));
    CHECK(m->or_rec(f, r) == r, "result below the original"); CHECK(m->or_rec(r, d) == d, "result above the disjunction"); CHECK(c->nr_bdd_nodes(q) == r.nr_nodes() + 2, "result is not reduced"); check_rep(*c, q);
    sx_reach("end"); sx_done();
}

// several BDDs, one renamed
SX_ENTRY(crebase) {
    const unsigned n = sx_param("n", 2), N = sx_param("N", 3), gap = sx_param("gap", 2); Col C(n); const unsigned at = sx_choose("at", 0, N - 1); Bits f = sym_tt("F", n);
    for (unsigned i = 0; i < N; ++i) C.add(i == at ? f : tt_kind(n, (i + sx_param("k0", 0)) % 8));
    std::vector<size_t> to; size_t v = sx_choose("first", 0, gap); for (unsigned i = 0; i < n; ++i) { to.push_back(v); v += 1 + sx_choose("gap", 0, gap); }
    const unsigned form = sx_choose("form", 0, 4); std::map<size_t, size_t> om; std::unordered_map<size_t, size_t> um; for (unsigned i = 0; i < n; ++i) { om[i] = to[i]; um[i] = to[i]; } bdd_collection_entry e = (*C.c)[at];
    if (form == 0) C.c->rebase(at, om); else if (form == 1) C.c->rebase(at, um); else if (form == 2) C.c->rebase(at, to.begin(), to.end()); else if (form == 3) e.rebase(om); else e.rebase(to.begin(), to.end());
    C.v[at] = to; C.check_all("renaming: wrong function, or another BDD changed"); C.check_eval(at, "evaluate the renamed BDD"); { auto s = C.c->variables(at); node_ref h = build(*C.m, f, to); CHECK(s == h.variables(), "support after renaming"); CHECK(C.c->export_bdd(*C.m, at) == h, "export after renaming"); }
    for (unsigned i = 0; i < N; ++i) CHECK(C.c->export_bdd(*C.m, i) == build(*C.m, C.t[i], C.v[i]), "another BDD changed");
    // and an operation on the renamed one
    size_t q = C.c->bdd_and((size_t)at, (size_t)((at + 1) % N)); CHECK(q == N, "index"); CHECK(C.c->export_bdd(*C.m, q) == C.m->and_rec(build(*C.m, f, to), build(*C.m, C.t[(at + 1) % N], C.v[(at + 1) % N])), "conjunction after renaming");
    sx_reach("end"); sx_done();
}
// any subset removed
SX_ENTRY(cremove) {
    const unsigned n = sx_param("n", 2), N = sx_param("N", 4); Col C(n); const unsigned at = sx_choose("at", 0, N - 1); Bits f = sym_tt("F", n); const unsigned rounds = sx_param("rounds", 1);
    for (unsigned i = 0; i < N; ++i) C.add(i == at ? f : tt_kind(n, (i * 3 + sx_param("k0", 0)) % 8));
    for (unsigned r = 0; r < rounds; ++r) {
        std::vector<size_t> rem; std::vector<Bits> t2; std::vector<std::vector<size_t>> v2; for (size_t i = 0; i < C.t.size(); ++i) if (sx_flag("remove")) rem.push_back(i); else { t2.push_back(C.t[i]); v2.push_back(C.v[i]); }
        C.c->remove(rem.begin(), rem.end()); C.t = t2; C.v = v2; C.check_all("removal: a remaining BDD changed");
        for (size_t i = 0; i < C.t.size(); ++i) CHECK(C.c->export_bdd(*C.m, i) == build(*C.m, C.t[i], C.vars), "export after removal");
        if (sx_param("ops", 1)) {
            Bits g = tt_kind(n, 6); CHECK(C.c->add_bdd(build(*C.m, g, C.vars)) == C.t.size(), "index after removal"); C.note(g);
            size_t b = C.t.size() - 1, a = sx_choose("a", 0, b); Bits h = tt_and(C.t[a], C.t[b]); CHECK(C.c->bdd_and(a, b) == C.t.size(), "index after removal"); C.note(h);
        }
    }
    C.check_all("operations after removal"); C.check_eval(C.t.size() - 1, "evaluate after removal");
    sx_reach("end"); sx_done();
}
// a longer collection
SX_ENTRY(cremove_many) {
    const unsigned n = 3, N = sx_param("N", 40); Col C(n); for (unsigned i = 0; i < N; ++i) C.add(tt_kind(n, (i * 5) % 8)); const unsigned period = sx_choose("period", 1, 6), off = sx_choose("off", 0, 5); std::vector<size_t> rem; std::vector<Bits> t2; std::vector<std::vector<size_t>> v2; for (unsigned i = 0; i < N; ++i) if ((i + off) % period == 0) rem.push_back(i); else { t2.push_back(C.t[i]); v2.push_back(C.v[i]); }
    C.c->remove(rem.begin(), rem.end()); C.t = t2; C.v = v2; C.check_all("removal of many"); sx_reach("end"); sx_done();
}

// queries and navigation of BDD k, which should be t over vars
static void check_views(Col& C, size_t k) {
    bdd_collection_entry e = (*C.c)[k]; node_ref h = build(*C.m, C.t[k], C.v[k]); C.check(k, "navigation disagrees with the function");
    CHECK(e.variables() == h.variables() && C.c->variables(k) == h.variables(), "support"); CHECK(e.nr_nodes() == h.nr_nodes() + 2 && C.c->nr_bdd_nodes(k) == e.nr_nodes(), "node count");
    auto ns = h.nodes_postorder(); for (size_t v = 0; v <= C.v[k].back() + 1; ++v) { size_t want = 0; for (auto& q : ns) if (q.variable() == v) ++want; CHECK(e.nr_nodes(v) == want && C.c->nr_bdd_nodes(k, v) == want, "node count of a variable"); }
    const size_t n = e.nr_nodes(); CHECK(e[0] == e.root_node(), "first node is the root"); cnode b = e.botsink(), t = e.topsink(); CHECK(b.is_terminal() && t.is_terminal() && b.is_botsink() && !b.is_topsink() && t.is_topsink() && !t.is_botsink() && b != t, "terminal views");
    std::vector<cnode> in; ccollect(e.root_node(), in); for (size_t i = 0; i < n; ++i) { cnode q = e[i]; bool inner = false; for (auto& r : in) if (r == q) { inner = true; CHECK(std::hash<cnode>()(r) == std::hash<cnode>()(q), "equal views with different hashes"); } CHECK(inner == !q.is_terminal(), "inner nodes by index"); if (q.is_terminal()) CHECK(q == b || q == t, "third terminal"); else { CHECK(q.lo() == q.low() && q.hi() == q.high(), "lo/low"); cnode z = q.low(); if (z.is_terminal()) CHECK(z == (z.is_topsink() ? t : b), "arc to a terminal"); z = q.high(); if (z.is_terminal()) CHECK(z == (z.is_topsink() ? t : b), "arc to a terminal"); } }
    if (n > 2) { std::vector<cnode> seen; cnode p = e.first_node_postorder(); for (;;) { CHECK(!p.is_terminal(), "postorder lists a terminal"); for (auto& q : seen) CHECK(q != p, "postorder lists a node twice"); for (int s = 0; s < 2; ++s) { cnode ch = s ? p.high() : p.low(); bool ok = ch.is_terminal(); for (auto& q : seen) ok |= q == ch; CHECK(ok, "postorder lists a node before its branches"); } seen.push_back(p); if (p == e.root_node()) break; p = p.next_postorder(); CHECK(seen.size() <= n, "postorder does not end"); } CHECK(seen.size() + 2 == n, "postorder leaves nodes out"); }
    else CHECK(e.root_node().is_terminal(), "root of a constant");
    C.check_eval(k, "evaluate");
}
SX_ENTRY(views) {
    const unsigned n = sx_param("n", 2), how = sx_choose("how", 0, sx_param("hows", 6)); Col C(n); if (sx_flag("pre")) C.add(tt_kind(n, 1));
    Bits f = sym_tt("F", n), g = sx_param("g", 1) ? sym_tt("G", n) : tt_kind(n, 3); size_t i = C.add(f), k = i;
    if (how == 0) {} else if (how == 1) { size_t j = C.add(g); k = C.c->bdd_and(i, j); C.note(tt_and(f, g)); }
    else if (how == 2) { size_t j = C.add(g); std::vector<size_t> l{j, i, j}; k = C.c->bdd_and(l.begin(), l.end()); C.note(tt_and(f, g)); }
    else if (how == 3) { std::unordered_set<size_t> a, b; if (g[0]) a.insert(0); if (g[1]) a.insert(n - 1); if (g[2]) b.insert(0); if (g[3]) b.insert(n - 1); k = C.c->bdd_or_var(i, a, b); // which function: read off by evaluation, the views must agree with it
        Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) { std::vector<char> as(n); for (unsigned v = 0; v < n; ++v) as[v] = x >> v & 1; t[x] = C.c->evaluate(k, as.begin(), as.end()); } C.note(t); }
    else if (how == 4) { C.add(g); size_t r = sx_choose("rem", 0, C.t.size() - 1); std::vector<size_t> l{r}; C.c->remove(l.begin(), l.end()); C.t.erase(C.t.begin() + r); C.v.erase(C.v.begin() + r); k = C.t.size() - 1; }
    else if (how == 5) { std::vector<size_t> to; for (unsigned v = 0; v < n; ++v) to.push_back(2 * v + 1); C.c->rebase(i, to.begin(), to.end()); C.v[i] = to; }
    else { C.c->new_bdd(); k = C.t.size(); cnode a = C.c->add_bdd_node(0); cnode b = C.c->add_bdd_node(1); a.set_lo_arc(b); if (g[0]) a.set_hi_to_1_terminal(); else a.set_hi_to_0_terminal(); if (g[1]) { b.set_lo_to_1_terminal(); b.set_hi_to_0_terminal(); } else { b.set_lo_to_0_terminal(); b.set_hi_to_1_terminal(); } C.c->close_bdd(); Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) t[x] = x & 1 ? g[0] : g[1] ? !(x >> 1 & 1) : (x >> 1 & 1); C.note(t); }
    CHECK(k < C.t.size() && C.c->nr_bdds() == C.t.size(), "number of BDDs"); check_views(C, k); for (size_t j = 0; j < C.t.size(); ++j) if (j != k) check_views(C, j);
    sx_reach("end"); sx_done();
}

// node by node: k nodes, arcs to any later node, a terminal or unset; set in any of two orders
SX_ENTRY(builder) {
    const unsigned k = sx_param("k", 3), nv = sx_param("nv", 3); Col C(nv); if (sx_flag("pre")) C.add(tt_kind(nv, 3));
    const size_t nr = C.c->new_bdd(); CHECK(nr == C.t.size(), "index of the new BDD"); std::vector<cnode> ns; std::vector<size_t> var; std::vector<unsigned> lo(k), hi(k); const bool early = sx_flag("early");
    // arcs: 0 unset, 1 false, 2 true, 3+j: node i+1+j
    for (unsigned i = 0; i < k; ++i) { lo[i] = sx_choose("lo", sx_param("unset", 1) ? 0 : 1, 2 + (k - 1 - i)); hi[i] = sx_choose("hi", sx_param("unset", 1) ? 0 : 1, 2 + (k - 1 - i)); }
    auto term = [&](unsigned i) { if (lo[i] == 1) ns[i].set_lo_to_0_terminal(); if (lo[i] == 2) ns[i].set_lo_to_1_terminal(); if (hi[i] == 1) ns[i].set_hi_to_0_terminal(); if (hi[i] == 2) ns[i].set_hi_to_1_terminal(); };
    for (unsigned i = 0; i < k; ++i) { size_t v = sx_param("anyvar", 1) ? sx_choose("var", 0, nv - 1) : i; var.push_back(v); ns.push_back(C.c->add_bdd_node(v)); if (early) term(i); }
    for (unsigned i = 0; i < k; ++i) { if (lo[i] >= 3) ns[i].set_lo_arc(ns[i + lo[i] - 2]); if (hi[i] >= 3) ns[i].set_hi_arc(ns[i + hi[i] - 2]); if (!early) term(i); }
    bool unset = false; for (unsigned i = 0; i < k; ++i) unset |= !lo[i] || !hi[i]; bool threw = false; try { C.c->close_bdd(); } catch (const std::exception&) { threw = true; } CHECK(threw == unset, "unset arc not reported, or error without one");
    if (threw) { sx_reach("refused"); sx_done(); }
    auto walk = [&](unsigned x) { unsigned i = 0; for (;;) { unsigned a = x >> var[i] & 1 ? hi[i] : lo[i]; if (a == 1) return 0; if (a == 2) return 1; i += a - 2; } };
    Bits t(1u << nv); for (unsigned x = 0; x < t.size(); ++x) t[x] = walk(x); C.t.push_back(t); C.v.push_back(C.vars); CHECK(C.c->nr_bdds() == C.t.size() && C.c->nr_bdd_nodes(nr) == k + 2, "number of BDDs or nodes");
    auto proper = [&] { for (unsigned i = 0; i < k; ++i) if (lo[i] == hi[i]) return false; return true; }; // a node with equal arcs is evaluated, but not navigated
    const uint64_t x = sx_sym("x", nv); if (proper()) CHECK(cvalue((*C.c)[nr].root_node(), C.vars, x, -20) == ttval(t, x), "built BDD differs from the description"); C.check_eval(nr, "evaluate the built BDD"); if (nr) C.check(0, "earlier BDD changed");
    // arcs can be rerouted to a terminal after closing
    const unsigned at = sx_choose("reroute", 0, k - 1); bdd_collection_entry e = (*C.c)[nr]; cnode q = e[at]; CHECK(q.variable() == var[at], "variable of a node"); const bool h = sx_flag("rhi"), one = sx_flag("rone"); if (h) { if (one) q.set_hi_to_1_terminal(); else q.set_hi_to_0_terminal(); hi[at] = 1 + one; } else { if (one) q.set_lo_to_1_terminal(); else q.set_lo_to_0_terminal(); lo[at] = 1 + one; }
    for (unsigned y = 0; y < t.size(); ++y) t[y] = walk(y); if (proper()) CHECK(cvalue(e.root_node(), C.vars, x, -20) == ttval(t, x), "rerouted BDD differs from the description");
    C.t[nr] = t; C.check_eval(nr, "evaluate the rerouted BDD");
    sx_reach("end"); sx_done();
}
// ordered and reduced descriptions behave like any other BDD of the collection
SX_ENTRY(builder_canon) {
    const unsigned n = sx_param("n", 3); Col C(n); Bits f = sym_tt("F", n); node_ref h = build(*C.m, f, C.vars); if (h.is_terminal()) sx_done(); C.add(tt_kind(n, 0)); auto ns = h.nodes_postorder(); std::reverse(ns.begin(), ns.end()); const size_t nr = C.c->new_bdd(); std::vector<cnode> cs; for (auto& q : ns) cs.push_back(C.c->add_bdd_node(q.variable()));
    auto idx = [&](node_ref q) { size_t i = 0; while (ns[i] != q) ++i; return i; };
    for (size_t i = 0; i < ns.size(); ++i) { node_ref l = ns[i].low(), g = ns[i].high(); if (l.is_botsink()) cs[i].set_lo_to_0_terminal(); else if (l.is_topsink()) cs[i].set_lo_to_1_terminal(); else cs[i].set_lo_arc(cs[idx(l)]); if (g.is_botsink()) cs[i].set_hi_to_0_terminal(); else if (g.is_topsink()) cs[i].set_hi_to_1_terminal(); else cs[i].set_hi_arc(cs[idx(g)]); }
    C.c->close_bdd(); C.note(f); C.check_all("built BDD"); CHECK(C.c->export_bdd(*C.m, nr) == h && C.m->add_bdd(*C.c, nr) == h, "export of the built BDD"); size_t q = C.c->bdd_and(nr, (size_t)0); C.note(tt_and(f, C.t[0])); CHECK(q == 2, "index"); size_t a = C.add(f); (void)a; C.check_all("operations on the built BDD");
    sx_reach("end"); sx_done();
}

// ---- exports ----
namespace { struct Str { std::string s; }; Str& operator<<(Str& o, const char* p) { o.s += p; return o; } Str& operator<<(Str& o, const std::string& p) { o.s += p; return o; } Str& operator<<(Str& o, char c) { o.s += c; return o; } Str& operator<<(Str& o, unsigned long v) { o.s += std::to_string(v); return o; } Str& operator<<(Str& o, long v) { o.s += std::to_string(v); return o; } Str& operator<<(Str& o, unsigned v) { o.s += std::to_string(v); return o; } Str& operator<<(Str& o, int v) { o.s += std::to_string(v); return o; }
std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; std::string c; for (char ch : s) { if (ch == '\n' ) { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == ';')) ++a; while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t' || s[b - 1] == ';')) --b; return s.substr(a, b - a); }
bool has(const std::string& s, const char* p) { const size_t n = __builtin_strlen(p); for (size_t i = 0; i + n <= s.size(); ++i) { size_t j = 0; while (j < n && s[i + j] == p[j]) ++j; if (j == n) return true; } return false; }
struct Edge { std::string from, to, attr; };
bool edge(const std::string& l, Edge& e) { size_t k = l.size(); for (size_t i = 0; i + 1 < l.size(); ++i) if (l[i] == '-' && l[i + 1] == '>') { k = i; break; } if (k == l.size()) return false; size_t b = l.size(); for (size_t i = k; i < l.size(); ++i) if (l[i] == '[') { b = i; break; } e.from = trim(l.substr(0, k)); e.to = trim(l.substr(k + 2, b - k - 2)); e.attr = l.substr(b); return true; } }
static void print_check(node_ref h) {
    Str s; h.print(s); std::vector<Edge> es; for (auto& l : split(s.s)) { Edge e; if (edge(l, e)) es.push_back(e); else CHECK(has(l, "digraph") || trim(l) == "}", "unexpected line"); }
    std::vector<node_ref> in; collect(h, in); CHECK(es.size() == 2 * in.size(), "number of printed edges"); if (in.empty()) return;
    std::string root; for (auto& e : es) { bool t = false; for (auto& f : es) t |= f.to == e.from; if (!t) { CHECK(root.empty() || root == e.from, "two roots"); root = e.from; } } CHECK(!root.empty(), "no root");
    std::vector<std::pair<node_ref, std::string>> m{{h, root}}; for (size_t i = 0; i < m.size(); ++i) { node_ref p = m[i].first; std::string id = m[i].second;
        CHECK(has(id, std::to_string(p.variable()).c_str()), "label of a node lacks its variable"); int seen[2] = {0, 0};
        for (auto& e : es) if (e.from == id) { const bool one = has(e.attr, "1"); CHECK(one != has(e.attr, "0"), "edge label"); ++seen[one]; node_ref q = one ? p.high() : p.low(); if (q.is_terminal()) CHECK(q.is_topsink() ? has(e.to, "top") && !has(e.to, "bot") : has(e.to, "bot") && !has(e.to, "top"), "edge to a terminal"); else { bool found = false; for (auto& x : m) { CHECK((x.first == q) == (x.second == e.to), "edge to the wrong node"); found |= x.first == q; } if (!found) m.push_back({q, e.to}); } }
        CHECK(seen[0] == 1 && seen[1] == 1, "edges of a node"); }
    CHECK(m.size() == in.size(), "nodes printed");
}
SX_ENTRY(print_all) {
    const unsigned n = sx_param("n", 3); bdd_mgr* m = new bdd_mgr; auto vars = seq(n, sx_choose("from", 0, 1) * 9); Bits t = sym_tt("F", n); node_ref h = build(*m, t, vars); auto post = h.nodes_postorder(); const size_t refs = h.reference_count();
    print_check(h); check_fn(h, t, vars, "printing changed the BDD"); CHECK(h.reference_count() == refs, "printing changed a reference count"); CHECK(h.nodes_postorder() == post && h.nr_nodes() == post.size(), "printing left marks"); print_check(h); for (auto& q : post) if (!q.is_terminal()) { print_check(q); break; } CHECK(h.nodes_bfs().size() == post.size(), "printing left marks"); print_check(h);
    sx_reach("end"); sx_done();
}
SX_ENTRY(graphviz_all) {
    const unsigned n = sx_param("n", 3); Col C(n); if (sx_flag("pre")) C.add(tt_kind(n, 0)); Bits t = sym_tt("F", n); const size_t k = sx_flag("mk") ? C.add(t) : [&] { size_t a = C.add(t), b = C.add(tt_kind(n, 3)); size_t c = C.c->bdd_and(a, b); C.note(tt_and(t, C.t[b])); return c; }(); node_ref h = build(*C.m, C.t[k], C.vars);
    Str s; C.c->export_graphviz(k, s); std::vector<Edge> lo, hi; std::vector<std::pair<std::string, std::string>> labels; for (auto& l : split(s.s)) { Edge e; if (edge(l, e)) { if (has(e.attr, "invis")) continue; (has(e.attr, "dashed") ? lo : hi).push_back(e); } else if (has(l, "label")) { size_t b = 0; while (l[b] != '[') ++b; labels.push_back({trim(l.substr(0, b)), l.substr(b)}); } else CHECK(has(l, "digraph") || has(l, "subgraph") || has(l, "color") || trim(l) == "}" || trim(l) == "{", "unexpected line"); }
    bdd_collection_entry e = (*C.c)[k]; CHECK(labels.size() == e.nr_nodes(), "one label per node"); CHECK(lo.size() + 2 == e.nr_nodes() && hi.size() == lo.size(), "two edges per inner node");
    auto label = [&](const std::string& id) -> std::string { std::string r; unsigned c = 0; for (auto& p : labels) if (p.first == id) { r = p.second; ++c; } CHECK(c == 1, "label of a node"); return r; }; for (size_t i = 0; i < labels.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK(labels[i].first != labels[j].first, "node labelled twice");
    if (!h.is_terminal()) { std::string root; for (auto& a : lo) { bool tg = false; for (auto& b : lo) tg |= b.to == a.from; for (auto& b : hi) tg |= b.to == a.from; if (!tg) { CHECK(root.empty(), "two roots"); root = a.from; } } CHECK(!root.empty(), "no root"); std::vector<std::pair<node_ref, std::string>> m{{h, root}};
        for (size_t i = 0; i < m.size(); ++i) { node_ref p = m[i].first; std::string id = m[i].second; if (p.is_topsink()) { CHECK(has(label(id), "top"), "label of the true terminal"); continue; } if (p.is_botsink()) { CHECK(has(label(id), "bot"), "label of the false terminal"); continue; } CHECK(has(label(id), ("\"" + std::to_string(p.variable()) + "\"").c_str()), "label of an inner node");
            for (int sd = 0; sd < 2; ++sd) { unsigned c = 0; for (auto& x : sd ? hi : lo) if (x.from == id) { ++c; node_ref q = sd ? p.high() : p.low(); bool found = false; for (auto& y : m) { CHECK((y.first == q) == (y.second == x.to), "edge to the wrong node"); found |= y.first == q; } if (!found) m.push_back({q, x.to}); } CHECK(c == 1, "edges of a node"); } } CHECK(m.size() == h.nr_nodes() + 1 + (h.nr_nodes() > 0), "nodes exported"); }
    else CHECK(labels.size() == 2, "constant"); 
    C.check_all("exporting changed the collection"); Str s2; C.c->export_graphviz(k, s2); CHECK(s2.s == s.s, "second export differs");
    sx_reach("end"); sx_done();
}
