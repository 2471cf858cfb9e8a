// Collections: import and export (C13), conjunction (C14), node limit (C15).
#include "cx.h"
using namespace cx;
// an arbitrary function added at any position among other BDDs; export, import into the same and another manager
SX_ENTRY(coll_add) {
    const unsigned n = sx_param("n", 3), kinds = sx_param("kinds", 8); Col C(n); sx_key_mode = sx_param("keys", 0);
    const unsigned before = sx_choose("before", 0, sx_param("B", 1)), after = sx_choose("after", 0, sx_param("A", 1));
    for (unsigned i = 0; i < before; ++i) C.add(tt_kind(n, sx_choose("kind", 0, kinds - 1)));
    Bits f = sym_tt("F", n); const size_t k = C.add(f);
    for (unsigned i = 0; i < after; ++i) C.add(tt_kind(n, sx_choose("kind", 0, kinds - 1)));
    C.check_all("added BDD changed its function");
    node_ref p = build(*C.m, f, C.vars); CHECK(C.c->export_bdd(*C.m, k) == p, "export does not give the original handle"); CHECK(C.m->add_bdd(*C.c, k) == p, "adding to the manager does not give the original handle");
    for (size_t i = 0; i < C.t.size(); ++i) CHECK(C.c->export_bdd(*C.m, i) == build(*C.m, C.t[i], C.vars), "export of another BDD");
    // adding the handle brought back once more
    CHECK(C.c->add_bdd(C.c->export_bdd(*C.m, k)) == C.t.size(), "index"); C.note(f);
    bdd_mgr* m2 = new bdd_mgr; for (unsigned i = 0; i < n; ++i) m2->add_variable();
    { node_ref q = C.c->export_bdd(*m2, k); check_fn(q, f, C.vars, "export to another manager"); CHECK(q == m2->add_bdd(*C.c, k), "export and add_bdd differ"); CHECK(q == build(*m2, f, C.vars), "export to another manager is not canonical");
      // a BDD of the other manager in the same collection
      CHECK(C.c->add_bdd(q) == C.t.size(), "index"); C.note(f); }
    C.check_all("adding changed a BDD"); C.check_eval(k, "evaluate"); C.check_eval(C.t.size() - 1, "evaluate");
    sx_reach("end"); sx_done();
}
// variables with gaps
SX_ENTRY(coll_gap) {
    std::vector<size_t> vs; size_t v = sx_choose("first", 0, 2); for (unsigned i = 0; i < sx_param("n", 2); ++i) { vs.push_back(v); v += 1 + sx_choose("gap", 0, 2); }
    Col C(vs); Bits f = sym_tt("F", vs.size()); C.add(tt_kind(vs.size(), 1)); C.add(f); C.check_all("function"); C.check_eval(1, "evaluate"); CHECK(C.m->add_bdd(*C.c, 1) == build(*C.m, f, vs), "handle"); CHECK(C.c->export_bdd(*C.m, 1) == build(*C.m, f, vs), "handle");
    sx_reach("end"); sx_done();
}
// collections of more than a thousand instructions, BDDs of more than a thousand nodes
static node_ref parity(bdd_mgr& m, size_t from, size_t n) { node_ref a = m.botsink(), b = m.topsink(); for (size_t i = n; i-- > 0;) { node_ref c = m.unique_find(from + i, a, b), d = m.unique_find(from + i, b, a); a = c; b = d; } return a; }
SX_ENTRY(coll_large) {
    const unsigned n = 2; const size_t L = sx_param("L", 300), reps = sx_param("reps", 3), big = sx_param("big", 700); bdd_mgr* m = new bdd_mgr; bdd_collection* c = new bdd_collection; for (size_t i = 0; i < std::max(L, big) + n; ++i) m->add_variable();
    Bits f = sym_tt("F", n); auto vars = seq(n, sx_choose("at", 0, 1) * L); node_ref p = build(*m, f, vars);
    std::vector<node_ref> hs; unsigned pos = sx_choose("pos", 0, reps);
    for (unsigned i = 0; i <= reps; ++i) { if (i == pos) hs.push_back(p); hs.push_back(parity(*m, i, i == 0 ? big : L)); }
    for (size_t i = 0; i < hs.size(); ++i) CHECK(c->add_bdd(hs[i]) == i, "index");
    for (size_t i = 0; i < hs.size(); ++i) { CHECK(c->nr_bdd_nodes(i) == hs[i].nr_nodes() + 2, "node count"); CHECK(m->add_bdd(*c, i) == hs[i], "adding to the manager does not give the original handle"); CHECK(c->export_bdd(*m, i) == hs[i], "export does not give the original handle"); }
    uint64_t x = sx_sym("x", n); CHECK(cvalue((*c)[pos].root_node(), vars, x) == ttval(f, x), "function of the small BDD");
    sx_reach("end"); sx_done();
}

// conjunction of all pairs of functions
SX_ENTRY(coll_and2) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), shift = sx_param("shift", 1), n = std::max(nf, ng + shift); Col C(n); sx_key_mode = sx_param("keys", 0);
    if (sx_param("pre", 1)) C.add(tt_kind(n, 0));
    Bits f = lift(sym_tt("F", nf), n, 0), g = lift(sym_tt("G", ng), n, shift); const size_t i = C.add(f), j = C.add(g);
    const unsigned order = sx_choose("order", 0, 2); const size_t a = order == 1 ? j : i, b = order == 0 ? j : i; // i&j, j&i, i&i
    const Bits r = tt_and(C.t[a], C.t[b]); size_t k;
    const unsigned form = sx_choose("form", 0, 2); std::vector<size_t> l{a, b};
    if (form == 0) k = C.c->bdd_and(a, b); else if (form == 1) k = C.c->bdd_and(l.begin(), l.end()); else { bdd_collection_entry ea = (*C.c)[a], eb = (*C.c)[b]; ea & eb; k = C.t.size(); }
    CHECK(k == C.t.size(), "index of the conjunction"); C.note(r); C.check_all("conjunction, or a BDD next to it"); C.check_eval(k, "evaluate the conjunction");
    // once more with the result as operand
    size_t k2 = C.c->bdd_and(k, b); CHECK(k2 == C.t.size(), "index"); C.note(r); C.check_all("conjunction with the result"); CHECK(C.c->export_bdd(*C.m, k2) == build(*C.m, r, C.vars), "export of the conjunction");
    sx_reach("end"); sx_done();
}
// lists of operands of every length; one arbitrary function at an arbitrary position among fixed ones
template <class It> static size_t and_list(bdd_collection& c, It b, It e, uint64_t limit) { return limit ? c.bdd_and(b, e, limit) : c.bdd_and(b, e); }
SX_ENTRY(coll_andn) {
    const unsigned n = 3, maxlen = sx_param("max", 49), minlen = sx_param("min", 3); Col C(n);
    const unsigned L = sx_choose("len", minlen, maxlen); const unsigned pos = sx_choose("pos", 0, L - 1); const bool same = sx_flag("repeat");
    Bits f = lift(sym_tt("F", 2), n, sx_choose("shift", 0, 1)); const size_t k = C.add(f);
    const size_t a = C.add(tt_kind(n, same ? 5 : 6)), b = C.add(tt_kind(n, 3));
    std::vector<size_t> ops; Bits r = f; for (unsigned i = 0; i < L; ++i) { size_t o = i == pos ? k : same ? a : i % 2 ? a : b; ops.push_back(o); r = tt_and(r, C.t[o]); }
    size_t q = C.c->bdd_and(ops.begin(), ops.end()); CHECK(q == C.t.size(), "index of the conjunction"); C.note(r); C.check_all("conjunction of a list, or a BDD next to it");
    sx_reach("end"); sx_done();
}
// short lists of arbitrary functions
SX_ENTRY(coll_and3) {
    const unsigned K = sx_param("K", 3), nv = sx_param("nv", 2), n = sx_param("n", 3); Col C(n); std::vector<size_t> ops; Bits r = tt_const(n, 1);
    const bool rep = sx_param("rep", 0); // operands drawn from a pool instead of all distinct
    if (!rep) { for (unsigned i = 0; i < K; ++i) { Bits f = lift(sym_tt("F", nv), n, i % (n - nv + 1)); ops.push_back(C.add(f)); r = tt_and(r, f); } }
    else { const unsigned kinds = sx_param("kinds", 8); for (unsigned i = 0; i < kinds; ++i) C.add(tt_kind(n, i)); const unsigned len = sx_choose("len", 1, K); for (unsigned i = 0; i < len; ++i) { size_t o = sx_choose("op", 0, kinds - 1); ops.push_back(o); r = tt_and(r, C.t[o]); } }
    size_t q = C.c->bdd_and(ops.begin(), ops.end());
    if (ops.size() == 1) CHECK(q == ops[0], "list of one"); else { CHECK(q == C.t.size(), "index of the conjunction"); C.note(r); }
    C.check_all("conjunction of a list, or a BDD next to it"); C.check_eval(q, "evaluate the conjunction");
    sx_reach("end"); sx_done();
}
// parts of a diagram as operands on different collections: large diagrams
SX_ENTRY(coll_and_big) {
    const size_t L = sx_param("L", 12); bdd_mgr* m = new bdd_mgr; for (size_t i = 0; i < L + 1; ++i) m->add_variable(); bdd_collection* c = new bdd_collection; std::vector<node_ref> vs; for (size_t i = 0; i < L; ++i) vs.push_back(m->projection(i));
    std::vector<node_ref> fs; size_t p = sx_choose("shift", 0, 1); fs.push_back(parity(*m, p, L)); fs.push_back(m->at_most(vs.begin(), vs.end(), sx_choose("am", 0, L))); fs.push_back(m->at_least(vs.begin(), vs.end(), sx_choose("al", 0, L))); fs.push_back(m->simplex(vs.begin() + p, vs.end()));
    for (auto& f : fs) c->add_bdd(f); std::vector<size_t> o{0, 1, 2, 3}; unsigned mask = sx_choose("mask", 1, 15); std::vector<size_t> use; node_ref r = m->topsink(); for (auto k : o) if (mask >> k & 1) { use.push_back(k); r = m->and_rec(r, fs[k]); }
    if (use.size() >= 2) { size_t q = c->bdd_and(use.begin(), use.end()); CHECK(q == 4, "index"); CHECK(c->export_bdd(*m, q) == r, "conjunction differs from the manager's"); CHECK(c->nr_bdd_nodes(q) == r.nr_nodes() + 2, "conjunction is not reduced"); check_rep(*c, q); }
    for (unsigned k = 0; k < 4; ++k) CHECK(c->export_bdd(*m, k) == fs[k], "operand changed");
    sx_reach("end"); sx_done();
}

// node limit
static void limited_step(Col& C, const std::vector<size_t>& ops, bool list) {
    Bits r = tt_const(C.vars.size(), 1); for (auto o : ops) r = tt_and(r, C.t[o]);
    const size_t need = build(*C.m, r, C.vars).nr_nodes() + 2; const uint64_t limit = sx_sym("limit", 64); sx_assume(limit > 2);
    const size_t k = list ? C.c->bdd_and(ops.begin(), ops.end(), limit) : C.c->bdd_and(ops[0], ops[1], limit);
    if (k == std::numeric_limits<size_t>::max()) { CHECK(limit < need, "refused although the result fits the limit"); sx_reach("refused"); }
    else { CHECK(limit >= need, "accepted although the result exceeds the limit"); CHECK(k == C.t.size(), "index"); C.note(r); sx_reach("accepted"); }
}
SX_ENTRY(coll_limit2) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), shift = sx_param("shift", 1), n = std::max(nf, ng + shift); Col C(n); if (sx_param("pre", 1)) C.add(tt_kind(n, 0));
    Bits f = lift(sym_tt("F", nf), n, 0), g = lift(sym_tt("G", ng), n, shift); const size_t i = C.add(f), j = C.add(g); const bool list = sx_flag("list");
    limited_step(C, {i, j}, list); C.check_all("a limited conjunction changed the collection, or its result is wrong");
    limited_step(C, {j, i}, false); C.check_all("second limited conjunction");
    size_t k = C.c->bdd_and(i, j); CHECK(k == C.t.size(), "index"); C.note(tt_and(f, g)); C.check_all("conjunction without limit after limited ones");
    k = C.c->add_bdd(build(*C.m, f, C.vars)); CHECK(k == C.t.size(), "index"); C.note(f); C.check_all("import after limited conjunctions");
    sx_reach("end"); sx_done();
}
SX_ENTRY(coll_limitn) {
    const unsigned n = 3; Col C(n); const unsigned L = sx_choose("len", sx_param("min", 3), sx_param("max", 5)); std::vector<size_t> ops; Bits f = lift(sym_tt("F", 2), n, sx_choose("shift", 0, 1)); const size_t k = C.add(f), a = C.add(tt_kind(n, 6)), b = C.add(tt_kind(n, sx_choose("kind", 0, 7)));
    unsigned pos = sx_param("allpos", 1) ? sx_choose("pos", 0, L - 1) : L / 2; for (unsigned i = 0; i < L; ++i) ops.push_back(i == pos ? k : i % 2 ? a : b);
    limited_step(C, ops, true); C.check_all("a limited conjunction changed the collection, or its result is wrong");
    limited_step(C, {ops[0], ops[1]}, false); C.check_all("limited pair after a limited list");
    Bits r = f; for (auto o : ops) r = tt_and(r, C.t[o]); size_t q = C.c->bdd_and(ops.begin(), ops.end()); CHECK(q == C.t.size(), "index"); C.note(r); C.check_all("conjunction without limit after limited ones");
    sx_reach("end"); sx_done();
}
// a larger result: every limit up to and beyond its size
SX_ENTRY(coll_limit_big) {
    const size_t L = sx_param("L", 8); bdd_mgr* m = new bdd_mgr; for (size_t i = 0; i < L + 1; ++i) m->add_variable(); bdd_collection* c = new bdd_collection; std::vector<node_ref> vs; for (size_t i = 0; i < L; ++i) vs.push_back(m->projection(i));
    node_ref f = parity(*m, 0, L), g = m->at_most(vs.begin(), vs.end(), sx_choose("am", 0, L - 1)), h = m->at_least(vs.begin(), vs.end(), 1); c->add_bdd(f); c->add_bdd(g); c->add_bdd(h); node_ref r = m->and_rec(f, g); const bool three = sx_flag("three"); if (three) r = m->and_rec(r, h);
    const uint64_t limit = sx_sym("limit", 64); sx_assume(limit > 2); std::vector<size_t> ops{0, 1}; if (three) ops.push_back(2); size_t k = c->bdd_and(ops.begin(), ops.end(), limit); const size_t need = r.nr_nodes() + 2;
    if (k == std::numeric_limits<size_t>::max()) { CHECK(limit < need, "refused although the result fits the limit"); CHECK(c->nr_bdds() == 3, "refused attempt left a BDD"); sx_reach("refused"); } else { CHECK(limit >= need, "accepted although the result exceeds the limit"); CHECK(k == 3 && c->nr_bdds() == 4 && c->nr_bdd_nodes(3) == need, "result"); CHECK(c->export_bdd(*m, 3) == r, "result"); sx_reach("accepted"); }
    CHECK(c->export_bdd(*m, 0) == f && c->export_bdd(*m, 1) == g && c->export_bdd(*m, 2) == h, "operands changed"); k = c->bdd_and(ops.begin(), ops.end()); CHECK(c->export_bdd(*m, k) == r && k + 1 == c->nr_bdds(), "conjunction after a limited one");
    sx_reach("end"); sx_done();
}
