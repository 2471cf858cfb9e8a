// Single nodes (C25), recorded depth (C24).
#include "hx.h"
#include "bdd_node_depth.h"
#include <array>
using namespace hx;
// fields of a node for every admissible variable index and every sequence of mark/reference changes
SX_ENTRY(node_fields) {
    bdd_mgr* m = new bdd_mgr; node_ref bot = m->botsink(), top = m->topsink();
    const uint64_t v = sx_sym("v", 41); sx_assume(v < node_struct::topsink_index);
    sx_key_mode = 2; sx_key_bits = 22;
    node* a = new node; a->marked_ = sx_sym("junk", 1); a->index = sx_sym("junk", 41); a->hash_key = sx_sym("junk", 22); a->xref = (int)sx_sym("junk", 16);
    const bool swap = sx_flag("swap"); node* l = swap ? top.address() : bot.address(); node* h = swap ? bot.address() : top.address();
    const int lx = l->xref, hx_ = h->xref; const size_t li = l->index, hi = h->index;
    a->init_new_node(v, l, h);
    auto same = [&](bool mark, int ref) {
        CHECK(a->index == v, "variable index"); CHECK(a->lo == l && a->hi == h, "branches"); CHECK(a->marked_ == mark && a->marked() == mark, "mark"); CHECK(a->xref == ref, "reference count"); CHECK(!a->is_terminal() && !a->is_botsink() && !a->is_topsink(), "an inner node is not a terminal");
        CHECK(l->index == li && h->index == hi && l->is_terminal() && h->is_terminal(), "terminals");
    };
    same(false, 0); CHECK(l->xref == lx + 1 && h->xref == hx_ + 1, "arcs counted at the branches");
    const size_t key = a->hash_key; CHECK(key < hashtablesize, "hash key out of range");
    { node_ref r(a); same(false, 1); CHECK(r.variable() == v && r.reference_count() == 1, "handle"); CHECK(!r.marked(), "mark"); r.mark(); same(true, 1); { node_ref q(r); same(true, 2); } r.unmark(); same(false, 1); r.mark(); CHECK(r.marked(), "mark"); r.unmark_rec(); same(false, 1); CHECK(r.low().address() == l && r.high().address() == h, "branches"); }
    same(false, 0); a->mark(); same(true, 0); a->unmark(); same(false, 0); CHECK(a->hash_key == key, "hash key changed");
    CHECK(!bot.is_topsink() && bot.is_botsink() && bot.is_terminal() && top.is_topsink() && !top.is_botsink() && top.is_terminal(), "terminals");
    sx_reach("end"); sx_done();
}
// evaluation chooses the branch of the node's variable, for every variable index below N and every assignment
SX_ENTRY(node_eval) {
    const unsigned N = sx_param("N", 6); bdd_mgr* m = new bdd_mgr; node_ref bot = m->botsink(), top = m->topsink();
    node* b = new node; node* a = new node; const uint64_t va = sx_range("va", 0, N - 2), vb = sx_range("vb", 0, N - 1); sx_assume(va < vb);
    const bool s = sx_flag("swapb"), w = sx_flag("whichhi"); b->init_new_node(vb, s ? top.address() : bot.address(), s ? bot.address() : top.address());
    const bool t = sx_flag("other"); node* o = t ? top.address() : bot.address(); a->init_new_node(va, w ? o : b, w ? b : o);
    std::vector<char> x(N); uint64_t A = sx_sym("x", N); for (unsigned i = 0; i < N; ++i) x[i] = (A >> i) & 1;
    const bool xa = (A >> va) & 1, xb = (A >> vb) & 1; const bool wantb = xb != s, want = xa == w ? wantb : t;
    CHECK(a->evaluate(x.begin(), x.end()) == want, "evaluate"); CHECK(b->evaluate(x.begin(), x.end()) == wantb, "evaluate");
    std::array<bool, 64> y; for (unsigned i = 0; i < 64; ++i) y[i] = i < N ? (bool)((A >> i) & 1) : true; CHECK(a->evaluate(y.begin(), y.begin() + N) == want, "evaluate from an array");
    sx_reach("end"); sx_done();
}
// depth of arbitrary DAGs of k nodes
SX_ENTRY(depth_dag) {
    const unsigned k = sx_param("k", 4); bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < k; ++i) m->add_variable();
    bdd_node_depth* d = new bdd_node_depth; std::vector<node_ref> ns{m->botsink(), m->topsink()}; std::vector<size_t> depth{0, 0}; d->add_botsink(ns[0].address()); d->add_topsink(ns[1].address());
    for (unsigned i = 0; i < k; ++i) {
        size_t l = sx_choose("lo", 0, ns.size() - 1), h = sx_choose("hi", 0, ns.size() - 1); if (l == h) sx_done();
        node_ref p = m->unique_find(k - 1 - i, ns[l], ns[h]); size_t want = 1 + std::max(depth[l], depth[h]);
        CHECK(d->add_node(p.address()) == want, "depth"); ns.push_back(p); depth.push_back(want);
    }
    sx_reach("end"); sx_done();
}
