// Find-or-create of nodes (C03): hash keys of the nodes are arbitrary.
#include "hx.h"
using namespace hx;
struct Req { node_ref lo, hi, r; };
// request (v, lo, hi) and compare with everything requested before
static node_ref request(bdd_mgr& m, size_t v, node_ref lo, node_ref hi, std::vector<Req>& reqs) {
    const size_t before = m.nr_nodes();
    node_ref r = m.unique_find(v, lo, hi);
    if (lo == hi) { CHECK(r == lo, "equal branches must yield the branch"); CHECK(m.nr_nodes() == before, "equal branches created a node"); return r; }
    const Req* old = nullptr; for (auto& q : reqs) if (q.lo == lo && q.hi == hi) old = &q;
    if (old) { CHECK(r == old->r, "existing node not found"); CHECK(m.nr_nodes() == before, "existing node duplicated"); }
    else {
        CHECK(!r.is_terminal(), "a terminal was returned"); CHECK(r.variable() == v, "node has another variable"); CHECK(r.low() == lo, "node has another low branch"); CHECK(r.high() == hi, "node has another high branch");
        for (auto& q : reqs) CHECK(q.r != r, "node returned for different branches");
        CHECK(m.nr_nodes() == before + 1, "node count after creating one node");
        reqs.push_back({lo, hi, r});
    }
    return r;
}
static void recheck(bdd_mgr& m, size_t v, std::vector<Req>& reqs, size_t step = 1) {
    const size_t before = m.nr_nodes();
    for (size_t i = 0; i < reqs.size(); i += step) {
        Req& q = reqs[i];
        CHECK(q.r.variable() == v && q.r.low() == q.lo && q.r.high() == q.hi, "node changed");
        CHECK(m.unique_find(v, q.lo, q.hi) == q.r, "node no longer found");
    }
    CHECK(m.nr_nodes() == before, "lookups created nodes");
}
// K requests with arbitrary branches out of a pool of c nodes, arbitrary keys of the pool nodes
SX_ENTRY(uf_few) {
    const unsigned K = sx_param("K", 3), c = sx_param("c", 4);
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 2);
    std::vector<node_ref> pool{m->botsink(), m->topsink()};
    for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i - 1));
    if (sx_key_mode >= 10) sx_key_mode = 5; // keys of the parents do not matter for their own table
    std::vector<Req> reqs;
    for (unsigned k = 0; k < K; ++k) {
        node_ref lo = pool[sx_choose("lo", 0, c - 1)], hi = pool[sx_choose("hi", 0, c - 1)];
        request(*m, 0, lo, hi, reqs);
    }
    recheck(*m, 0, reqs);
    sx_reach("end"); sx_done();
}
// every ordered pair of a pool of c nodes is requested (table grows), start offset arbitrary; keys from a small set
SX_ENTRY(uf_fill) {
    const unsigned c = sx_param("c", 9), lim = sx_param("lim", 100000);
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 4); sx_key_bits = sx_param("bits", 22);
    const unsigned concrete = sx_param("concrete", 0); const int mode = sx_key_mode;
    std::vector<node_ref> pool{m->botsink(), m->topsink()};
    for (unsigned i = 2; i < c; ++i) { sx_key_mode = i - 2 < concrete ? (int)sx_param("cmode", 5) : mode; pool.push_back(m->projection(i - 1)); }
    sx_key_mode = 5; // keys of the parent nodes do not matter for their own table
    std::vector<Req> reqs; reqs.reserve(c * c);
    const unsigned step = sx_param("step", 1);
    size_t n = 0;
    for (unsigned d = 1; d < c && n < lim; ++d) for (unsigned a = 0; a < c && n < lim; ++a, ++n) {
        node_ref lo = pool[a], hi = pool[(a + d) % c];
        const size_t before = m->nr_nodes();
        node_ref r = m->unique_find(0, lo, hi);
        CHECK(r.variable() == 0 && r.low() == lo && r.high() == hi, "wrong node");
        CHECK(m->nr_nodes() == before + 1, "no new node created for new branches");
        reqs.push_back({lo, hi, r});
        if (n % step == 0) { // two earlier ones, the boundary of the table's growth included
            const Req& q = reqs[(n * 7) / 11]; CHECK(m->unique_find(0, q.lo, q.hi) == q.r, "node no longer found");
            CHECK(m->unique_find(0, lo, hi) == r, "new node not found");
        }
        if (n == 31 || n == 32 || n == 33 || n == 34 || n == 64 || n == 65 || n == 66 || n == 128 || n == 129 || n == 257) recheck(*m, 0, reqs);
    }
    recheck(*m, 0, reqs);
    for (size_t i = 0; i < reqs.size(); i += reqs.size() / 5 + 1) for (size_t j = 0; j < reqs.size(); ++j) CHECK(i == j || reqs[i].r != reqs[j].r, "two nodes share storage");
    sx_reach("end"); sx_done();
}
// many nodes of one variable: growth far beyond the initial table, the periodic counter, several pages of nodes
SX_ENTRY(uf_many) {
    const unsigned c = sx_param("c", 72), lim = sx_param("lim", 5000); sx_key_mode = sx_flag("edge_keys") ? 7 : 5;
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    std::vector<node_ref> pool{m->botsink(), m->topsink()};
    for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i - 1));
    std::vector<node_ref> made; size_t n = 0;
    for (unsigned a = 0; a < c && n < lim; ++a) for (unsigned b = 0; b < c && n < lim; ++b) if (a != b) {
        node_ref r = m->unique_find(0, pool[a], pool[b]); ++n;
        CHECK(r.low() == pool[a] && r.high() == pool[b] && r.variable() == 0, "wrong node"); made.push_back(r);
        CHECK(m->nr_nodes() == c + n, "a request for new branches did not create exactly one node");
    }
    const size_t before = m->nr_nodes();
    // an arbitrary pair again
    const unsigned a = sx_choose("a", 0, c - 1), b = sx_choose("b", 0, c - 1); const size_t idx = size_t(a) * (c - 1) + (b > a ? b - 1 : b);
    node_ref r = m->unique_find(0, pool[a], pool[b]);
    if (a == b) CHECK(r == pool[a], "equal branches must yield the branch");
    else if (idx < made.size()) { CHECK(r == made[idx], "existing node not found again"); CHECK(m->nr_nodes() == before, "existing node duplicated"); }
    else { CHECK(r.low() == pool[a] && r.high() == pool[b], "wrong node"); CHECK(m->nr_nodes() == before + 1, "count"); for (auto& q : made) CHECK(q != r, "node returned for different branches"); }
    sx_reach("end"); sx_done();
}
// very large table: every growth step; afterwards all requests with an arbitrary low branch again
SX_ENTRY(uf_huge) {
    const unsigned c = sx_param("c", 380); sx_key_mode = sx_flag("edge_keys") ? 7 : 5;
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    std::vector<node_ref> pool{m->botsink(), m->topsink()}; pool.reserve(c);
    for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i - 1));
    const size_t lim = sx_param("lim", size_t(c) * (c - 1)); std::vector<node_ref> made; made.reserve(lim);
    for (unsigned a = 0; a < c && made.size() < lim; ++a) for (unsigned b = 0; b < c && made.size() < lim; ++b) if (a != b) made.push_back(m->unique_find(0, pool[a], pool[b]));
    CHECK(m->nr_nodes() == c + made.size(), "a request for new branches did not create exactly one node");
    const unsigned a = sx_choose("a", 0, (made.size() - 1) / (c - 1)); size_t k = size_t(a) * (c - 1);
    for (unsigned b = 0; b < c; ++b) if (a != b) { node_ref r = m->unique_find(0, pool[a], pool[b]); if (k < made.size()) CHECK(r == made[k], "existing node not found again"); CHECK(r.low() == pool[a] && r.high() == pool[b] && r.variable() == 0, "wrong node"); ++k; }
    CHECK(m->nr_nodes() == c + std::max(k, made.size()), "existing node duplicated");
    sx_reach("end"); sx_done();
}
// nodes of several variables: equal branches under different variables are different nodes
SX_ENTRY(uf_vars) {
    const unsigned K = sx_param("K", 4); bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < 4; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 2);
    std::vector<node_ref> pool{m->botsink(), m->topsink(), m->projection(3)};
    struct R { size_t v; node_ref lo, hi, r; }; std::vector<R> rs;
    for (unsigned k = 0; k < K; ++k) {
        size_t v = sx_choose("v", 0, 2), l = sx_choose("lo", 0, 2), h = sx_choose("hi", 0, 2); node_ref lo = pool[l], hi = pool[h]; size_t before = m->nr_nodes();
        node_ref r = m->unique_find(v, lo, hi);
        if (lo == hi) { CHECK(r == lo, "equal branches must yield the branch"); continue; }
        CHECK(r.variable() == v && r.low() == lo && r.high() == hi, "wrong node"); bool old = false;
        for (auto& q : rs) { bool same = q.v == v && q.lo == lo && q.hi == hi; CHECK(same == (q.r == r), "node identity"); old |= same; }
        CHECK(m->nr_nodes() == before + (old ? 0 : 1), "node count"); rs.push_back({v, lo, hi, r});
    }
    for (auto& q : rs) CHECK(m->unique_find(q.v, q.lo, q.hi) == q.r, "node no longer found");
    sx_reach("end"); sx_done();
}
