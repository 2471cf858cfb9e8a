// Garbage collection (C05: preserves what is referenced; C06: reclaims exactly the rest).
#include "hx.h"
using namespace hx;
static size_t live_count(const std::vector<node_ref>& hs) { std::vector<node_ref> ns; for (auto& h : hs) collect(h, ns); return ns.size(); }
// what = 1: preservation (C05), 2: exact reclamation (C06), 3: both
struct N { size_t lo, hi; node_ref r; bool alive; };
// K parents over a pool of c children with arbitrary keys; arbitrary subset stays referenced; collection; rebuild; again
SX_ENTRY(gc_table) {
    const unsigned K = sx_param("K", 3), c = sx_param("c", 4), what = sx_param("what", 3), rounds = sx_param("rounds", 2), lowkeys = sx_param("keys", 2);
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    sx_key_mode = lowkeys; sx_key_bits = sx_param("bits", 22);
    std::vector<node_ref> pool{m->botsink(), m->topsink()}; for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i - 1));
    sx_key_mode = 5;
    std::vector<N> ns; unsigned n = 0;
    for (unsigned d = 1; d < c && n < K; ++d) for (unsigned a = 0; a < c && n < K; ++a, ++n) { N x{a, (a + d) % c, m->unique_find(0, pool[a], pool[(a + d) % c]), true}; ns.push_back(x); }
    for (unsigned round = 0; round < rounds; ++round) {
        for (auto& x : ns) if (x.alive) { x.alive = sx_flag("alive"); if (!x.alive) x.r = node_ref(); }
        m->collect_garbage();
        size_t al = 0; for (auto& x : ns) al += x.alive;
        if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + al, "node count after collection");
        if (what & 1) for (auto& x : ns) if (x.alive) {
            CHECK(x.r.variable() == 0 && x.r.low() == pool[x.lo] && x.r.high() == pool[x.hi], "referenced node changed by collection");
            CHECK(m->unique_find(0, pool[x.lo], pool[x.hi]) == x.r, "referenced node not found after collection");
        }
        if (what & 1) { for (unsigned i = 2; i < c; ++i) CHECK(m->projection(i - 1) == pool[i], "literal not found after collection"); }
        if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + al, "node duplicated after collection");
        // create the dropped ones anew
        for (auto& x : ns) if (!x.alive) {
            x.r = m->unique_find(0, pool[x.lo], pool[x.hi]); x.alive = true;
            CHECK(x.r.variable() == 0 && x.r.low() == pool[x.lo] && x.r.high() == pool[x.hi], "wrong node after collection");
        }
        for (auto& x : ns) for (auto& y : ns) if (&x != &y) CHECK(x.r != y.r, "storage handed out twice after collection");
        if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + ns.size(), "node count after rebuilding");
        for (auto& x : ns) CHECK(m->unique_find(0, pool[x.lo], pool[x.hi]) == x.r, "node not found after rebuilding");
    }
    sx_reach("end"); sx_done();
}
// large tables: fill, drop by an arbitrary pattern, collect (the table shrinks), rebuild, fill again
SX_ENTRY(gc_large) {
    const unsigned c = sx_param("c", 10), what = sx_param("what", 3), keys = sx_param("keys", 4), lim = sx_param("lim", 10000);
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    sx_key_mode = keys; std::vector<node_ref> pool{m->botsink(), m->topsink()};
    const unsigned symb = sx_param("symb", 3);
    for (unsigned i = 2; i < c; ++i) { sx_key_mode = i - 2 < symb ? keys : (int)sx_param("cmode", 5); pool.push_back(m->projection(i - 1)); }
    sx_key_mode = 5;
    std::vector<N> ns; unsigned n = 0;
    for (unsigned d = 1; d < c && n < lim; ++d) for (unsigned a = 0; a < c && n < lim; ++a, ++n) ns.push_back({a, (a + d) % c, m->unique_find(0, pool[a], pool[(a + d) % c]), true});
    const unsigned mod = sx_choose("mod", 1, sx_param("mods", 8)), off = sx_choose("off", 0, 1); const bool inv = sx_flag("inv");
    for (unsigned round = 0; round < 2; ++round) {
        size_t al = 0;
        for (size_t i = 0; i < ns.size(); ++i) { auto& x = ns[i]; x.alive = ((i + off + round) % mod == 0) != inv; if (!x.alive) x.r = node_ref(); else ++al; }
        m->collect_garbage();
        if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + al, "node count after collection");
        if (what & 1) for (auto& x : ns) if (x.alive) {
            CHECK(x.r.low() == pool[x.lo] && x.r.high() == pool[x.hi] && x.r.variable() == 0, "referenced node changed by collection");
            CHECK(m->unique_find(0, pool[x.lo], pool[x.hi]) == x.r, "referenced node not found after collection");
        }
        if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + al, "node duplicated after collection");
        size_t made = 0;
        for (auto& x : ns) if (!x.alive) {
            x.r = m->unique_find(0, pool[x.lo], pool[x.hi]); x.alive = true; ++made;
            CHECK(x.r.low() == pool[x.lo] && x.r.high() == pool[x.hi] && x.r.variable() == 0, "wrong node after collection");
            if (what & 2) CHECK(m->nr_nodes() == 2 + (c - 2) + al + made, "node count while refilling");
        }
        for (auto& x : ns) { CHECK(m->unique_find(0, pool[x.lo], pool[x.hi]) == x.r, "node not found after refilling"); CHECK(x.r.low() == pool[x.lo] && x.r.high() == pool[x.hi], "node overwritten"); }
    }
    if (what & 2) { ns.clear(); m->collect_garbage(); CHECK(m->nr_nodes() == 2 + (c - 2), "count after dropping the upper nodes"); pool.clear(); m->collect_garbage(); CHECK(m->nr_nodes() == 2, "count after dropping everything"); }
    sx_reach("end"); sx_done();
}
// arbitrary functions: F kept or dropped, G kept or dropped, an operation on them kept or dropped; collection; everything again
SX_ENTRY(gc_funcs) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), what = sx_param("what", 3); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; const unsigned n = std::max(nf, ng); auto vars = seq(n), vf = seq(nf), vg = seq(ng, n - ng); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits tf = sym_tt("F", nf), tg = sym_tt("G", ng); const unsigned op = sx_choose("op", 0, 3);
    Bits Tf(1u << n), Tg(1u << n), R(1u << n); for (unsigned x = 0; x < R.size(); ++x) { Tf[x] = tf[x & (tf.size() - 1)]; Tg[x] = tg[x >> (n - ng)]; R[x] = op == 0 ? Tf[x] & Tg[x] : op == 1 ? Tf[x] | Tg[x] : op == 2 ? Tf[x] ^ Tg[x] : (Tf[x] ? Tg[x] : !Tg[x]); }
    auto doop = [&](node_ref f, node_ref g) { return op == 0 ? m->and_rec(f, g) : op == 1 ? m->or_rec(f, g) : op == 2 ? m->xor_rec(f, g) : m->ite_rec(f, g, m->negate(g)); };
    node_ref f = build(*m, tf, vf), g = build(*m, tg, vg), r = doop(f, g);
    const bool kf = sx_flag("keepf"), kg = sx_flag("keepg"), kr = sx_flag("keepr");
    if (!kf) f = node_ref(); if (!kg) g = node_ref(); if (!kr) r = node_ref();
    m->collect_garbage();
    std::vector<node_ref> hs; if (kf) hs.push_back(f); if (kg) hs.push_back(g); if (kr) hs.push_back(r);
    if (what & 2) CHECK(m->nr_nodes() == 2 + live_count(hs), "node count after collection");
    if (what & 1) {
        if (kf) check_fn(f, Tf, vars, "referenced BDD changed"); if (kg) check_fn(g, Tg, vars, "referenced BDD changed"); if (kr) check_fn(r, R, vars, "referenced BDD changed");
    }
    // reuse of the storage by other functions
    Bits other(1u << n); for (unsigned x = 0; x < other.size(); ++x) other[x] = (x * 5 + 3) % 7 < 3;
    node_ref o = build(*m, other, vars);
    node_ref f2 = build(*m, tf, vf), g2 = build(*m, tg, vg);
    if (kf) CHECK(f2 == f, "referenced BDD not found again"); if (kg) CHECK(g2 == g, "referenced BDD not found again");
    node_ref r2 = doop(f2, g2); check_fn(r2, R, vars, "operation after collection is wrong"); CHECK(r2 == build(*m, R, vars), "operation after collection is not canonical");
    if (kr) CHECK(r2 == r, "operation after collection differs from the kept result");
    check_fn(o, other, vars, "function built after collection is wrong");
    if (what & 2) {
        hs.push_back(f2); hs.push_back(g2); hs.push_back(r2); hs.push_back(o); m->collect_garbage(); CHECK(m->nr_nodes() == 2 + live_count(hs), "node count after second collection");
        hs.clear(); f = g = r = f2 = g2 = r2 = o = node_ref(); m->collect_garbage(); CHECK(m->nr_nodes() == 2, "count after dropping everything");
    }
    sx_reach("end"); sx_done();
}
