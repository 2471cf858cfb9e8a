// Histories of operations (C04; the same machine also serves C02, C05-C07, C22 with other observations).
#include "hx.h"
using namespace hx;
namespace {
struct Pool { std::vector<node_ref> h; std::vector<Bits> t; };
// observations
enum { O_VALUE = 1, O_CANON = 2, O_COUNT = 4, O_REFS = 8, O_ALIVE = 16 };
}
static Bits tt_const(unsigned n, bool b) { return Bits(1u << n, b); }
static Bits tt_var(unsigned n, unsigned v) { Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) t[x] = (x >> v) & 1; return t; }
// reference counts of everything reachable: handles in `all` (plus those held by `seen`) and arcs
static void check_refs(bdd_mgr& m, const std::vector<node_ref>& all, size_t bot0, size_t top0) {
    std::vector<node_ref> seen; for (auto& h : all) if (h.address()) collect(h, seen);
    for (size_t i = 0; i < seen.size(); ++i) {
        size_t want = 1; // the handle in seen
        for (auto& h : all) if (h == seen[i]) ++want;
        for (auto& q : seen) { if (q.low() == seen[i]) ++want; if (q.high() == seen[i]) ++want; }
        CHECK(seen[i].reference_count() == want, "reference count differs from handles plus arcs");
    }
    size_t b = bot0, t = top0; node_ref bot = m.botsink(), top = m.topsink();
    for (auto& h : all) { if (h == bot) ++b; if (h == top) ++t; }
    for (auto& q : seen) { if (q.low() == bot) ++b; if (q.high() == bot) ++b; if (q.low() == top) ++t; if (q.high() == top) ++t; }
    CHECK(bot.reference_count() == b + 1, "reference count of the false terminal"); CHECK(top.reference_count() == t + 1, "reference count of the true terminal");
}
// K arbitrary operations on a growing pool, then an arbitrary operation whose result is examined
SX_ENTRY(hist) {
    const unsigned n = sx_param("n", 2), K = sx_param("K", 2), obs = sx_param("obs", O_VALUE | O_CANON), kinds = sx_param("kinds", 7), maxpool = sx_param("maxpool", 4);
    const unsigned from = sx_param("from", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 0); sx_key_bits = sx_param("bits", 22);
    const size_t bot0 = m->botsink().reference_count() - 1, top0 = m->topsink().reference_count() - 1;
    Pool P; for (unsigned i = 0; i < n; ++i) { P.h.push_back(m->projection(i)); P.t.push_back(tt_var(n, i)); }
    if (sx_param("start", 0) == 1) { Bits t = sym_tt("S", n); P.h.push_back(build(*m, t, vars)); P.t.push_back(t); }
    auto pick = [&](const char* nm) { return (size_t)sx_choose(nm, 0, P.h.size() - 1); };
    for (unsigned k = 0; k < K; ++k) {
        unsigned op = sx_choose("op", from, kinds - 1); node_ref r; Bits t(1u << n);
        if (op < 3) {
            size_t i = pick("i"), j = pick("j");
            for (unsigned x = 0; x < t.size(); ++x) { bool a = P.t[i][x], b = P.t[j][x]; t[x] = op == 0 ? a && b : op == 1 ? a || b : a != b; }
            r = op == 0 ? m->and_rec(P.h[i], P.h[j]) : op == 1 ? m->or_rec(P.h[i], P.h[j]) : m->xor_rec(P.h[i], P.h[j]);
        } else if (op == 3) {
            size_t i = pick("i"), j = pick("j"), l = pick("l");
            for (unsigned x = 0; x < t.size(); ++x) t[x] = P.t[i][x] ? P.t[j][x] : P.t[l][x];
            r = m->ite_rec(P.h[i], P.h[j], P.h[l]);
        } else if (op == 4) { size_t i = pick("i"); for (unsigned x = 0; x < t.size(); ++x) t[x] = !P.t[i][x]; r = m->negate(P.h[i]); }
        else if (op == 5) { // drop a handle and collect
            size_t i = pick("i"); P.h[i] = m->topsink(); P.t[i] = tt_const(n, true); m->collect_garbage();
            if (obs & O_COUNT) { std::vector<node_ref> s; for (auto& h : P.h) collect(h, s); CHECK(m->nr_nodes() == 2 + s.size(), "node count after collection"); }
        } else if (op == 6) { // drop all results, keep two handles, collect
            while (P.h.size() > 2) { P.h.pop_back(); P.t.pop_back(); } m->collect_garbage();
        } else { size_t i = pick("i"), j = pick("j"); auto [q, cnt] = m->and_rec_limited(P.h[i], P.h[j], sx_choose("limit", 0, 4)); for (unsigned x = 0; x < t.size(); ++x) t[x] = P.t[i][x] && P.t[j][x]; r = q; }
        if (r.address()) {
            if (obs & O_VALUE) check_fn(r, t, vars, "wrong result after a history");
            if (obs & O_CANON) for (size_t i = 0; i < P.h.size(); ++i) CHECK((P.h[i] == r) == (P.t[i] == t), "handles equal exactly if the functions are");
            if (P.h.size() < maxpool) { P.h.push_back(r); P.t.push_back(t); } else { P.h.back() = r; P.t.back() = t; }
        }
        if (obs & O_ALIVE) for (size_t i = 0; i < P.h.size(); ++i) check_fn(P.h[i], P.t[i], vars, "handle changed its function");
    }
    if (obs & O_CANON) for (size_t i = 0; i < P.h.size(); ++i) { CHECK(build(*m, P.t[i], vars) == P.h[i], "rebuilding gives another handle"); check_wellformed(P.h[i]); }
    if (obs & O_REFS) { m->collect_garbage(); check_refs(*m, P.h, bot0, top0); }
    if (obs & O_COUNT) { std::vector<node_ref> s; for (auto& h : P.h) collect(h, s); m->collect_garbage(); CHECK(m->nr_nodes() == 2 + s.size(), "node count after collection"); s.clear(); P.h.clear(); m->collect_garbage(); CHECK(m->nr_nodes() == 2, "node count after dropping everything"); }
    sx_reach("end"); sx_done();
}
// two operations in a row on arbitrary operands: the second is not influenced by the first
SX_ENTRY(hist_pair) {
    const unsigned n = sx_param("n", 2), ops = sx_param("ops", 5); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits tf = sym_tt("F", n), tg = sym_tt("G", n); node_ref f = build(*m, tf, vars), g = build(*m, tg, vars);
    auto tt = [&](unsigned op) { Bits t(1u << n); for (unsigned x = 0; x < t.size(); ++x) { bool a = tf[x], b = tg[x]; t[x] = op == 0 ? a && b : op == 1 ? a || b : op == 2 ? a != b : op == 3 ? (a ? b : true) : op == 4 ? (a ? !b : b) : op == 5 ? (b ? a : !a) : (a && b); } return t; };
    auto doop = [&](unsigned op) { return op == 0 ? m->and_rec(f, g) : op == 1 ? m->or_rec(f, g) : op == 2 ? m->xor_rec(f, g) : op == 3 ? m->ite_rec(f, g, m->topsink()) : op == 4 ? m->ite_rec(f, m->negate(g), g) : op == 5 ? m->ite_rec(g, f, m->negate(f)) : std::get<0>(m->and_rec_limited(f, g, 1)); };
    unsigned o1 = sx_choose("op1", 0, 6), o2 = sx_choose("op2", 0, ops), o3 = sx_param("three", 0) ? sx_choose("op3", 0, ops) : o1;
    node_ref r1 = doop(o1); node_ref r2 = doop(o2); if (o3 > 5) o3 = 0; node_ref r3 = doop(o3);
    check_fn(r2, tt(o2), vars, "result depends on the operation performed before"); check_fn(r3, tt(o3), vars, "result depends on the operations performed before");
    CHECK(build(*m, tt(o2), vars) == r2, "handle depends on the operation performed before"); CHECK(build(*m, tt(o3), vars) == r3, "handle depends on the operation performed before");
    if (r1.address()) check_fn(r1, tt(o1), vars, "first result changed");
    sx_reach("end"); sx_done();
}
// an operation, any of its operands and result dropped, collection, other BDDs built into the freed storage, the same kind of operation on them
SX_ENTRY(memo_gc) {
    const unsigned n = 3; bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 1); const std::vector<size_t> vf = {0, 1}, vg = {1, 2};
    auto lift = [&](const Bits& t, unsigned s) { Bits r(8); for (unsigned x = 0; x < 8; ++x) r[x] = t[(x >> s) & 3]; return r; };
    static const unsigned char kinds[6] = {10, 12, 8, 14, 6, 5};
    const unsigned fk = sx_choose("f", 0, sx_param("kf", 6) - 1), op = sx_choose("op", 0, 3); Bits f4(4); for (unsigned x = 0; x < 4; ++x) f4[x] = kinds[fk] >> x & 1;
    Bits g4 = sym_tt("G", 2); Bits tf = lift(f4, 0), tg = lift(g4, 1), th; const bool bigh = sx_param("h", 0) != 0;
    auto tt = [&](const Bits& a, const Bits& b, const Bits& c) { Bits t(8); for (unsigned x = 0; x < 8; ++x) t[x] = op == 0 ? a[x] & b[x] : op == 1 ? a[x] | b[x] : op == 2 ? a[x] ^ b[x] : a[x] ? b[x] : c[x]; return t; };
    auto doop = [&](node_ref a, node_ref b, node_ref c) { return op == 0 ? m->and_rec(a, b) : op == 1 ? m->or_rec(a, b) : op == 2 ? m->xor_rec(a, b) : m->ite_rec(a, b, c); };
    node_ref f = build(*m, tf, vars), g = build(*m, tg, vars), h = m->neg_projection(2); th = Bits(8); for (unsigned x = 0; x < 8; ++x) th[x] = !(x >> 2);
    node_ref r = doop(f, g, h); const Bits tr = tt(tf, tg, th); check_fn(r, tr, vars, "wrong result");
    const bool kf = sx_flag("keepf"), kg = sx_flag("keepg"), kr = sx_flag("keepr"); const bool kh = op == 3 ? sx_flag("keeph") : false;
    if (kf && kg && (op != 3 || kh)) sx_done();
    if (!kf) f = node_ref(); if (!kg) g = node_ref(); if (!kr) r = node_ref(); if (!kh) h = node_ref();
    m->collect_garbage();
    Bits n4 = sym_tt("N", 2); Bits tn = lift(n4, bigh ? 0 : 1); node_ref nw = build(*m, tn, vars);
    const Bits &ta = kf ? tf : tn, &tb = kg ? tg : tn, &tc = kh ? th : tn; node_ref a = kf ? f : nw, b = kg ? g : nw, c = kh ? h : nw;
    node_ref r2 = doop(a, b, c); const Bits t2 = tt(ta, tb, tc); check_fn(r2, t2, vars, "result depends on an operation on discarded nodes"); CHECK(build(*m, t2, vars) == r2, "handle depends on an operation on discarded nodes");
    if (kr) { check_fn(r, tr, vars, "earlier result changed"); }
    sx_reach("end"); sx_done();
}
// computed table alone: whatever was inserted, a lookup answers only what was inserted last for exactly these operands
#include "bdd_memo_cache.h"
SX_ENTRY(memo_ops) {
    const unsigned K = sx_param("K", 4), c = sx_param("c", 3); 
    bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c; ++i) m->add_variable();
    sx_key_mode = sx_param("keys", 2); sx_key_bits = sx_param("bits", 22);
    std::vector<node_ref> pool; for (unsigned i = 0; i < c; ++i) pool.push_back(m->projection(i));
    memo_cache* mc = new memo_cache(m->get_node_cache());
    struct E { node *f, *g, *h, *r; }; std::vector<E> log;
    node* tags[3] = {memo_struct::and_symb(), memo_struct::or_symb(), memo_struct::xor_symb()};
    CHECK(tags[0] != tags[1] && tags[0] != tags[2] && tags[1] != tags[2], "two connectives share their tag");
    for (unsigned k = 0; k < K; ++k) {
        E e; e.f = pool[sx_choose("f", 0, c - 1)].address(); e.g = pool[sx_choose("g", 0, c - 1)].address(); unsigned h = sx_choose("h", 0, 2 + (k & 1)); e.h = h < 3 ? tags[h] : pool[0].address(); e.r = pool[k % c].address();
        node* got = mc->cache_lookup(e.f, e.g, e.h); node* want = nullptr; for (auto& q : log) if (q.f == e.f && q.g == e.g && q.h == e.h) want = q.r;
        CHECK(got == nullptr || got == want, "lookup answers for other operands");
        mc->cache_insert(e.f, e.g, e.h, e.r); log.push_back(e);
        CHECK(mc->cache_lookup(e.f, e.g, e.h) == e.r, "lookup directly after the insertion fails");
    }
    for (auto& q : log) { node* got = mc->cache_lookup(q.f, q.g, q.h); node* want = nullptr; for (auto& p : log) if (p.f == q.f && p.g == q.g && p.h == q.h) want = p.r; CHECK(got == nullptr || got == want, "lookup answers for other operands"); }
    sx_reach("end"); sx_done();
}
