// Connectives on arbitrary operands: C01 (value), C02 (canonical handle, well-formed).
#include "hx.h"
using namespace hx;
// variables of the operands, by layout: same / interleaved / one above the other / overlapping / with gaps
static std::vector<size_t> layout_vars(unsigned lay, unsigned who, unsigned n) {
    std::vector<size_t> v;
    for (unsigned i = 0; i < n; ++i) switch (lay) {
        case 0: v.push_back(i); break;
        case 1: v.push_back(2 * i + who); break;
        case 2: v.push_back(who == 0 ? i : n + i); break;
        case 3: v.push_back(who == 0 ? n + i : i); break;
        case 4: v.push_back(i + who); break;
        case 5: v.push_back(3 * i + who); break;
    }
    return v;
}
static std::vector<size_t> join(std::vector<size_t> a, const std::vector<size_t>& b) {
    for (size_t v : b) a.push_back(v); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); return a;
}
static Bits lift(const Bits& t, const std::vector<size_t>& from, const std::vector<size_t>& to) { // same function over more variables
    Bits r(size_t(1) << to.size());
    for (unsigned x = 0; x < r.size(); ++x) { unsigned y = 0; for (unsigned i = 0; i < from.size(); ++i) for (unsigned j = 0; j < to.size(); ++j) if (to[j] == from[i]) y |= ((x >> j) & 1) << i; r[x] = t[y]; }
    return r;
}
static bool op2(unsigned op, bool a, bool b) { return op == 0 ? (a && b) : op == 1 ? (a || b) : a != b; }
static node_ref apply2(bdd_mgr& m, unsigned op, unsigned form, node_ref f, node_ref g) {
    std::vector<node_ref> r{f, g};
    switch (op * 4 + form) {
        case 0: return m.and_rec(f, g); case 1: return m.and_rec(g, f); case 2: return f & g; case 3: return m.and_rec(r.begin(), r.end());
        case 4: return m.or_rec(f, g); case 5: return m.or_rec(g, f); case 6: return f || g; case 7: return m.or_rec(r.begin(), r.end());
        case 8: return m.xor_rec(f, g); case 9: return m.xor_rec(g, f); case 10: return f ^ g; default: return m.xor_rec(r.begin(), r.end());
    }
}
static void judge(bdd_mgr& m, node_ref r, const Bits& want, const std::vector<size_t>& vars, bool canon) {
    check_fn(r, want, vars, "result does not denote the connective of the operands");
    if (canon) { check_wellformed(r); CHECK(r == build(m, want, vars), "equal functions with different handles"); check_wellformed(r); }
}
// all pairs of functions of nf / ng variables, all binary connectives
SX_ENTRY(conn_pair) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), lay = sx_param("lay", 0), canon = sx_param("canon", 0);
    sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vf = layout_vars(lay, 0, nf), vg = layout_vars(lay, 1, ng), vars = join(vf, vg);
    while (m->nr_variables() <= vars.back()) m->add_variable();
    const unsigned op = sx_param("op", 9) == 9 ? sx_choose("op", 0, 2) : sx_param("op", 9);
    const unsigned form = sx_param("form", 9) == 9 ? sx_choose("form", 0, 3) : sx_param("form", 9);
    Bits tf = sym_tt("F", nf), tg = sym_tt("G", ng);
    node_ref f = build(*m, tf, vf), g = build(*m, tg, vg);
    Bits Tf = lift(tf, vf, vars), Tg = lift(tg, vg, vars), want(Tf.size());
    for (size_t x = 0; x < want.size(); ++x) want[x] = op2(op, Tf[x], Tg[x]);
    node_ref r = apply2(*m, op, form, f, g);
    judge(*m, r, want, vars, canon);
    check_fn(f, tf, vf, "operand changed"); check_fn(g, tg, vg, "operand changed");
    sx_reach("end"); sx_done();
}
SX_ENTRY(conn_neg) {
    const unsigned n = sx_param("n", 3), canon = sx_param("canon", 0); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits t = sym_tt("F", n), want(t.size()); for (size_t i = 0; i < t.size(); ++i) want[i] = !t[i];
    node_ref f = build(*m, t, vars); node_ref r = sx_flag("operator") ? !f : m->negate(f);
    judge(*m, r, want, vars, canon); check_fn(f, t, vars, "operand changed");
    CHECK(m->negate(r) == f, "double negation is not the operand");
    sx_reach("end"); sx_done();
}
SX_ENTRY(conn_ite) {
    const unsigned nf = sx_param("nf", 2), ng = sx_param("ng", 2), nh = sx_param("nh", 2), lf = sx_param("lf", 0), lg = sx_param("lg", 0), lh = sx_param("lh", 0), canon = sx_param("canon", 0);
    sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vf = seq(nf, lf), vg = seq(ng, lg), vh = seq(nh, lh), vars = join(join(vf, vg), vh);
    while (m->nr_variables() <= vars.back() + sx_param("extra", 0)) m->add_variable();
    Bits tf = sym_tt("F", nf), tg = sym_tt("G", ng), th = sym_tt("H", nh);
    node_ref f = build(*m, tf, vf), g = build(*m, tg, vg), h = build(*m, th, vh);
    Bits Tf = lift(tf, vf, vars), Tg = lift(tg, vg, vars), Th = lift(th, vh, vars), want(Tf.size());
    for (size_t x = 0; x < want.size(); ++x) want[x] = Tf[x] ? Tg[x] : Th[x];
    node_ref r = m->ite_rec(f, g, h);
    judge(*m, r, want, vars, canon);
    check_fn(f, tf, vf, "operand changed"); check_fn(g, tg, vg, "operand changed"); check_fn(h, th, vh, "operand changed");
    sx_reach("end"); sx_done();
}
// variadic and range forms with 2..7 operands; each operand a constant, literal, or two-variable function
SX_ENTRY(conn_many) {
    const unsigned n = sx_param("n", 3), K = sx_param("K", 4), canon = sx_param("canon", 0); sx_key_mode = sx_param("keys", 0);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    const unsigned op = sx_choose("op", 0, 2), k = sx_choose("k", 2, K); const bool range = sx_flag("range");
    std::vector<node_ref> r; std::vector<Bits> ts; Bits want(1u << n);
    for (unsigned i = 0; i < k; ++i) {
        // operand i: function of variables i%n and (i+1)%n given by its literal/constant choice
        unsigned kind = sx_choose("kind", 0, sx_param("kinds", 5)), a = i % n, b = (i + 1) % n; Bits t(1u << n);
        for (unsigned x = 0; x < t.size(); ++x) { bool xa = (x >> a) & 1, xb = (x >> b) & 1; t[x] = kind == 0 ? xa : kind == 1 ? !xb : kind == 2 ? false : kind == 3 ? true : kind == 4 ? (xa != xb) : (xa && !xb); }
        ts.push_back(t); r.push_back(build(*m, t, vars));
    }
    for (unsigned x = 0; x < want.size(); ++x) { bool v = ts[0][x]; for (unsigned i = 1; i < k; ++i) v = op2(op, v, ts[i][x]); want[x] = v; }
    node_ref q;
    if (range) q = op == 0 ? m->and_rec(r.begin(), r.end()) : op == 1 ? m->or_rec(r.begin(), r.end()) : m->xor_rec(r.begin(), r.end());
    else switch (op * 8 + k) {
        case 2: q = m->and_rec(r[0], r[1]); break; case 3: q = m->and_rec(r[0], r[1], r[2]); break; case 4: q = m->and_rec(r[0], r[1], r[2], r[3]); break; case 5: q = m->and_rec(r[0], r[1], r[2], r[3], r[4]); break;
        case 10: q = m->or_rec(r[0], r[1]); break; case 11: q = m->or_rec(r[0], r[1], r[2]); break; case 12: q = m->or_rec(r[0], r[1], r[2], r[3]); break; case 13: q = m->or_rec(r[0], r[1], r[2], r[3], r[4]); break;
        case 18: q = m->xor_rec(r[0], r[1]); break; case 19: q = m->xor_rec(r[0], r[1], r[2]); break; case 20: q = m->xor_rec(r[0], r[1], r[2], r[3]); break; case 21: q = m->xor_rec(r[0], r[1], r[2], r[3], r[4]); break;
        default: sx_done();
    }
    judge(*m, q, want, vars, canon);
    for (unsigned i = 0; i < k; ++i) check_fn(r[i], ts[i], vars, "operand changed");
    sx_reach("end"); sx_done();
}
// longer operand lists: literals of distinct variables, one operand arbitrary (other sign, constant, equal to another one)
SX_ENTRY(conn_range) {
    const unsigned K = sx_param("K", 9), canon = sx_param("canon", 0); sx_key_mode = sx_param("keys", 0);
    const unsigned op = sx_choose("op", 0, 2), k = sx_choose("k", 2, K), at = sx_choose("at", 0, k - 1), kind = sx_choose("kind", 0, 5), form = k <= 8 ? sx_choose("form", 0, 1) : 0;
    bdd_mgr* m = new bdd_mgr; auto vars = seq(k); for (unsigned i = 0; i < k; ++i) m->add_variable();
    std::vector<node_ref> r; for (unsigned i = 0; i < k; ++i) r.push_back(m->projection(i));
    if (kind == 1) r[at] = m->neg_projection(at); if (kind == 2) r[at] = m->botsink(); if (kind == 3) r[at] = m->topsink(); if (kind == 4) r[at] = r[(at + 1) % k]; if (kind == 5) r[at] = m->negate(r[(at + k - 1) % k]);
    const std::vector<node_ref> r0 = r; node_ref q;
#define CALL(f) (k == 2 ? m->f(r[0], r[1]) : k == 3 ? m->f(r[0], r[1], r[2]) : k == 4 ? m->f(r[0], r[1], r[2], r[3]) : k == 5 ? m->f(r[0], r[1], r[2], r[3], r[4]) : k == 6 ? m->f(r[0], r[1], r[2], r[3], r[4], r[5]) : k == 7 ? m->f(r[0], r[1], r[2], r[3], r[4], r[5], r[6]) : m->f(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]))
    if (form == 0) q = op == 0 ? m->and_rec(r.begin(), r.end()) : op == 1 ? m->or_rec(r.begin(), r.end()) : m->xor_rec(r.begin(), r.end());
    else q = op == 0 ? CALL(and_rec) : op == 1 ? CALL(or_rec) : CALL(xor_rec);
#undef CALL
    const uint64_t x = sx_sym("x", k); uint64_t want = op == 0;
    for (unsigned i = 0; i < k; ++i) { uint64_t b = (x >> i) & 1; if (i == at) { if (kind == 1) b ^= 1; if (kind == 2) b = 0; if (kind == 3) b = 1; if (kind == 4) b = (x >> ((at + 1) % k)) & 1; if (kind == 5) b = ((x >> ((at + k - 1) % k)) & 1) ^ 1; } want = op == 0 ? want & b : op == 1 ? want | b : want ^ b; }
    CHECK(value(q, vars, x) == want, "result does not denote the connective of the operands");
    for (unsigned i = 0; i < k; ++i) CHECK(r[i] == r0[i], "operand list changed");
    if (canon) { check_wellformed(q); node_ref s = r[k - 1]; for (unsigned i = k - 1; i-- > 0;) s = op == 0 ? m->and_rec(r[i], s) : op == 1 ? m->or_rec(r[i], s) : m->xor_rec(r[i], s); CHECK(q == s, "equal functions with different handles"); }
    sx_reach("end"); sx_done();
}
// node_ref::evaluate agrees with the walk, for every assignment vector
SX_ENTRY(eval_all) {
    const unsigned n = sx_param("n", 3);
    bdd_mgr* m = new bdd_mgr; auto vars = seq(n); for (unsigned i = 0; i < n; ++i) m->add_variable();
    Bits t = sym_tt("F", n); node_ref f = build(*m, t, vars);
    std::vector<char> x(n + 1, 0); uint64_t a = sx_sym("x", n); for (unsigned i = 0; i < n; ++i) x[i] = (a >> i) & 1;
    CHECK(f.evaluate(x.begin(), x.begin() + n) == ttval(t, a), "evaluate differs from the function");
    CHECK(f.evaluate(x.begin(), x.end()) == ttval(t, a), "evaluate with a longer assignment differs");
    sx_reach("end"); sx_done();
}
