#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <unordered_set>
#include <unistd.h>

std::vector<VarInfo> gVars;
u64 gExprCount = 0;
SolverStats gSolver;
unsigned gSolverTimeoutMs = 60000;
const char* gDumpDir = nullptr;

// ---------------------------------------------------------------- variable sets
struct VSHash { size_t operator()(const VarSet& v) const { size_t h = 17; for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_set<VarSet, VSHash> gVarSets;
static const VarSet* internVS(VarSet&& v) { return &*gVarSets.insert(std::move(v)).first; }
static const VarSet* emptyVS() { static const VarSet* e = internVS(VarSet()); return e; }
static std::unordered_map<u64, const VarSet*> gUnionCache;
static std::unordered_map<const VarSet*, uint32_t> gVSId;
static uint32_t vsId(const VarSet* v) { auto it = gVSId.find(v); if (it != gVSId.end()) return it->second; uint32_t n = gVSId.size(); gVSId[v] = n; return n; }
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    u64 key = ((u64)vsId(a) << 32) | vsId(b);
    auto it = gUnionCache.find(key);
    if (it != gUnionCache.end()) return it->second;
    VarSet r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    const VarSet* p = internVS(std::move(r));
    gUnionCache[key] = p;
    return p;
}

// ---------------------------------------------------------------- hash consing
struct EHash { size_t operator()(const Expr* e) const { return e->hash; } };
struct EEq { bool operator()(const Expr* x, const Expr* y) const {
    return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<Expr*, EHash, EEq> gTable;

static char* gArena = nullptr; static size_t gArenaLeft = 0;
static Expr* allocExpr() {
    if (gArenaLeft < sizeof(Expr)) { gArenaLeft = sizeof(Expr) * 4096; gArena = (char*)aligned_alloc(16, gArenaLeft); }
    Expr* e = (Expr*)gArena; gArena += sizeof(Expr); gArenaLeft -= sizeof(Expr);
    return e;
}

static void computeBits(Expr* e) {
    e->kz = e->ko = 0; e->rlo = 0; e->rhi = mask64(e->w);
    if (e->w > 64) { e->rhi = ~0ull; return; }
    const u64 m = mask64(e->w);
    Expr *a = e->a, *b = e->b, *d = e->d;
    switch (e->k) {
        case KConst: e->ko = (u64)e->c; e->kz = ~e->ko & m; e->rlo = e->rhi = (u64)e->c; return;
        case KVar: return;
        case KNot: e->kz = a->ko; e->ko = a->kz; break;
        case KAnd: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; e->rhi = std::min(a->rhi, b->rhi); break;
        case KOr: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; e->rlo = std::max(a->rlo, b->rlo); break;
        case KXor: { u64 k = (a->kz | a->ko) & (b->kz | b->ko); u64 v = (a->ko ^ b->ko) & k; e->ko = v; e->kz = k & ~v; break; }
        case KAdd: {
            if (a->rhi <= m - b->rhi) { e->rlo = a->rlo + b->rlo; e->rhi = a->rhi + b->rhi; }
            u64 za = a->kz, zb = b->kz; // low zero bits
            unsigned t = std::min(za == ~0ull ? 64 : __builtin_ctzll(~za), zb == ~0ull ? 64 : __builtin_ctzll(~zb));
            e->kz = mask64(std::min<unsigned>(t, e->w)) & m;
            // low bits fully known on both sides
            u64 ka = a->kz | a->ko, kb = b->kz | b->ko; u64 kk = ka & kb; unsigned n = kk == ~0ull ? 64 : __builtin_ctzll(~kk);
            n = std::min<unsigned>(n, e->w);
            u64 low = (a->ko + b->ko) & mask64(n);
            if (n) { e->ko |= low; e->kz |= mask64(n) & ~low; }
            // disjoint bits: behaves as or
            if (((a->kz | b->kz) & m) == m) { e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; }
            break; }
        case KSub: if (a->rlo >= b->rhi) { e->rlo = a->rlo - b->rhi; e->rhi = a->rhi - b->rlo; } {
            u64 ka = a->kz | a->ko, kb = b->kz | b->ko; u64 kk = ka & kb; unsigned n = kk == ~0ull ? 64 : __builtin_ctzll(~kk);
            n = std::min<unsigned>(n, e->w); u64 low = (a->ko - b->ko) & mask64(n);
            if (n) { e->ko |= low; e->kz |= mask64(n) & ~low; } } break;
        case KMul: { u128 p = (u128)a->rhi * b->rhi; if (p <= m) { e->rlo = a->rlo * b->rlo; e->rhi = (u64)p; }
            unsigned t = (a->kz == ~0ull ? 64 : __builtin_ctzll(~a->kz)) + (b->kz == ~0ull ? 64 : __builtin_ctzll(~b->kz));
            e->kz = mask64(std::min<unsigned>(t, e->w)) & m; break; }
        case KUDiv: if (b->rlo > 0) { e->rhi = a->rhi / b->rlo; e->rlo = a->rlo / b->rhi; } break;
        case KURem: if (b->rlo > 0) { e->rhi = std::min(a->rhi, b->rhi - 1); } break;
        case KShl: if (isConst(b)) { u64 s = (u64)b->c; if (s < e->w) { e->kz = ((a->kz << s) | mask64(s)) & m; e->ko = (a->ko << s) & m;
                if (a->rhi <= (m >> s)) { e->rlo = a->rlo << s; e->rhi = a->rhi << s; } } } break;
        case KLShr: if (isConst(b)) { u64 s = (u64)b->c; if (s < e->w) { e->kz = (a->kz >> s) | (m & ~(m >> s)); e->ko = a->ko >> s; e->rlo = a->rlo >> s; e->rhi = a->rhi >> s; } }
            else e->rhi = a->rhi; break;
        case KConcat: { unsigned lw = b->w; e->kz = ((a->kz << lw) | b->kz) & m; e->ko = ((a->ko << lw) | b->ko) & m; e->rlo = (a->rlo << lw) + b->rlo; e->rhi = (a->rhi << lw) + b->rhi; break; }
        case KExtract: { unsigned lo = (unsigned)e->c; if (a->w <= 64) { e->kz = (a->kz >> lo) & m; e->ko = (a->ko >> lo) & m; if (lo == 0 && a->rhi <= m) { e->rlo = a->rlo; e->rhi = a->rhi; } } break; }
        case KZExt: e->kz = a->kz | (m & ~mask64(a->w)); e->ko = a->ko; e->rlo = a->rlo; e->rhi = a->rhi; break;
        case KSExt: { u64 am = mask64(a->w); u64 sb = 1ull << (a->w - 1); e->kz = a->kz & am; e->ko = a->ko & am; if (a->kz & sb) { e->kz |= m & ~am; e->rlo = a->rlo; e->rhi = a->rhi; } if (a->ko & sb) e->ko |= m & ~am; break; }
        case KIte: e->kz = b->kz & d->kz; e->ko = b->ko & d->ko; e->rlo = std::min(b->rlo, d->rlo); e->rhi = std::max(b->rhi, d->rhi); break;
        default: break;
    }
    e->rlo = std::max(e->rlo, e->ko); e->rhi = std::min(e->rhi, m & ~e->kz);
}

static Expr* intern(Kind k, unsigned w, u128 c, Expr* a, Expr* b, Expr* d) {
    Expr t; memset((void*)&t, 0, sizeof t);
    t.k = k; t.w = w; t.c = c; t.a = a; t.b = b; t.d = d;
    u64 h = k * 0x9e3779b97f4a7c15ull + w;
    auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((u64)c); mix((u64)(c >> 64)); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    t.hash = h;
    auto it = gTable.find(&t);
    if (it != gTable.end()) return *it;
    Expr* e = allocExpr(); *e = t;
    e->id = ++gExprCount;
    const VarSet* v = emptyVS();
    if (k == KVar) { VarSet s; s.push_back((uint32_t)c); v = internVS(std::move(s)); }
    if (a) v = unionVS(v, a->vars);
    if (b) v = unionVS(v, b->vars);
    if (d) v = unionVS(v, d->vars);
    e->vars = v;
    computeBits(e);
    gTable.insert(e);
    // fully known value: fold
    if (k != KConst && w <= 64) {
        if (((e->kz | e->ko) & mask64(w)) == mask64(w)) return mkConst(e->ko, w);
        if (e->rlo == e->rhi) return mkConst(e->rlo, w);
    }
    return e;
}

Expr* mkConst(u128 v, unsigned w) { return intern(KConst, w, v & maskw(w), nullptr, nullptr, nullptr); }
Expr* mkVar(const std::string& name, unsigned w, bool uninit) {
    gVars.push_back({name, w, uninit});
    return intern(KVar, w, gVars.size() - 1, nullptr, nullptr, nullptr);
}

static u128 foldBin(Kind k, u128 x, u128 y, unsigned w) {
    const u128 m = maskw(w);
    auto sx = [&](u128 v) -> __int128 { return w >= 128 ? (__int128)v : (__int128)(v << (128 - w)) >> (128 - w); };
    switch (k) {
        case KAnd: return x & y; case KOr: return x | y; case KXor: return x ^ y;
        case KAdd: return (x + y) & m; case KSub: return (x - y) & m; case KMul: return (x * y) & m;
        case KUDiv: return y ? x / y : m; case KURem: return y ? x % y : x;
        case KSDiv: return y ? (u128)(sx(x) / sx(y)) & m : m; case KSRem: return y ? (u128)(sx(x) % sx(y)) & m : x;
        case KShl: return y >= w ? 0 : (x << (unsigned)y) & m;
        case KLShr: return y >= w ? 0 : x >> (unsigned)y;
        case KAShr: return (u128)(sx(x) >> (unsigned)(y >= w ? w - 1 : y)) & m;
        case KEq: return x == y; case KUlt: return x < y; case KUle: return x <= y; case KSlt: return sx(x) < sx(y); case KSle: return sx(x) <= sx(y);
        default: abort();
    }
}

// e' equal to e on the bits of m (w <= 64)
static Expr* demanded(Expr* e, u64 m, int depth = 0) {
    if (e->w > 64 || depth > 12) return e;
    m &= mask64(e->w);
    if (isConst(e)) return e;
    if (((e->kz | e->ko) & m) == m) return mkConst(e->ko & m, e->w);
    switch (e->k) {
        case KOr: case KXor:
            if ((e->a->kz & m) == m) return demanded(e->b, m, depth + 1);
            if ((e->b->kz & m) == m) return demanded(e->a, m, depth + 1);
            { Expr* x = demanded(e->a, m, depth + 1); Expr* y = demanded(e->b, m, depth + 1); if (x != e->a || y != e->b) return mkBin(e->k, x, y); }
            return e;
        case KAnd:
            if ((e->a->ko & m) == m) return demanded(e->b, m, depth + 1);
            if ((e->b->ko & m) == m) return demanded(e->a, m, depth + 1);
            if (isConst(e->b)) { Expr* x = demanded(e->a, m & (u64)e->b->c, depth + 1); if (x != e->a) return mkBin(KAnd, x, e->b); }
            else { Expr* x = demanded(e->a, m & ~e->b->kz, depth + 1); Expr* y = demanded(e->b, m & ~e->a->kz, depth + 1); if (x != e->a) return mkBin(KAnd, x, e->b); if (y != e->b) return mkBin(KAnd, e->a, y); }
            return e;
        case KShl: if (isConst(e->b) && (u64)e->b->c < e->w) { Expr* x = demanded(e->a, m >> (u64)e->b->c, depth + 1); if (x != e->a) return mkBin(KShl, x, e->b); } return e;
        case KLShr: if (isConst(e->b) && (u64)e->b->c < e->w) { Expr* x = demanded(e->a, (m << (u64)e->b->c) & mask64(e->w), depth + 1); if (x != e->a) return mkBin(KLShr, x, e->b); } return e;
        case KAdd: case KSub: case KMul: { unsigned hb = 64 - __builtin_clzll(m ? m : 1); u64 lm = mask64(hb);
            Expr* x = demanded(e->a, lm, depth + 1); Expr* y = demanded(e->b, lm, depth + 1); if (x != e->a || y != e->b) return mkBin(e->k, x, y); return e; }
        case KZExt: { Expr* x = demanded(e->a, m, depth + 1); if (x != e->a) return mkZExt(x, e->w); return e; }
        case KConcat: { Expr* l = demanded(e->b, m, depth + 1); Expr* h = (m >> e->b->w) ? demanded(e->a, m >> e->b->w, depth + 1) : mkConst(0, e->a->w);
            if (l != e->b || h != e->a) return mkConcat(h, l); return e; }
        case KIte: { Expr* x = demanded(e->b, m, depth + 1); Expr* y = demanded(e->d, m, depth + 1); if (x != e->b || y != e->d) return mkIte(e->a, x, y); return e; }
        default: return e;
    }
}

Expr* mkNot(Expr* a) {
    if (isConst(a)) return mkConst(~a->c, a->w);
    if (a->k == KNot) return a->a;
    if (a->w == 1) {
        if (a->k == KUlt) return mkCmp(KUle, a->b, a->a);
        if (a->k == KUle) return mkCmp(KUlt, a->b, a->a);
        if (a->k == KSlt) return mkCmp(KSle, a->b, a->a);
        if (a->k == KSle) return mkCmp(KSlt, a->b, a->a);
    }
    return intern(KNot, a->w, 0, a, nullptr, nullptr);
}

Expr* mkBin(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->c, b->c, w), w);
    switch (k) { case KAnd: case KOr: case KXor: case KAdd: case KMul:
        if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b); break; default: break; }
    const u128 m = maskw(w);
    switch (k) {
        case KAnd:
            if (a == b) return a;
            if (isConst(b)) {
                if (b->c == 0) return b; if (b->c == m) return a;
                if (w <= 64) { Expr* x = demanded(a, (u64)b->c); if (x != a) return mkBin(KAnd, x, b); if ((a->kz | (u64)b->c) == mask64(w)) return a; }
                if (a->k == KAnd && isConst(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->c & b->c, w));
            } else if (w <= 64) { if (((a->ko | b->kz) & mask64(w)) == mask64(w)) return b; if (((b->ko | a->kz) & mask64(w)) == mask64(w)) return a; }
            if (w == 1 && (a->k == KNot && a->a == b || b->k == KNot && b->a == a)) return mkConst(0, 1);
            break;
        case KOr:
            if (a == b) return a;
            if (isConst(b)) { if (b->c == 0) return a; if (b->c == m) return b;
                if (w <= 64) { u64 need = mask64(w) & ~(u64)b->c; Expr* x = demanded(a, need); if (x != a) return mkBin(KOr, x, b); }
                if (a->k == KOr && isConst(a->b)) return mkBin(KOr, a->a, mkConst(a->b->c | b->c, w)); }
            if (w == 1 && (a->k == KNot && a->a == b || b->k == KNot && b->a == a)) return mkConst(1, 1);
            break;
        case KXor:
            if (a == b) return mkConst(0, w);
            if (isConst(b)) { if (b->c == 0) return a; if (b->c == m) return mkNot(a); if (a->k == KXor && isConst(a->b)) return mkBin(KXor, a->a, mkConst(a->b->c ^ b->c, w)); }
            break;
        case KAdd:
            if (isConst(b)) { if (b->c == 0) return a; if (a->k == KAdd && isConst(a->b)) return mkBin(KAdd, a->a, mkConst(a->b->c + b->c, w));
                if (a->k == KIte && isConst(a->b) && isConst(a->d)) return mkIte(a->a, mkBin(KAdd, a->b, b), mkBin(KAdd, a->d, b)); }
            else { if (a->k == KAdd && isConst(a->b)) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
                if (b->k == KAdd && isConst(b->b)) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b); }
            break;
        case KSub:
            if (a == b) return mkConst(0, w);
            if (isConst(b)) return mkBin(KAdd, a, mkConst((u128)0 - b->c, w));
            if (a->k == KAdd && isConst(a->b) && a->a == b) return a->b;
            break;
        case KMul:
            if (isConst(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
                if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (t > 1) { t >>= 1; ++s; } return mkBin(KShl, a, mkConst(s, w)); } }
            break;
        case KUDiv: if (isConst(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (t > 1) { t >>= 1; ++s; } return mkBin(KLShr, a, mkConst(s, w)); } } break;
        case KURem: if (isConst(b)) { if (b->c == 1) return mkConst(0, w); if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(KAnd, a, mkConst(b->c - 1, w)); if (w <= 64 && a->rhi < b->rlo) return a; } break;
        case KShl: if (isConst(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); if (a->k == KShl && isConst(a->b)) return mkBin(KShl, a->a, mkConst(std::min<u128>(a->b->c + b->c, w), w)); } if (isConst(a) && a->c == 0) return a; break;
        case KLShr: if (isConst(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
                if (w <= 64) { u64 s = (u64)b->c; Expr* x = demanded(a, mask64(w) & ~mask64(s)); if (x != a) return mkBin(KLShr, x, b);
                    if (a->k == KShl && isConst(a->b) && a->b->c == b->c) return mkBin(KAnd, a->a, mkConst(mask64(w) >> s, w));
                    if (a->k == KOr || a->k == KXor || a->k == KAnd) if (isConst(a->b) || a->a->k == KShl || a->b->k == KShl) return mkBin(a->k, mkBin(KLShr, a->a, b), mkBin(KLShr, a->b, b));
                    if (a->k == KLShr && isConst(a->b)) return mkBin(KLShr, a->a, mkConst(std::min<u128>(a->b->c + b->c, w), w)); } } break;
        case KAShr: if (isConst(b) && b->c == 0) return a; if (w <= 64 && (a->kz >> (w - 1) & 1)) return mkBin(KLShr, a, b); break;
        default: break;
    }
    return intern(k, w, 0, a, b, nullptr);
}

Expr* mkEq(Expr* a, Expr* b) {
    if (a == b) return mkConst(1, 1);
    if (isConst(a) && isConst(b)) return mkConst(a->c == b->c, 1);
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
    unsigned w = a->w;
    if (w <= 64) {
        if ((a->ko & b->kz) | (a->kz & b->ko)) return mkConst(0, 1);
        if (a->rhi < b->rlo || b->rhi < a->rlo) return mkConst(0, 1);
    }
    if (w == 1) { if (isConst(b)) return b->c ? a : mkNot(a); return intern(KEq, 1, 0, a, b, nullptr); }
    if (isConst(b)) {
        if (a->k == KIte) {
            if (isConst(a->b) || isConst(a->d)) { Expr* t = mkEq(a->b, b); Expr* f = mkEq(a->d, b);
                if (isConst(t) || isConst(f)) return mkIte(a->a, t, f); }
        }
        if (a->k == KZExt) { if (b->c >> a->a->w) return mkConst(0, 1); return mkEq(a->a, mkConst(b->c, a->a->w)); }
        if (a->k == KNot) return mkEq(a->a, mkConst(~b->c, w));
        if (a->k == KAdd && isConst(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, w));
        if (a->k == KXor && isConst(a->b)) return mkEq(a->a, mkConst(b->c ^ a->b->c, w));
        if (a->k == KConcat) return mkBin(KAnd, mkEq(a->a, mkConst(b->c >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->c, a->b->w)));
        if (a->k == KShl && isConst(a->b) && w <= 64 && a->a->rhi <= (mask64(w) >> (u64)a->b->c)) return mkEq(a->a, mkConst(b->c >> (unsigned)a->b->c, w));
        if (a->k == KExtract && 0) return nullptr;
    } else {
        if (a->k == KAdd && b->k == KAdd && isConst(a->b) && a->b == b->b) return mkEq(a->a, b->a);
        if (a->k == KAdd && isConst(a->b) && a->a == b) return mkConst(0, 1);
        if (b->k == KAdd && isConst(b->b) && b->a == a) return mkConst(0, 1);
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == KShl && b->k == KShl && a->b == b->b && isConst(a->b) && w <= 64 && a->a->rhi <= (mask64(w) >> (u64)a->b->c) && b->a->rhi <= (mask64(w) >> (u64)a->b->c)) return mkEq(a->a, b->a);
    }
    return intern(KEq, 1, 0, a, b, nullptr);
}

Expr* mkCmp(Kind k, Expr* a, Expr* b) {
    if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->c, b->c, a->w), 1);
    if (a == b) return mkConst(k == KUle || k == KSle, 1);
    if (a->w <= 64) {
        if (k == KUlt) { if (a->rhi < b->rlo) return mkConst(1, 1); if (a->rlo >= b->rhi) return mkConst(0, 1); if (isConst(b) && b->c == 1) return mkEq(a, mkConst(0, a->w)); }
        if (k == KUle) { if (a->rhi <= b->rlo) return mkConst(1, 1); if (a->rlo > b->rhi) return mkConst(0, 1); if (isConst(b) && b->c == 0) return mkEq(a, b); }
        if (k == KSlt || k == KSle) { u64 sb = 1ull << (a->w - 1); if ((a->kz & sb) && (b->kz & sb)) return mkCmp(k == KSlt ? KUlt : KUle, a, b); }
        if ((k == KUlt || k == KUle) && a->k == KZExt && isConst(b) && a->a->w < 64 && (u64)b->c <= mask64(a->a->w)) return mkCmp(k, a->a, mkConst(b->c, a->a->w));
        if ((k == KUlt || k == KUle) && a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    }
    if (a->k == KIte && isConst(a->b) && isConst(a->d) && isConst(b)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->d, b));
    return intern(k, 1, 0, a, b, nullptr);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && (u128)lo->c + lo->w == hi->c) return mkExtract(hi->a, (unsigned)lo->c, w);
    if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && lo->a->a == hi->a && lo->a->c + lo->a->w == hi->c) return mkConcat(mkExtract(hi->a, (unsigned)lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->k == KConcat && isConst(hi->b) && isConst(lo)) return mkConcat(hi->a, mkConst((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
    if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && lo->c + lo->w == hi->b->c) return mkConcat(hi->a, mkExtract(lo->a, (unsigned)lo->c, hi->b->w + lo->w));
    if (hi->k == KIte && lo->k == KIte && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
    return intern(KConcat, w, 0, hi, lo, nullptr);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isConst(a)) return mkConst(a->c >> lo, w);
    if (a->w <= 64) { u64 m = mask64(w) << lo; Expr* x = demanded(a, m); if (x != a) return mkExtract(x, lo, w); }
    switch (a->k) {
        case KExtract: return mkExtract(a->a, lo + (unsigned)a->c, w);
        case KConcat: if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
        case KZExt: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
        case KSExt: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); break;
        case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case KNot: return mkNot(mkExtract(a->a, lo, w));
        case KIte: return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
        case KAdd: case KSub: case KMul: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        case KShl: if (isConst(a->b)) { unsigned s = (unsigned)a->b->c; if (lo >= s) { return mkExtract(a->a, lo - s, w); } if (lo + w <= s) return mkConst(0, w); return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(0, s - lo)); } break;
        case KLShr: if (isConst(a->b)) { unsigned s = (unsigned)a->b->c; if (lo + w + s <= a->w) return mkExtract(a->a, lo + s, w); if (lo + s >= a->w) return mkConst(0, w); return mkZExt(mkExtract(a->a, lo + s, a->w - lo - s), w); } break;
        default: break;
    }
    return intern(KExtract, w, lo, a, nullptr, nullptr);
}

Expr* mkZExt(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (isConst(a)) return mkConst(a->c, w);
    if (a->k == KZExt) return mkZExt(a->a, w);
    if (a->k == KIte && (isConst(a->b) || isConst(a->d))) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
    return intern(KZExt, w, 0, a, nullptr, nullptr);
}
Expr* mkSExt(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (isConst(a)) { u128 s = a->c; if ((s >> (a->w - 1)) & 1) s |= ~maskw(a->w); return mkConst(s, w); }
    if (a->w <= 64 && ((a->kz >> (a->w - 1)) & 1)) return mkZExt(a, w);
    if (a->k == KIte && isConst(a->b) && isConst(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
    return intern(KSExt, w, 0, a, nullptr, nullptr);
}
Expr* mkIte(Expr* c, Expr* t, Expr* f) {
    if (isConst(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->k == KNot) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (isConst(t) && isConst(f)) return t->c ? c : mkNot(c);
        if (isConst(t)) return t->c ? mkBin(KOr, c, f) : mkBin(KAnd, mkNot(c), f);
        if (isConst(f)) return f->c ? mkBin(KOr, mkNot(c), t) : mkBin(KAnd, c, t);
    }
    if (f->k == KIte && f->a == c) return mkIte(c, t, f->d);
    if (t->k == KIte && t->a == c) return mkIte(c, t->b, f);
    if (f->k == KIte && f->b == t) return mkIte(mkBin(KOr, c, f->a), t, f->d);
    return intern(KIte, t->w, 0, c, t, f);
}

bool leafConsts(Expr* e, std::vector<u64>& out, size_t limit) {
    std::vector<Expr*> st{e}; std::unordered_set<Expr*> seen;
    while (!st.empty()) {
        Expr* x = st.back(); st.pop_back();
        if (!seen.insert(x).second) continue;
        if (isConst(x)) { if (std::find(out.begin(), out.end(), (u64)x->c) == out.end()) { out.push_back((u64)x->c); if (out.size() > limit) return false; } }
        else if (x->k == KIte) { st.push_back(x->b); st.push_back(x->d); }
        else return false;
    }
    return true;
}

std::string str(const Expr* e, int depth) {
    static const char* names[] = {"const","var","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
    if (e->k == KConst) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long)(u64)e->c, e->w); return b; }
    if (e->k == KVar) return gVars[(size_t)e->c].name;
    if (depth == 0) return "..";
    std::string s = std::string("(") + names[e->k];
    if (e->k == KExtract) s += "[" + std::to_string((unsigned)e->c) + "+" + std::to_string(e->w) + "]";
    if (e->a) s += " " + str(e->a, depth - 1);
    if (e->b) s += " " + str(e->b, depth - 1);
    if (e->d) s += " " + str(e->d, depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- evaluation
static uint32_t gEpoch = 0;
static u128 evalRec(Expr* e, const Model& m) {
    if (e->k == KConst) return e->c;
    if (e->epoch == gEpoch) return e->ev;
    u128 r;
    switch (e->k) {
        case KVar: r = (size_t)e->c < m.size() ? m[(size_t)e->c] : 0; r &= maskw(e->w); break;
        case KNot: r = ~evalRec(e->a, m) & maskw(e->w); break;
        case KConcat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
        case KExtract: r = (evalRec(e->a, m) >> (unsigned)e->c) & maskw(e->w); break;
        case KZExt: r = evalRec(e->a, m); break;
        case KSExt: { r = evalRec(e->a, m); if ((r >> (e->a->w - 1)) & 1) r |= ~maskw(e->a->w); r &= maskw(e->w); break; }
        case KIte: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
        default: r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
    }
    e->epoch = gEpoch; e->ev = r;
    return r;
}
u128 evalExpr(Expr* e, const Model& m) { ++gEpoch; return evalRec(e, m); }

// ---------------------------------------------------------------- Z3
static Z3_context Z = nullptr; static Z3_solver S = nullptr;
static std::vector<Z3_ast> gZVars;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static pid_t gZPid = 0;
static void initZ() {
    if (Z) return;
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(Z, zerr);
    S = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, S);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), gSolverTimeoutMs);
    Z3_solver_set_params(Z, S, p); Z3_params_dec_ref(Z, p);
}
static Z3_ast zbv(Expr* e); static Z3_ast zbool(Expr* e);
static Z3_ast zvar(Expr* e) {
    size_t i = (size_t)e->c; if (gZVars.size() <= i) gZVars.resize(i + 1, nullptr);
    if (!gZVars[i]) { std::string n = "v" + std::to_string(i); Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, e->w)); Z3_inc_ref(Z, x); gZVars[i] = x; }
    return gZVars[i];
}
static Z3_ast znum(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, w));
    return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64)(v >> 64), Z3_mk_bv_sort(Z, w - 64)), Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, 64)));
}
static Z3_ast zboolRaw(Expr* e) {
    switch (e->k) {
        case KConst: return e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
        case KNot: return Z3_mk_not(Z, zbool(e->a));
        case KAnd: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_and(Z, 2, x); }
        case KOr: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; return Z3_mk_or(Z, 2, x); }
        case KXor: return Z3_mk_xor(Z, zbool(e->a), zbool(e->b));
        case KEq: if (e->a->w == 1) return Z3_mk_iff(Z, zbool(e->a), zbool(e->b)); return Z3_mk_eq(Z, zbv(e->a), zbv(e->b));
        case KUlt: return Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); case KUle: return Z3_mk_bvule(Z, zbv(e->a), zbv(e->b));
        case KSlt: return Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); case KSle: return Z3_mk_bvsle(Z, zbv(e->a), zbv(e->b));
        case KIte: return Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->d));
        default: return Z3_mk_eq(Z, zbv(e), znum(1, 1));
    }
}
static Z3_ast zbool(Expr* e) {
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r = zboolRaw(e); Z3_inc_ref(Z, r); e->z3bool = r; return r;
}
static Z3_ast zbv(Expr* e) {
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    if (e->w == 1 && (e->k == KEq || e->k == KUlt || e->k == KUle || e->k == KSlt || e->k == KSle || e->k == KNot || e->k == KAnd || e->k == KOr || e->k == KXor || e->k == KIte))
        r = Z3_mk_ite(Z, zbool(e), znum(1, 1), znum(0, 1));
    else switch (e->k) {
        case KConst: r = znum(e->c, e->w); break;
        case KVar: r = zvar(e); break;
        case KNot: r = Z3_mk_bvnot(Z, zbv(e->a)); break;
        case KAnd: r = Z3_mk_bvand(Z, zbv(e->a), zbv(e->b)); break;
        case KOr: r = Z3_mk_bvor(Z, zbv(e->a), zbv(e->b)); break;
        case KXor: r = Z3_mk_bvxor(Z, zbv(e->a), zbv(e->b)); break;
        case KAdd: r = Z3_mk_bvadd(Z, zbv(e->a), zbv(e->b)); break;
        case KSub: r = Z3_mk_bvsub(Z, zbv(e->a), zbv(e->b)); break;
        case KMul: r = Z3_mk_bvmul(Z, zbv(e->a), zbv(e->b)); break;
        case KUDiv: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); break;
        case KSDiv: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); break;
        case KURem: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); break;
        case KSRem: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); break;
        case KShl: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); break;
        case KLShr: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); break;
        case KAShr: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); break;
        case KConcat: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
        case KExtract: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, zbv(e->a)); break;
        case KZExt: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
        case KSExt: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
        case KIte: r = Z3_mk_ite(Z, zbool(e->a), zbv(e->b), zbv(e->d)); break;
        default: r = Z3_mk_ite(Z, zbool(e), znum(1, 1), znum(0, 1));
    }
    Z3_inc_ref(Z, r); e->z3bv = r; return r;
}

struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey& o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey& k) const { size_t h = 7; for (auto x : k.ids) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
struct QRes { int r; std::vector<std::pair<uint32_t, u64>> vals; };
static std::unordered_map<QKey, QRes, QHash> gCache;

int solve(const std::vector<Expr*>& pc, Expr* cond, const Model& base, Model* out) {
    if (isConst(cond)) { if (cond->c && out) *out = base; return cond->c ? 1 : 0; }
    // slice: constraints transitively sharing variables with cond
    std::vector<Expr*> rel; 
    {
        static std::vector<uint32_t> mark; static uint32_t stamp = 0; ++stamp;
        if (mark.size() < gVars.size()) mark.resize(gVars.size() + 1024, 0);
        for (auto v : *cond->vars) mark[v] = stamp;
        std::vector<char> used(pc.size(), 0); bool changed = true;
        while (changed) {
            changed = false;
            for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
                bool hit = false; for (auto v : *pc[i]->vars) if (mark[v] == stamp) { hit = true; break; }
                if (hit) { used[i] = 1; rel.push_back(pc[i]); for (auto v : *pc[i]->vars) if (mark[v] != stamp) { mark[v] = stamp; changed = true; } }
            }
        }
    }
    QKey key; for (auto e : rel) key.ids.push_back(e->id); std::sort(key.ids.begin(), key.ids.end()); key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end()); key.ids.push_back(cond->id);
    auto it = gCache.find(key);
    if (it == gCache.end()) {
        initZ();
        auto t0 = std::chrono::steady_clock::now();
        ++gSolver.queries;
        Z3_solver_push(Z, S);
        for (auto e : rel) Z3_solver_assert(Z, S, zbool(e));
        Z3_solver_assert(Z, S, zbool(cond));
        if (gDumpDir && gSolver.queries % 97 == 1) {
            std::string fn = std::string(gDumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string(gSolver.queries);
            std::ofstream f(fn + ".smt2"); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(Z, S) << "(check-sat)\n";
        }
        Z3_lbool r = Z3_solver_check(Z, S);
        QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (q.r == 1) {
            ++gSolver.sat;
            Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
            std::unordered_set<uint32_t> vs; for (auto v : *cond->vars) vs.insert(v); for (auto e : rel) for (auto v : *e->vars) vs.insert(v);
            for (auto v : vs) {
                u64 val = 0; Z3_ast res;
                if (v < gZVars.size() && gZVars[v] && Z3_model_eval(Z, m, gZVars[v], true, &res)) { uint64_t x; if (Z3_get_numeral_uint64(Z, res, &x)) val = x; }
                q.vals.push_back({v, val});
            }
            Z3_model_dec_ref(Z, m);
        } else if (q.r == 0) ++gSolver.unsat; else ++gSolver.unknown;
        Z3_solver_pop(Z, S, 1);
        gSolver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (gCache.size() > 400000) gCache.clear();
        it = gCache.emplace(std::move(key), std::move(q)).first;
    } else ++gSolver.cacheHits;
    if (it->second.r == 1 && out) {
        if (out != &base) *out = base;
        for (auto& p : it->second.vals) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; }
    }
    return it->second.r;
}
