// lbsx: symbolic executor for LLVM bitcode.
#include "exec.h"
#include "load.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

Config gCfg;
static std::vector<std::string> gNames; static std::map<std::string, int> gNameId;
static int nameId(const std::string& s) { auto it = gNameId.find(s); if (it != gNameId.end()) return it->second; int n = gNames.size(); gNames.push_back(s); gNameId[s] = n; return n; }
struct VK { int n; uint32_t occ; unsigned w; bool operator<(const VK& o) const { return std::tie(n, occ, w) < std::tie(o.n, o.occ, o.w); } };
static std::map<VK, Expr*> gVarMap;

struct Stats { u64 paths = 0, ok = 0, err = 0, assumed = 0, unsupported = 0, forks = 0, steps = 0, unknown = 0, checks = 0, symChecks = 0, assumeCalls = 0, maxPathSteps = 0; };

struct Exec {
    std::deque<State*> work; bool bfs = false; bool forked = false;
    Stats S; std::map<std::string, std::vector<ErrorRec>> errors; std::map<std::string, u64> errCount; std::map<std::string, u64> reach; std::set<std::string> unsup; std::map<std::string,u64> checkCount;
    State* cur = nullptr; std::chrono::steady_clock::time_point t0;
    std::vector<std::string> samples;

    // ------------------------------------------------------------ objects
    static u64 addrOf(uint32_t id) { return (u64)(gCfg.desc ? 0x40000000u - id : id) << 32; }
    static uint32_t idOf(u64 a) { uint32_t h = a >> 32; return gCfg.desc ? 0x40000000u - h : h; }
    uint32_t newObj(State& s, u64 size, ObjKind k, const char* name, bool zero = false) {
        uint32_t id = s.nextObj++;
        if ((id >> 6) >= s.pages.size()) s.pages.push_back(Rc<ObjPage>::make());
        Rc<Obj> o = Rc<Obj>::make(); Obj& ob = *o.p; ob.size = size; ob.kind = k; ob.name = name; ob.zero = zero;
        u64 nch = (size + 511) / 512, nt = (nch + 63) / 64; ob.t.resize(nt);
        s.pages[id >> 6].w().o[id & 63] = std::move(o);
        if (k == OHeap || k == OHeapArr) ++s.liveHeap;
        return id;
    }
    const Obj* obj(State& s, uint32_t id) { if (id == 0 || id >= s.nextObj) return nullptr; return s.pages[id >> 6]->o[id & 63].p; }
    Obj& objW(State& s, uint32_t id) { return s.pages[id >> 6].w().o[id & 63].w(); }
    static const Chunk* chunkR(const Obj& o, u64 off) { u64 c = off >> 9; const ChunkTab* t = o.t[c >> 6].p; return t ? t->c[c & 63].p : nullptr; }
    static Chunk& chunkW(Obj& o, u64 off) {
        u64 c = off >> 9; auto& t = o.t[c >> 6]; if (!t) t = Rc<ChunkTab>::make();
        auto& ch = t.w().c[c & 63]; if (!ch) { ch = Rc<Chunk>::make(); if (o.zero) ch.p->setInit(0, 512); }
        return ch.w();
    }

    // ------------------------------------------------------------ errors
    std::string whereOf(State& s) { if (s.fr.empty()) return "?"; for (size_t i = s.fr.size(); i--;) { auto& f = s.fr[i]; if (f.f->repo || i == 0) { auto& d = f.f->code[f.ip]; return f.f->pretty + ":" + std::to_string(d.line); } } return "?"; }
    std::string stackOf(State& s) { std::string r; for (size_t i = s.fr.size(); i-- && r.size() < 1500;) { auto& f = s.fr[i]; r += f.f->pretty + ":" + std::to_string(f.f->code[f.ip].line) + " < "; } return r; }
    void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
        std::string where = whereOf(s); std::string key = kind + "|" + msg + "|" + where;
        ++errCount[key]; auto& v = errors[key]; if (v.size() >= 3) return;
        ErrorRec r; r.kind = kind; r.msg = msg; r.where = where; r.stack = stackOf(s);
        for (auto& p : s.inputs) r.inputs.push_back({gNames[p.first], (u64)evalExpr(p.second, m)});
        for (auto e : s.pc) for (auto x : *e->vars) if (gVars[x].uninit) r.usesUninit = true;
        v.push_back(r);
    }
    [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); throw PathEnd{1}; }
    [[noreturn]] void unsupported(State& s, const std::string& m) { unsup.insert(m + " @ " + whereOf(s)); throw PathEnd{3}; }

    // ------------------------------------------------------------ solver glue
    int knownTruth(State& s, Expr* c) { if (isConst(c)) return c->c ? 1 : 0; for (size_t i = s.pc.size(); i--;) if (s.pc[i] == c) return 1; Expr* n = mkNot(c); for (size_t i = s.pc.size(); i--;) if (s.pc[i] == n) return 0; return -1; }
    void addPc(State& s, Expr* c) { if (!isConst(c)) { if (c->k == KAnd) { addPc(s, c->a); addPc(s, c->b); } else s.pc.push_back(c); } }
    void pushClone(State* n) { ++S.forks; ++n->forks; work.push_back(n); forked = true; }
    // decides c; forks when both sides possible. The clone gets the other side, positioned by `fix`.
    template <class F> bool branch(State& s, Expr* c, F fix) {
        int k = knownTruth(s, c); if (k >= 0) return k;
        bool b = evalExpr(c, s.model) != 0; Expr* mine = b ? c : mkNot(c); Expr* other = b ? mkNot(c) : c;
        Model m; int r = solve(s.pc, other, s.model, &m);
        if (r == 1) { State* n = new State(s); addPc(*n, other); n->model = std::move(m); fix(*n, !b); pushClone(n); addPc(s, mine); }
        else { if (r < 0) ++S.unknown; if (r < 0) addPc(s, mine); }
        return b;
    }
    // concretise by forking: the clone re-executes the current instruction with e != v.
    u64 conc(State& s, const Val& v, unsigned w) {
        if (!v.e) return v.c;
        if (isConst(v.e)) return (u64)v.e->c;
        for (auto& k : s.known) if (k.first == v.e) return k.second;
        u64 x = (u64)evalExpr(v.e, s.model);
        Expr* eq = mkEq(v.e, mkConst(x, v.e->w));
        branch(s, eq, [](State&, bool) {});
        Expr* ke = v.e; u64 kx = x;
        for (;;) { // remember, also for the base of base+constant, and replace in registers
            s.known.push_back({ke, kx});
            for (auto& r : s.regs) if (r.e == ke) r = C(kx);
            if (ke->k == KAdd && isConst(ke->b)) { kx = (kx - (u64)ke->b->c) & mask64(ke->w); ke = ke->a; }
            else if (ke->k == KAdd && isConst(ke->a)) { kx = (kx - (u64)ke->a->c) & mask64(ke->w); ke = ke->b; }
            else break;
        }
        return x;
    }
    Expr* freshUninit(State& s, unsigned w) { static int id = nameId("uninit"); VK k{id, s.uninitCnt++, w}; auto& e = gVarMap[k]; if (!e) e = mkVar("uninit#" + std::to_string(k.occ), w, true); return e; }

    // ------------------------------------------------------------ memory
    struct Loc { uint32_t id; u64 off; Expr* eoff; u64 lo, hi; };
    // resolve an address for an access of n bytes; errors end the path
    Loc resolve(State& s, const Val& p, u64 n, bool write) {
        u64 a = p.c; Expr* e = p.e;
        if (e) {
            std::vector<u64> leaves; bool tree = leafConsts(e, leaves, 256);
            if (!tree) for (auto& k : s.known) if (k.first == e) { tree = true; break; }
            u64 lo = e->rlo, hi = e->rhi;
            if (!tree && (lo >> 32) == (hi >> 32)) {
                uint32_t id = idOf(lo); const Obj* o = obj(s, id);
                if (o && o->alive) {
                    u64 l = lo & 0xffffffffu, h = hi & 0xffffffffu; u64 base = lo - l;
                    Expr* eo = mkBin(KSub, e, mkConst(base, 64));
                    if (h + n > o->size) {
                        Expr* oob = mkCmp(KUlt, mkConst(o->size - n, 64), eo); Model m; int r = solve(s.pc, oob, s.model, &m);
                        if (r == 1) { report(s, "memory", std::string(write ? "store" : "load") + " out of bounds of " + o->name, m);
                            if (evalExpr(oob, s.model)) { Model m2; Expr* in = mkNot(oob); if (solve(s.pc, in, s.model, &m2) != 1) throw PathEnd{1}; s.model = m2; }
                            addPc(s, mkNot(oob)); }
                        else if (r < 0) ++S.unknown;
                        h = o->size - n;
                    }
                    u64 cand = 0; // number of candidate offsets
                    unsigned tz = 0; u64 z = e->kz; while (tz < 12 && (z >> tz & 1)) ++tz;
                    cand = ((h - l) >> tz) + 1;
                    if (cand <= 4200) return Loc{id, 0, eo, l, h};
                }
            }
            a = conc(s, p, 64);
        }
        uint32_t id = idOf(a); u64 off = a & 0xffffffffu; const Obj* o = obj(s, id);
        if (!o) fail(s, "memory", a < 65536 ? "null dereference" : "wild pointer access");
        if (!o->alive) fail(s, "memory", std::string("use after ") + (o->kind == OStack ? "scope of " : "free of ") + o->name);
        if (off + n > o->size) fail(s, "memory", std::string(write ? "store" : "load") + " out of bounds of " + o->name);
        if (write && o->constant) fail(s, "memory", "store to constant");
        if (o->kind == OFunc) fail(s, "memory", "data access to function");
        return Loc{id, off, nullptr, off, off};
    }
    Expr* cellExpr(State& s, uint32_t id, u64 off8) { // whole 8-byte cell as an expression; uninitialised bytes become fresh variables
        const Obj* o = obj(s, id); const Chunk* c = chunkR(*o, off8); unsigned k = (off8 & 511);
        if (!c) { if (o->zero) return mkConst(0, 64); Expr* f = freshUninit(s, 64); Obj& ow = objW(s, id); Chunk& cw = chunkW(ow, off8); cw.setInit(k, 8); if (!cw.cell) { cw.cell = new Expr*[64](); } cw.cell[k >> 3] = f; return f; }
        if (c->cell && c->cell[k >> 3]) return c->cell[k >> 3];
        if (c->allInit(k, 8)) { u64 v; memcpy(&v, c->d + k, 8); return mkConst(v, 64); }
        Expr* r = nullptr;
        for (unsigned i = 0; i < 8;) {
            unsigned j = i; bool in = c->isInit(k + i); while (j < 8 && c->isInit(k + j) == in) ++j;
            Expr* p; if (in) { u64 v = 0; memcpy(&v, c->d + k + i, j - i); p = mkConst(v, 8 * (j - i)); } else p = freshUninit(s, 8 * (j - i));
            r = r ? mkConcat(p, r) : p; i = j;
        }
        Obj& ow = objW(s, id); Chunk& cw = chunkW(ow, off8); cw.setInit(k, 8); if (!cw.cell) cw.cell = new Expr*[64](); cw.cell[k >> 3] = r; return r;
    }
    Val readConc(State& s, uint32_t id, u64 off, unsigned n) { // ignores symbolic updates
        const Obj* o = obj(s, id); const Chunk* c = chunkR(*o, off); unsigned k = off & 511;
        if (k + n <= 512) {
            if (c) { if (!c->cell || (!c->cell[k >> 3] && !c->cell[(k + n - 1) >> 3])) if (c->allInit(k, n)) { u64 v = 0; memcpy(&v, c->d + k, n); return C(v); } }
            else if (o->zero) return C(0);
        }
        unsigned in = off & 7;
        if (in + n <= 8) { Expr* e = cellExpr(s, id, off & ~7ull); return fromExpr(mkExtract(e, in * 8, n * 8)); }
        Expr* r = nullptr;
        for (unsigned i = 0; i < n; ++i) { Val b = readConc(s, id, off + i, 1); Expr* p = toExpr(b, 8); r = r ? mkConcat(p, r) : p; }
        return fromExpr(r);
    }
    void writeConc(State& s, uint32_t id, u64 off, unsigned n, const Val& v) {
        Obj& o = objW(s, id); unsigned k = off & 511;
        if (k + n > 512 || ((off & 7) + n > 8)) {
            for (unsigned i = 0; i < n; ++i) writeConc(s, id, off + i, 1, v.e ? fromExpr(mkExtract(v.e, i * 8, 8)) : C(v.c >> (8 * i) & 255));
            return;
        }
        Chunk& c = chunkW(o, off);
        if (!v.e) {
            if (c.cell && c.cell[k >> 3]) {
                if (n == 8) c.cell[k >> 3] = nullptr;
                else { mergeCell(c, k, n, mkConst(v.c, 8 * n)); return; }
            }
            memcpy(c.d + k, &v.c, n); c.setInit(k, n); return;
        }
        if (n < 8 && !(c.cell && c.cell[k >> 3])) cellExprInto(s, c, k);
        if (!c.cell) c.cell = new Expr*[64]();
        if (n == 8) { c.cell[k >> 3] = v.e; c.setInit(k, 8); return; }
        mergeCell(c, k, n, v.e);
    }
    void cellExprInto(State& s, Chunk& c, unsigned k) { // make cell symbolic
        k &= ~7u; Expr* r = nullptr;
        for (unsigned i = 0; i < 8;) {
            unsigned j = i; bool in = c.isInit(k + i); while (j < 8 && c.isInit(k + j) == in) ++j;
            Expr* p; if (in) { u64 v = 0; memcpy(&v, c.d + k + i, j - i); p = mkConst(v, 8 * (j - i)); } else p = freshUninit(s, 8 * (j - i));
            r = r ? mkConcat(p, r) : p; i = j;
        }
        if (!c.cell) c.cell = new Expr*[64](); c.cell[k >> 3] = r; c.setInit(k, 8);
    }
    void mergeCell(Chunk& c, unsigned k, unsigned n, Expr* v) {
        Expr* old = c.cell[k >> 3]; unsigned lo = (k & 7) * 8, w = n * 8; Expr* r = v;
        if (lo) r = mkConcat(r, mkExtract(old, 0, lo));
        if (lo + w < 64) r = mkConcat(mkExtract(old, lo + w, 64 - lo - w), r);
        if (isConst(r)) { u64 x = (u64)r->c; c.cell[k >> 3] = nullptr; memcpy(c.d + (k & ~7u), &x, 8); } else c.cell[k >> 3] = r;
        c.setInit(k & ~7u, 8);
    }
    Val readMem(State& s, const Val& p, unsigned n) {
        if (!p.e) { // fast path
            u64 a = p.c; uint32_t id = idOf(a); u64 off = a & 0xffffffffu; const Obj* o = obj(s, id);
            if (o && o->alive && off + n <= o->size && o->upd.empty()) return readConc(s, id, off, n);
        }
        Loc l = resolve(s, p, n, false); const Obj* o = obj(s, l.id);
        if (!l.eoff) { Val r = readConc(s, l.id, l.off, n); return applyUpd(s, l, n, r, *o); }
        // symbolic offset: group candidate offsets by value
        unsigned tz = 0; while (tz < 12 && (l.eoff->kz >> tz & 1)) ++tz;
        u64 step = 1ull << tz; std::vector<std::pair<u64, Val>> vals; std::map<u64, u64> cnt; 
        for (u64 x = l.lo; x <= l.hi; x += step) { if ((x & l.eoff->kz) || (~x & l.eoff->ko)) continue; Val v = readConc(s, l.id, x, n); vals.push_back({x, v}); if (!v.e) ++cnt[v.c]; o = obj(s, l.id); }
        if (vals.empty()) unsupported(s, "no candidate offsets");
        u64 best = 0, bc = 0; for (auto& q : cnt) if (q.second > bc) { bc = q.second; best = q.first; }
        Expr* r = nullptr; if (bc) r = mkConst(best, 8 * n); else r = toExpr(vals.back().second, 8 * n);
        std::map<u64, Expr*> grp; std::vector<std::pair<Expr*, Expr*>> symv;
        for (auto& q : vals) {
            if (!q.second.e && bc && q.second.c == best) continue;
            Expr* eq = mkEq(l.eoff, mkConst(q.first, 64)); if (isFalse(eq)) continue;
            if (q.second.e) symv.push_back({eq, q.second.e}); else { Expr*& g = grp[q.second.c]; g = g ? mkBin(KOr, g, eq) : eq; }
        }
        for (auto& g : grp) r = mkIte(g.second, mkConst(g.first, 8 * n), r);
        for (auto& g : symv) r = mkIte(g.first, g.second, r);
        return applyUpd(s, l, n, fromExpr(r), *o);
    }
    Val applyUpd(State& s, const Loc& l, unsigned n, Val base, const Obj& o) {
        if (o.upd.empty()) return base;
        Expr* r = nullptr;
        for (auto& u : o.upd) {
            if (u.hi + u.size <= l.lo || l.hi + n <= u.lo) continue;
            if (u.size != n) { Expr* ov = overlap(u, l, n); if (isFalse(ov)) continue; flush(s, l.id); if (l.eoff) throw Retry{}; return readConc(s, l.id, l.off, n); }
            Expr* loff = l.eoff ? l.eoff : mkConst(l.off, 64);
            Expr* eq = mkEq(u.off, loff); if (isFalse(eq)) continue;
            if (!r) r = toExpr(base, 8 * n);
            r = mkIte(eq, toExpr(u.v, 8 * n), r);
        }
        return r ? fromExpr(r) : base;
    }
    struct Retry {};
    void flush(State& s, uint32_t id) { // case-split on the offsets of all pending symbolic-offset stores and apply them
        for (;;) {
            const Obj* o = obj(s, id); if (o->upd.empty()) return;
            std::vector<std::pair<u64, Upd>> w; for (auto& u : o->upd) w.push_back({conc(s, fromExpr(u.off), 64), u});
            Obj& ow = objW(s, id); ow.upd.clear(); for (auto& p : w) writeConc(s, id, p.first, p.second.size, p.second.v);
        }
    }
    Expr* overlap(const Upd& u, const Loc& l, unsigned n) { Expr* loff = l.eoff ? l.eoff : mkConst(l.off, 64);
        return mkBin(KAnd, mkCmp(KUlt, u.off, mkBin(KAdd, loff, mkConst(n, 64))), mkCmp(KUlt, loff, mkBin(KAdd, u.off, mkConst(u.size, 64)))); }
    void writeMem(State& s, const Val& p, unsigned n, const Val& v) {
        Loc l = resolve(s, p, n, true);
        if (!l.eoff) {
            const Obj* o = obj(s, l.id); bool hit = false;
            for (auto& u : o->upd) if (!(u.hi + u.size <= l.off || l.off + n <= u.lo)) { hit = true; break; }
            if (!hit) { writeConc(s, l.id, l.off, n, v); return; }
            l.eoff = mkConst(l.off, 64);
        }
        Obj& o = objW(s, l.id);
        for (auto& u : o.upd) if (!(u.hi + u.size <= l.lo || l.hi + n <= u.lo) && u.size != n) { flush(s, l.id); throw Retry{}; }
        // a previous update at the same offset expression is superseded only if nothing in between may alias; keep simple: drop if last
        if (!o.upd.empty() && o.upd.back().off == l.eoff && o.upd.back().size == n) { o.upd.back().v = v; return; }
        o.upd.push_back(Upd{l.eoff, l.lo, l.hi, n, v});
    }
    void rangeCheck(State& s, u64 a, u64 n, bool write) { if (n) resolve(s, C(a), n, write); }
    void copyMem(State& s, u64 dst, u64 src, u64 n) {
        if (!n) return;
        Loc ls = resolve(s, C(src), n, false), ld = resolve(s, C(dst), n, true);
        auto doRange = [&](u64 i, unsigned k) {
            const Obj* o = obj(s, ls.id); const Chunk* c = chunkR(*o, ls.off + i);
            bool uninit = (!c && !o->zero) || (c && c->noneInit((ls.off + i) & 511, k) );
            if (uninit && o->upd.empty()) { Obj& w = objW(s, ld.id); const Chunk* dc = chunkR(w, ld.off + i); if (!dc && !w.zero) return; Chunk& cw = chunkW(w, ld.off + i); unsigned q = (ld.off + i) & 511;
                if (cw.cell && cw.cell[q >> 3]) { if (k == 8) cw.cell[q >> 3] = nullptr; else { mergeCell(cw, q, k, freshUninit(s, 8 * k)); return; } }
                cw.clrInit(q, k); return; }
            Val v = readMem(s, C(src + i), k); writeMem(s, C(dst + i), k, v);
        };
        auto step = [&](u64 i) -> unsigned { // width usable at position i
            if (((ls.off + i) & 7) == 0 && ((ld.off + i) & 7) == 0 && i + 8 <= n) return 8; return 1; };
        bool back = ls.id == ld.id && ld.off > ls.off && ld.off < ls.off + n;
        if (!back) { for (u64 i = 0; i < n;) { unsigned k = step(i); doRange(i, k); i += k; } }
        else { // overlapping move upwards: copy via a temporary
            std::vector<std::pair<u64, unsigned>> seg; for (u64 i = 0; i < n;) { unsigned k = step(i); seg.push_back({i, k}); i += k; }
            for (size_t j = seg.size(); j--;) doRange(seg[j].first, seg[j].second);
        }
    }
    void setMem(State& s, u64 dst, Val byte, u64 n) {
        if (!n) return; Loc l = resolve(s, C(dst), n, true);
        bool anyUpd = !obj(s, l.id)->upd.empty();
        u64 c8 = byte.c * 0x0101010101010101ull;
        if (!byte.e && anyUpd) { // forget updates entirely inside the range; refuse partial overlaps
            Obj& o = objW(s, l.id); std::vector<Upd> keep; bool partial = false;
            for (auto& u : o.upd) { if (u.lo >= l.off && u.hi + u.size <= l.off + n) continue; if (!(u.hi + u.size <= l.off || l.off + n <= u.lo)) partial = true; keep.push_back(u); }
            o.upd = keep; if (partial) { for (u64 i = 0; i < n; i += 8) { unsigned k = n - i >= 8 && !((l.off + i) & 7) ? 8 : 1; writeMem(s, C(dst + i), k, C(k == 8 ? c8 : byte.c)); if (k == 1) i -= 7; } return; }
        }
        for (u64 i = 0; i < n;) {
            u64 off = l.off + i;
            if (!byte.e && (off & 7) == 0) {
                unsigned k = off & 511; u64 m = std::min<u64>(512 - k, n - i) & ~7ull;
                if (m) { Obj& o = objW(s, l.id); Chunk& c = chunkW(o, off); memset(c.d + k, (int)byte.c, m); c.setInit(k, m); if (c.cell) for (unsigned j = k >> 3; j < (k + m) >> 3; ++j) c.cell[j] = nullptr; i += m; continue; }
            }
            writeConc(s, l.id, off, 1, byte); ++i;
        }
    }
    void freeObj(State& s, u64 a, bool arr) {
        if (!a) return; uint32_t id = idOf(a); const Obj* o = obj(s, id);
        if (!o || (a & 0xffffffffu)) fail(s, "memory", "free of invalid pointer");
        if (o->kind != OHeap && o->kind != OHeapArr) fail(s, "memory", "free of non-heap pointer");
        if (!o->alive) fail(s, "memory", "double free");
        if (arr != (o->kind == OHeapArr)) fail(s, "memory", "new/delete mismatch");
        Obj& w = objW(s, id); w.alive = false; w.t.clear(); w.upd.clear(); --s.liveHeap;
    }
    std::string cstr(State& s, u64 a) { std::string r; for (;; ++a) { Val v = readMem(s, C(a), 1); char c = (char)conc(s, v, 8); if (!c) break; r += c; if (r.size() > 4000) break; } return r; }

    // ------------------------------------------------------------ execution
    const Val& get(State& s, const Frame& f, int i) { return i >= 0 ? s.regs[f.base + i] : f.f->consts[~i]; }
    void set(State& s, const Frame& f, int i, const Val& v) { s.regs[f.base + i] = v; }
    void takeEdge(State& s, Frame& f, const Edge& e) {
        size_t n = e.copies.size();
        if (n == 1) set(s, f, e.copies[0].first, get(s, f, e.copies[0].second));
        else if (n) { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; ++i) tmp[i] = get(s, f, e.copies[i].second); for (size_t i = 0; i < n; ++i) set(s, f, e.copies[i].first, tmp[i]); }
        f.ip = e.target;
    }
    void pushFrame(State& s, DFunc* fn, const Val* args, size_t n) {
        if (!fn->decoded) decodeFunction(fn);
        if (s.fr.size() > gCfg.maxFrames) fail(s, "stack", "stack overflow (recursion too deep)");
        ++fn->calls; Frame nf; nf.f = fn; nf.ip = 0; nf.base = s.regs.size(); nf.allocaBase = s.allocas.size();
        s.regs.resize(nf.base + fn->nslots);
        for (size_t i = 0; i < n && i < fn->nargs; ++i) s.regs[nf.base + i] = args[i];
        s.fr.push_back(nf);
    }
    void popFrame(State& s) { Frame& f = s.fr.back(); while (s.allocas.size() > f.allocaBase) { Obj& o = objW(s, s.allocas.back()); o.alive = false; o.t.clear(); o.upd.clear(); s.allocas.pop_back(); } s.regs.resize(f.base); s.fr.pop_back(); }
    void callDone(State& s) { Frame& f = s.fr.back(); const DInst& d = f.f->code[f.ip]; if (d.x && d.x->invoke) takeEdge(s, f, d.x->edges[0]); else ++f.ip; }
    void unwind(State& s, u64 ptr, u64 sel) { // frames above already at the throwing call
        for (;;) {
            if (s.fr.empty()) throw PathEnd{0};
            Frame& f = s.fr.back(); const DInst& d = f.f->code[f.ip];
            if (d.x && d.x->invoke) { s.excPtr = ptr; takeEdge(s, f, d.x->edges[1]); return; }
            if (s.fr.size() == 1) fail(s, "exception", "uncaught exception");
            popFrame(s);
        }
    }
    void step(State& s);
    void run(State* st) {
        cur = st; forked = false;
        if (timeUp()) { timedOut = true; delete st; return; }
        try {
            for (;;) {
                for (int i = 0; i < 4096; ++i) { ++st->steps; ++S.steps; try { step(*st); } catch (Retry&) {} if (st->fr.empty()) throw PathEnd{0}; if (bfs && forked) { work.push_back(st); return; } }
                if (st->steps > gCfg.maxSteps) fail(*st, "nontermination", "step limit exceeded");
                if (timeUp()) { timedOut = true; delete st; return; }
            }
        } catch (PathEnd& e) {
            ++S.paths; S.maxPathSteps = std::max(S.maxPathSteps, st->steps);
            if (e.why == 0) { ++S.ok; if (samples.size() < 3 && !st->inputs.empty()) { std::string t; for (auto& p : st->inputs) t += gNames[p.first] + "=" + std::to_string((u64)evalExpr(p.second, st->model)) + " "; samples.push_back(t + "(" + std::to_string(st->pc.size()) + " path constraints, " + std::to_string(st->steps) + " instructions)"); } }
            else if (e.why == 1) ++S.err; else if (e.why == 2) ++S.assumed; else ++S.unsupported;
            delete st;
        }
    }
    bool timedOut = false;
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    bool timeUp() { return elapsed() > gCfg.timeLimit; }
};
static Exec X;

// ---------------------------------------------------------------- concrete arithmetic
static inline u64 binC(unsigned sub, u64 a, u64 b, unsigned w, bool& bad) {
    u64 m = mask64(w);
    switch (sub) {
        case KAdd: return (a + b) & m; case KSub: return (a - b) & m; case KMul: return (a * b) & m;
        case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
        case KShl: return b >= w ? 0 : (a << b) & m; case KLShr: return b >= w ? 0 : a >> b;
        case KAShr: return b >= w ? (sext64(a, w) < 0 ? m : 0) : (u64)(sext64(a, w) >> b) & m;
        case KUDiv: if (!b) { bad = true; return 0; } return a / b; case KURem: if (!b) { bad = true; return 0; } return a % b;
        case KSDiv: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) { bad = true; return 0; } if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
        case KSRem: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) { bad = true; return 0; } if (y == -1) return 0; return (u64)(x % y) & m; }
    }
    return 0;
}
static Expr* orE(Expr* a, Expr* b) { return mkNot(mkBin(KAnd, mkNot(a), mkNot(b))); }
// LLVM float predicate p on ordered operands given "equal", "greater", "less" as expressions
static Expr* fpred(unsigned p, Expr* eq, Expr* gt, Expr* lt) { Expr* r = mkConst(0, 1); if (p & 1) r = orE(r, eq); if (p & 2) r = orE(r, gt); if (p & 4) r = orE(r, lt); return r; }
static Expr* fcmpInt(unsigned p, Expr* a, Expr* b) { return fpred(p, mkEq(a, b), mkCmp(KUlt, b, a), mkCmp(KUlt, a, b)); }
static Expr* fcmpThreshold(unsigned p, Expr* x, unsigned w, double D, bool swapped) { // (double)x against D, or D against (double)x
    if (std::isnan(D)) return mkConst(p & 8 ? 1 : 0, 1);
    auto first = [&](auto pred) { u128 lo = 0, hi = (u128)1 << w; while (lo < hi) { u128 m = (lo + hi) / 2; if (pred((double)(u64)m)) hi = m; else lo = m + 1; } return lo; };
    auto below = [&](u128 t) { return t >> w ? mkConst(1, 1) : t == 0 ? mkConst(0, 1) : mkCmp(KUlt, x, mkConst(t, w)); };
    Expr* lt = below(first([&](double d) { return d >= D; })); Expr* le = below(first([&](double d) { return d > D; }));
    Expr* eq = mkBin(KAnd, le, mkNot(lt)); Expr* gt = mkNot(le); return swapped ? fpred(p, eq, lt, gt) : fpred(p, eq, gt, lt);
}
static inline bool cmpC(unsigned p, u64 a, u64 b, unsigned w) {
    switch (p) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
        case 6: return sext64(a, w) > sext64(b, w); case 7: return sext64(a, w) >= sext64(b, w); case 8: return sext64(a, w) < sext64(b, w); default: return sext64(a, w) <= sext64(b, w); }
}
static Expr* cmpE(unsigned p, Expr* a, Expr* b) {
    switch (p) { case 0: return mkEq(a, b); case 1: return mkNot(mkEq(a, b)); case 2: return mkCmp(KUlt, b, a); case 3: return mkCmp(KUle, b, a); case 4: return mkCmp(KUlt, a, b); case 5: return mkCmp(KUle, a, b);
        case 6: return mkCmp(KSlt, b, a); case 7: return mkCmp(KSle, b, a); case 8: return mkCmp(KSlt, a, b); default: return mkCmp(KSle, a, b); }
}
static double asF(u64 v, unsigned w) { if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromF(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

void Exec::step(State& s) {
    Frame& f = s.fr.back(); const DInst& d = f.f->code[f.ip]; d.vis = true;
    switch (d.op) {
    case OBin: {
        const Val &a = get(s, f, d.a), &b = get(s, f, d.b);
        if (!a.e && !b.e && d.w <= 64) { bool bad = false; u64 r = binC(d.sub, a.c, b.c, d.w, bad); if (bad) fail(s, "arithmetic", "division by zero"); set(s, f, d.dst, C(r)); }
        else {
            Expr* eb = toExpr(b, d.w);
            if (d.sub == KUDiv || d.sub == KURem || d.sub == KSDiv || d.sub == KSRem) { Expr* z = mkEq(eb, mkConst(0, d.w)); Model m; if (!isFalse(z)) { int r = solve(s.pc, z, s.model, &m); if (r == 1) { report(s, "arithmetic", "division by zero", m); if (evalExpr(z, s.model)) throw PathEnd{1}; addPc(s, mkNot(z)); } } }
            set(s, f, d.dst, fromExpr(mkBin((Kind)d.sub, toExpr(a, d.w), eb)));
        }
        ++f.ip; break; }
    case OICmp: {
        const Val &a = get(s, f, d.a), &b = get(s, f, d.b);
        if (!a.e && !b.e) set(s, f, d.dst, C(cmpC(d.sub, a.c, b.c, d.w))); else set(s, f, d.dst, fromExpr(cmpE(d.sub, toExpr(a, d.w), toExpr(b, d.w))));
        ++f.ip; break; }
    case OCast: {
        const Val& a = get(s, f, d.a);
        if (!a.e && d.w <= 64 && d.w2 <= 64) {
            u64 r = a.c;
            switch (d.sub) { case CZExt: case CCopy: break; case CSExt: r = (u64)sext64(a.c, d.w2) & mask64(d.w); break; case CTrunc: r &= mask64(d.w); break;
                case CUIToFP: r = fromF((double)a.c, d.w); break; case CSIToFP: r = fromF((double)sext64(a.c, d.w2), d.w); break;
                case CFPToUI: r = (u64)asF(a.c, d.w2) & mask64(d.w); break; case CFPToSI: r = (u64)(i64)asF(a.c, d.w2) & mask64(d.w); break;
                case CFPTrunc: case CFPExt: r = fromF(asF(a.c, d.w2), d.w); break; }
            set(s, f, d.dst, C(r));
        } else {
            Expr* e = toExpr(a, d.w2); Val r;
            switch (d.sub) { case CZExt: r = fromExpr(mkZExt(e, d.w)); break; case CCopy: r = a; break; case CSExt: r = fromExpr(mkSExt(e, d.w)); break; case CTrunc: r = fromExpr(mkExtract(e, 0, d.w)); break;
                default: { u64 v = conc(s, a, d.w2); Frame& f2 = s.fr.back(); (void)f2; s.regs[f.base + d.dst] = C(0);
                    if (d.sub == CUIToFP) r = C(fromF((double)v, d.w)); else if (d.sub == CSIToFP) r = C(fromF((double)sext64(v, d.w2), d.w)); else unsupported(s, "symbolic float cast"); } }
            set(s, f, d.dst, r);
        }
        ++f.ip; break; }
    case OFBin: { double a = asF(conc(s, get(s, f, d.a), d.w), d.w), b = asF(conc(s, get(s, f, d.b), d.w), d.w), r = 0;
        switch (d.sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; default: r = fmod(a, b); }
        set(s, f, d.dst, C(fromF(r, d.w))); ++f.ip; break; }
    case OFNeg: { double a = asF(conc(s, get(s, f, d.a), d.w), d.w); set(s, f, d.dst, C(fromF(-a, d.w))); ++f.ip; break; }
    case OFCmp: {
        unsigned wa = (d.imm >> 8) & 255, wb = (d.imm >> 16) & 255; bool ia = d.imm & 1, ib = d.imm & 2;
        if ((ia || ib) && (get(s, f, d.a).e || get(s, f, d.b).e)) { // integer x against double D: (double)x is monotone in x, so thresholds decide
            Val va = get(s, f, d.a), vb = get(s, f, d.b);
            if (ia && ib && (wa > 53 || wb > 53) ) { if (vb.e) { conc(s, vb, wb); vb = C(conc(s, vb, wb)); } }
            if (ia && ib && va.e && vb.e) { set(s, f, d.dst, fromExpr(fcmpInt(d.sub, mkZExt(toExpr(va, wa), 64), mkZExt(toExpr(vb, wb), 64)))); ++f.ip; break; }
            bool sw = !(ia && va.e); Val x = sw ? vb : va; unsigned w = sw ? wb : wa; const Val& o = sw ? va : vb; bool io = sw ? ia : ib;
            if (x.e && (sw ? ib : ia)) {
                double D = io ? (double)conc(s, o, 64) : asF(conc(s, o, d.w), d.w); set(s, s.fr.back(), d.dst, fromExpr(fcmpThreshold(d.sub, x.e, w, D, sw))); ++s.fr.back().ip; break; }
        }
        double a = ia ? (double)conc(s, get(s, f, d.a), wa) : asF(conc(s, get(s, f, d.a), d.w), d.w), b = ib ? (double)conc(s, get(s, f, d.b), wb) : asF(conc(s, get(s, f, d.b), d.w), d.w); bool un = std::isnan(a) || std::isnan(b); bool r = false; unsigned p = d.sub;
        // LLVM predicate: bits 0 eq, 1 gt, 2 lt, 3 unordered
        if (un) r = p & 8; else if (a == b) r = p & 1; else if (a > b) r = p & 2; else r = p & 4;
        set(s, f, d.dst, C(r)); ++f.ip; break; }
    case OLoad: {
        Val p = get(s, f, d.a);
        if (!d.x) { Val v = readMem(s, p, d.n); if (d.w != d.n * 8) v = v.e ? fromExpr(mkExtract(v.e, 0, d.w)) : C(v.c & mask64(d.w)); set(s, f, d.dst, v); }
        else { u64 a = conc(s, p, 64); for (size_t i = 0; i < d.x->scal.size(); ++i) { auto& q = d.x->scal[i]; unsigned nb = (q.w + 7) / 8; Val v = readMem(s, C(a + q.off), nb); if (q.w != nb * 8) v = v.e ? fromExpr(mkExtract(v.e, 0, q.w)) : C(v.c & mask64(q.w)); set(s, f, d.dst + i, v); } }
        ++f.ip; break; }
    case OStore: {
        Val p = get(s, f, d.a);
        if (!d.x) { Val v = get(s, f, d.b); if (d.w != d.n * 8) v = v.e ? fromExpr(mkZExt(v.e, d.n * 8)) : v; writeMem(s, p, d.n, v); }
        else { u64 a = conc(s, p, 64); for (size_t i = 0; i < d.x->scal.size(); ++i) { auto& q = d.x->scal[i]; unsigned nb = (q.w + 7) / 8; Val v = get(s, f, d.x->args[i]); if (q.w != nb * 8 && v.e) v = fromExpr(mkZExt(v.e, nb * 8)); writeMem(s, C(a + q.off), nb, v); } }
        ++f.ip; break; }
    case OGep: {
        Val p = get(s, f, d.a); 
        if (!p.e) { u64 r = p.c + d.imm; Expr* e = nullptr;
            if (d.x) for (size_t i = 0; i < d.x->scaled.size(); ++i) { const Val& v = get(s, f, d.x->scaled[i].first); unsigned w = d.x->idxw[i]; i64 sc = d.x->scaled[i].second;
                if (!v.e) r += (u64)sext64(v.c, w) * (u64)sc; else { Expr* t = mkBin(KMul, mkSExt(v.e, 64), mkConst((u64)sc, 64)); e = e ? mkBin(KAdd, e, t) : t; } }
            set(s, f, d.dst, e ? fromExpr(mkBin(KAdd, e, mkConst(r, 64))) : C(r));
        } else { u64 r = d.imm; Expr* e = p.e;
            if (d.x) for (size_t i = 0; i < d.x->scaled.size(); ++i) { const Val& v = get(s, f, d.x->scaled[i].first); unsigned w = d.x->idxw[i]; i64 sc = d.x->scaled[i].second;
                if (!v.e) r += (u64)sext64(v.c, w) * (u64)sc; else e = mkBin(KAdd, e, mkBin(KMul, mkSExt(v.e, 64), mkConst((u64)sc, 64))); }
            if (r) { // push constant offsets into ite trees of constants
                e = mkBin(KAdd, e, mkConst(r, 64)); }
            set(s, f, d.dst, fromExpr(e)); }
        ++f.ip; break; }
    case OAlloca: { u64 n = d.imm; if (d.c) n *= conc(s, get(s, f, d.a), 64); uint32_t id = newObj(s, n, OStack, d.x ? d.x->name.c_str() : "local"); s.allocas.push_back(id); set(s, f, d.dst, C(addrOf(id))); ++f.ip; break; }
    case OBr: takeEdge(s, f, d.x->edges[0]); break;
    case OCondBr: {
        Val c = get(s, f, d.a); bool b;
        if (!c.e) b = c.c & 1; else { const DInst* dp = &d; b = branch(s, c.e, [this, dp](State& n, bool t) { takeEdge(n, n.fr.back(), dp->x->edges[t ? 0 : 1]); }); }
        Frame& g = s.fr.back(); takeEdge(s, g, d.x->edges[b ? 0 : 1]); break; }
    case OSwitch: { u64 v = conc(s, get(s, f, d.a), d.w); Frame& g = s.fr.back(); size_t i = 0; for (; i < d.x->cases.size(); ++i) if (d.x->cases[i] == v) break; takeEdge(s, g, d.x->edges[i]); break; }
    case OCall: { static std::vector<Val> tmp; tmp.clear(); for (int a : d.x->args) tmp.push_back(get(s, f, a)); pushFrame(s, d.x->callee, tmp.data(), tmp.size()); break; }
    case OCallInd: { u64 a = conc(s, get(s, f, d.a), 64); DFunc* fn = funcByAddr(a); if (!fn) fail(s, "memory", "call through bad function pointer"); if (!fn->llvmF) unsupported(s, "indirect call to external " + fn->name);
        Frame& g = s.fr.back(); static std::vector<Val> tmp; tmp.clear(); for (int x : d.x->args) tmp.push_back(get(s, g, x)); pushFrame(s, fn, tmp.data(), tmp.size()); break; }
    case OBuiltin: d.x->fn(*this, s, d); break;
    case ORet: {
        static std::vector<Val> tmp; tmp.clear(); if (d.x) for (int a : d.x->args) tmp.push_back(get(s, f, a)); else if (d.n) tmp.push_back(get(s, f, d.a));
        popFrame(s); if (s.fr.empty()) break;
        Frame& g = s.fr.back(); const DInst& ci = g.f->code[g.ip]; for (size_t i = 0; i < tmp.size() && ci.dst >= 0; ++i) set(s, g, ci.dst + i, tmp[i]);
        callDone(s); break; }
    case OSelect: {
        Val c = get(s, f, d.a);
        for (int i = 0; i < d.n; ++i) {
            Val t = get(s, f, d.n == 1 ? d.b : d.x->args[i]), e = get(s, f, d.n == 1 ? d.c : d.x->args[d.n + i]);
            Val r; if (!c.e) r = (c.c & 1) ? t : e; else if (!t.e && !e.e && t.c == e.c) r = t; else { unsigned w = d.n == 1 ? d.w : d.x->argw[i]; r = fromExpr(mkIte(c.e, toExpr(t, w), toExpr(e, w))); }
            set(s, f, d.dst + i, r);
        }
        ++f.ip; break; }
    case OExtractValue: for (int i = 0; i < d.n; ++i) { int src = d.a >= 0 ? d.a + (int)d.imm + i : d.a - (int)d.imm - i; set(s, f, d.dst + i, get(s, f, src)); } ++f.ip; break;
    case OInsertValue: for (int i = 0; i < d.n; ++i) { int src = d.a >= 0 ? d.a + i : d.a - i; Val v = get(s, f, src); set(s, f, d.dst + i, v); }
        for (int i = 0; i < d.c; ++i) { int src = d.b >= 0 ? d.b + i : d.b - i; set(s, f, d.dst + (int)d.imm + i, get(s, f, src)); } ++f.ip; break;
    case OCopy: for (int i = 0; i < d.n; ++i) { int src = d.a >= 0 ? d.a + i : d.a - i; set(s, f, d.dst + i, get(s, f, src)); } ++f.ip; break;
    case OLandingPad: set(s, f, d.dst, C(s.excPtr)); set(s, f, d.dst + 1, C(1)); ++f.ip; break;
    case OResume: { u64 p = conc(s, get(s, f, d.a), 64); if (s.fr.size() == 1) fail(s, "exception", "uncaught exception"); popFrame(s); unwind(s, p, 1); break; }
    case OUnreachable: fail(s, "unreachable", "unreachable code executed");
    case ONop: ++f.ip; break;
    case OUnsupported: unsupported(s, "instruction " + d.x->name);
    }
}

// ---------------------------------------------------------------- builtins
#define ARG(i) (x.get(s, s.fr.back(), d.x->args[i]))
static void ret(Exec& x, State& s, const DInst& d, const Val& v) { if (d.dst >= 0) x.set(s, s.fr.back(), d.dst, v); x.callDone(s); }
static u64 carg(Exec& x, State& s, const DInst& d, int i) { Val v = ARG(i); return x.conc(s, v, d.x->argw[i]); }

static void bNop(Exec& x, State& s, const DInst& d) { ret(x, s, d, C(0)); }
static void bRet0(Exec& x, State& s, const DInst& d) { ret(x, s, d, ARG(0)); }
static void bNew(Exec& x, State& s, const DInst& d) { u64 n = carg(x, s, d, 0); if (n > (1ull << 31)) x.fail(s, "memory", "allocation too large"); uint32_t id = x.newObj(s, n, OHeap, "heap block"); ret(x, s, d, C(x.addrOf(id))); }
static void bNewArr(Exec& x, State& s, const DInst& d) { u64 n = carg(x, s, d, 0); if (n > (1ull << 31)) x.fail(s, "memory", "allocation too large"); uint32_t id = x.newObj(s, n, OHeapArr, "heap array"); ret(x, s, d, C(x.addrOf(id))); }
static void bDelete(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); x.freeObj(s, a, false); ret(x, s, d, C(0)); }
static void bDeleteArr(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); x.freeObj(s, a, true); ret(x, s, d, C(0)); }
static void bMemcpy(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), b = carg(x, s, d, 1), n = carg(x, s, d, 2); x.copyMem(s, a, b, n); ret(x, s, d, C(a)); }
static void bMemset(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), n = carg(x, s, d, 2); Val v = ARG(1); if (v.e) v = fromExpr(mkExtract(v.e, 0, 8)); else v.c &= 255; x.setMem(s, a, v, n); ret(x, s, d, C(a)); }
static void bMemcmp(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), b = carg(x, s, d, 1), n = carg(x, s, d, 2); int r = 0; for (u64 i = 0; i < n && !r; ++i) { u64 p = x.conc(s, x.readMem(s, C(a + i), 1), 8), q = x.conc(s, x.readMem(s, C(b + i), 1), 8); if (p != q) r = p < q ? -1 : 1; } ret(x, s, d, C((u64)(i64)r & 0xffffffffu)); }
static void bStrlen(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); ret(x, s, d, C(x.cstr(s, a).size())); }
static void bMemchr(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), c = carg(x, s, d, 1), n = carg(x, s, d, 2); u64 r = 0; for (u64 i = 0; i < n; ++i) if (x.conc(s, x.readMem(s, C(a + i), 1), 8) == (c & 255)) { r = a + i; break; } ret(x, s, d, C(r)); }
static void bAssertFail(Exec& x, State& s, const DInst& d) { std::string m = x.cstr(s, carg(x, s, d, 0)); x.fail(s, "assert", m); }
static void bAbort(Exec& x, State& s, const DInst& d) { x.fail(s, "abort", d.x->name); }
static void bThrowLib(Exec& x, State& s, const DInst& d) { uint32_t id = x.newObj(s, 64, OGlobal, "exception"); s.exc.push_back({x.addrOf(id), 0}); x.unwind(s, x.addrOf(id), 1); }
static void bAllocExc(Exec& x, State& s, const DInst& d) { u64 n = carg(x, s, d, 0); uint32_t id = x.newObj(s, n + 64, OGlobal, "exception"); ret(x, s, d, C(x.addrOf(id))); }
static void bThrow(Exec& x, State& s, const DInst& d) { u64 p = carg(x, s, d, 0); s.exc.push_back({p, 0}); x.unwind(s, p, 1); }
static void bRethrow(Exec& x, State& s, const DInst& d) { if (s.exc.empty()) x.fail(s, "exception", "rethrow without exception"); u64 p = s.exc.back().first; x.unwind(s, p, 1); }
static void bGuardAcq(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); Val v = x.readMem(s, C(a), 1); u64 b = x.conc(s, v, 8); ret(x, s, d, C(b == 0)); }
static void bGuardRel(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); x.writeMem(s, C(a), 1, C(1)); ret(x, s, d, C(0)); }
// intrinsics
static void bMinMax(Exec& x, State& s, const DInst& d) { Val a = ARG(0), b = ARG(1); unsigned w = d.x->argw[0]; unsigned p = d.imm; // 0 umin 1 umax 2 smin 3 smax
    Val r; if (!a.e && !b.e) { bool lt = p < 2 ? a.c < b.c : sext64(a.c, w) < sext64(b.c, w); r = (lt == !(p & 1)) ? a : b; }
    else { Expr *ea = toExpr(a, w), *eb = toExpr(b, w); Expr* lt = mkCmp(p < 2 ? KUlt : KSlt, ea, eb); r = fromExpr((p & 1) ? mkIte(lt, eb, ea) : mkIte(lt, ea, eb)); } ret(x, s, d, r); }
static void bAbs(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[0]; i64 v = sext64(a, w); ret(x, s, d, C((u64)(v < 0 ? -v : v) & mask64(w))); }
static void bCtlz(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[0]; unsigned n = 0; while (n < w && !(a >> (w - 1 - n) & 1)) ++n; ret(x, s, d, C(n)); }
static void bCttz(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[0]; unsigned n = 0; while (n < w && !(a >> n & 1)) ++n; ret(x, s, d, C(n)); }
static void bCtpop(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); ret(x, s, d, C(__builtin_popcountll(a))); }
static void bBswap(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[0]; ret(x, s, d, C(__builtin_bswap64(a) >> (64 - w))); }
static void bUsubSat(Exec& x, State& s, const DInst& d) { Val a = ARG(0), b = ARG(1); unsigned w = d.x->argw[0]; if (!a.e && !b.e) ret(x, s, d, C(a.c < b.c ? 0 : a.c - b.c)); else { Expr *ea = toExpr(a, w), *eb = toExpr(b, w); ret(x, s, d, fromExpr(mkIte(mkCmp(KUlt, ea, eb), mkConst(0, w), mkBin(KSub, ea, eb)))); } }
static void bUaddSat(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), b = carg(x, s, d, 1); unsigned w = d.x->argw[0]; u64 r = (a + b) & mask64(w); ret(x, s, d, C(r < a ? mask64(w) : r)); }
static void bOverflow(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0), b = carg(x, s, d, 1); unsigned w = d.x->argw[0]; __int128 r; bool sg = d.imm >= 3; unsigned op = d.imm % 3;
    __int128 p = sg ? (__int128)sext64(a, w) : (__int128)a, q = sg ? (__int128)sext64(b, w) : (__int128)b; if (op == 2 && !sg) { u128 pr = (u128)a * b; Frame& f = s.fr.back(); x.set(s, f, d.dst, C((u64)pr & mask64(w))); x.set(s, f, d.dst + 1, C((pr >> w) != 0)); x.callDone(s); return; }
    r = op == 0 ? p + q : op == 1 ? p - q : p * q; u64 t = (u64)r & mask64(w); bool ov = sg ? (__int128)sext64(t, w) != r : (r < 0 || (u128)r != t); Frame& f = s.fr.back(); x.set(s, f, d.dst, C(t)); x.set(s, f, d.dst + 1, C(ov)); x.callDone(s); }
static void bFsh(Exec& x, State& s, const DInst& d) { unsigned w = d.x->argw[0]; Val a = ARG(0), b = ARG(1); u64 k = carg(x, s, d, 2) % w; Expr* cc = mkConcat(toExpr(a, w), toExpr(b, w)); if (2 * w > 128) x.unsupported(s, "fsh"); unsigned lo = d.imm == 0 ? w - k : k; ret(x, s, d, fromExpr(lo == 2 * w ? toExpr(a, w) : mkExtract(cc, lo, w))); }
static void bEhTypeid(Exec& x, State& s, const DInst& d) { ret(x, s, d, C(1)); }
// atomics: single-threaded read-modify-write; imm: 0 xchg 1 add 2 sub 3 and 5 or 6 xor
void doAtomicRMW(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[1]; Val o = x.readMem(s, C(a), w / 8), b = ARG(1); Expr* n;
    switch (d.imm) { case 0: n = toExpr(b, w); break; case 1: n = mkBin(KAdd, toExpr(o, w), toExpr(b, w)); break; case 2: n = mkBin(KSub, toExpr(o, w), toExpr(b, w)); break; case 3: n = mkBin(KAnd, toExpr(o, w), toExpr(b, w)); break; case 5: n = mkBin(KOr, toExpr(o, w), toExpr(b, w)); break; case 6: n = mkBin(KXor, toExpr(o, w), toExpr(b, w)); break; default: x.unsupported(s, "atomicrmw"); return; }
    x.writeMem(s, C(a), w / 8, fromExpr(n)); ret(x, s, d, o); }
void doCmpXchg(Exec& x, State& s, const DInst& d) { u64 a = carg(x, s, d, 0); unsigned w = d.x->argw[1]; Val ov = x.readMem(s, C(a), w / 8); u64 o = x.conc(s, ov, w), e = carg(x, s, d, 1); Val nv = ARG(2); if (o == e) x.writeMem(s, C(a), w / 8, nv); Frame& f = s.fr.back(); x.set(s, f, d.dst, C(o)); x.set(s, f, d.dst + 1, C(o == e)); x.callDone(s); }
static void bCalloc(Exec& x, State& s, const DInst& d) { u64 n = carg(x, s, d, 0) * carg(x, s, d, 1); if (n > (1ull << 31)) x.fail(s, "memory", "allocation too large"); uint32_t id = x.newObj(s, n, OHeap, "heap block"); x.setMem(s, x.addrOf(id), C(0), n); ret(x, s, d, C(x.addrOf(id))); }
static void bDbl(Exec& x, State& s, const DInst& d) { double a = asF(carg(x, s, d, 0), 64), r = 0; switch (d.imm) { case 0: r = std::floor(a); break; case 1: r = std::ceil(a); break; case 2: r = std::sqrt(a); break; case 3: r = std::log2(a); break; case 4: r = std::log(a); break; case 5: r = std::exp2(a); break; case 6: r = std::round(a); break; case 7: r = std::trunc(a); break; case 8: r = std::fabs(a); break; case 9: { ret(x, s, d, C((u64)std::lround(a))); return; } case 10: r = std::exp(a); break; case 11: r = std::log10(a); break; }
    u64 b; memcpy(&b, &r, 8); ret(x, s, d, C(b)); }
static void bDbl2(Exec& x, State& s, const DInst& d) { double a = asF(carg(x, s, d, 0), 64), q = asF(carg(x, s, d, 1), 64), r = d.imm == 0 ? std::fmod(a, q) : d.imm == 1 ? std::pow(a, q) : d.imm == 2 ? std::fmax(a, q) : std::fmin(a, q); u64 b; memcpy(&b, &r, 8); ret(x, s, d, C(b)); }
// harness interface
static void sxSym(Exec& x, State& s, const DInst& d) {
    std::string n = x.cstr(s, carg(x, s, d, 0)); unsigned bits = carg(x, s, d, 1); int id = nameId(n); uint32_t occ = 0; bool found = false;
    for (auto& p : s.occ) if (p.first == id) { occ = p.second++; found = true; break; } if (!found) s.occ.push_back({id, 1});
    Expr* e;
    if (gCfg.concrete) { auto it = gCfg.fixed.find(n); u64 v = 0; if (it != gCfg.fixed.end() && occ < it->second.size()) v = it->second[occ]; e = mkConst(v, bits); }
    else { Expr*& v = gVarMap[VK{id, occ, bits}]; if (!v) v = mkVar(n + "#" + std::to_string(occ), bits); e = v; }
    s.inputs.push_back({id, e}); ret(x, s, d, fromExpr(mkZExt(e, 64)));
}
static Expr* condE(const Val& v, unsigned w) { if (!v.e) return mkConst(v.c != 0, 1); return w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, w))); }
static void sxAssume(Exec& x, State& s, const DInst& d) { Expr* c = condE(ARG(0), d.x->argw[0]); ++x.S.assumeCalls; int k = x.knownTruth(s, c); if (k == 0) throw PathEnd{2};
    if (k < 0) { if (!evalExpr(c, s.model)) { Model m; int r = solve(s.pc, c, s.model, &m); if (r != 1) { if (r < 0) ++x.S.unknown; throw PathEnd{2}; } s.model = m; } x.addPc(s, c); } ret(x, s, d, C(0)); }
static void sxCheck(Exec& x, State& s, const DInst& d) { Expr* c = condE(ARG(0), d.x->argw[0]); ++x.S.checks; std::string msg = x.cstr(s, carg(x, s, d, 1)); ++x.checkCount[msg];
    int k = x.knownTruth(s, c); if (k == 0) x.fail(s, "check", msg);
    if (k < 0) { ++x.S.symChecks; Model m; Expr* n = mkNot(c); int r = solve(s.pc, n, s.model, &m); if (r < 0) ++x.S.unknown;
        if (r == 1) { x.report(s, "check", msg, m); if (!evalExpr(c, s.model)) { Model m2; if (solve(s.pc, c, s.model, &m2) != 1) throw PathEnd{1}; s.model = m2; } x.addPc(s, c); } }
    ret(x, s, d, C(0)); }
static void sxReach(Exec& x, State& s, const DInst& d) { ++x.reach[x.cstr(s, carg(x, s, d, 0))]; ret(x, s, d, C(0)); }
static void sxPick(Exec& x, State& s, const DInst& d) { u64 v = carg(x, s, d, 0); ret(x, s, d, C(v)); }
static void sxParam(Exec& x, State& s, const DInst& d) { std::string n = x.cstr(s, carg(x, s, d, 0)); auto it = gCfg.params.find(n); ret(x, s, d, it == gCfg.params.end() ? ARG(1) : C(it->second)); }
static void sxEngine(Exec& x, State& s, const DInst& d) { ret(x, s, d, C(1)); }
static void sxIte(Exec& x, State& s, const DInst& d) { Expr* c = condE(ARG(0), d.x->argw[0]); Val a = ARG(1), b = ARG(2); ret(x, s, d, fromExpr(mkIte(c, toExpr(a, 64), toExpr(b, 64)))); }
static void sxLive(Exec& x, State& s, const DInst& d) { ret(x, s, d, C(s.liveHeap)); }
static void sxPrint(Exec& x, State& s, const DInst& d) { std::string n = x.cstr(s, carg(x, s, d, 0)); Val v = ARG(1); if (gCfg.verbose) { if (v.e) fprintf(stderr, "[sx] %s = %s\n", n.c_str(), str(v.e).c_str()); else fprintf(stderr, "[sx] %s = %llu\n", n.c_str(), (unsigned long long)v.c); } ret(x, s, d, C(0)); }
static void sxDone(Exec& x, State& s, const DInst& d) { throw PathEnd{0}; }
static void sxNote(Exec& x, State& s, const DInst& d) { std::string n = x.cstr(s, carg(x, s, d, 0)); Val v = ARG(1); s.inputs.push_back({nameId("note:" + n), toExpr(v, 64)}); ret(x, s, d, C(0)); }

static const std::map<std::string, std::pair<Builtin, u64>>& table() {
    static std::map<std::string, std::pair<Builtin, u64>> t;
    if (!t.empty()) return t;
    auto add = [&](const char* n, Builtin b, u64 imm = 0) { t[n] = {b, imm}; };
    add("_Znwm", bNew); add("_Znam", bNewArr); add("malloc", bNew); add("free", bDelete);
    for (auto n : {"_ZdlPv", "_ZdlPvm"}) add(n, bDelete); for (auto n : {"_ZdaPv", "_ZdaPvm"}) add(n, bDeleteArr);
    add("memcpy", bMemcpy); add("memmove", bMemcpy); add("memset", bMemset); add("memcmp", bMemcmp); add("bcmp", bMemcmp); add("strlen", bStrlen); add("memchr", bMemchr);
    add("__assert_fail", bAssertFail); add("abort", bAbort); add("_ZSt9terminatev", bAbort); add("exit", bAbort); add("__cxa_pure_virtual", bAbort); add("_ZSt21__glibcxx_assert_failPKciS0_S0_", bAbort);
    for (auto n : {"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv"}) add(n, bThrowLib);
    add("__cxa_allocate_exception", bAllocExc); add("__cxa_free_exception", bNop); add("__cxa_throw", bThrow); add("__cxa_rethrow", bRethrow); add("__cxa_begin_catch", bRet0); add("__cxa_end_catch", bNop); add("__cxa_atexit", bNop); add("atexit", bNop);
    add("_ZNSt13runtime_errorC1EPKc", bNop); add("_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", bNop); add("_ZNSt13runtime_errorD1Ev", bNop); add("_ZNSt9exceptionD2Ev", bNop); add("_ZNSt11logic_errorC1EPKc", bNop); add("_ZNSt11logic_errorD1Ev", bNop); add("_ZNSt12out_of_rangeC1EPKc", bNop); add("_ZNSt12out_of_rangeD1Ev", bNop); add("_ZNSt16invalid_argumentC1EPKc", bNop); add("_ZNSt16invalid_argumentD1Ev", bNop);add("_ZNSt12length_errorC1EPKc", bNop); add("_ZNSt12length_errorD1Ev", bNop);
    add("__cxa_guard_acquire", bGuardAcq); add("__cxa_guard_release", bGuardRel); add("__cxa_guard_abort", bNop);
    add("_ZNSt8ios_base4InitC1Ev", bNop); add("_ZNSt8ios_base4InitD1Ev", bNop); add("_ZSt21ios_base_library_initv", bNop); add("printf", bNop); add("puts", bNop); add("putchar", bNop); add("fprintf", bNop); add("fflush", bNop);
    for (auto n : {"_ZNSo3putEc", "_ZNSo5flushEv", "_ZNSolsEi", "_ZNSolsEm", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIbEERSoT_", "_ZNSo9_M_insertIPKvEERSoT_", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSo5writeEPKcl", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"}) add(n, bRet0);
    add("_ZnwmRKSt9nothrow_t", bNew); add("_ZnamRKSt9nothrow_t", bNewArr); add("_ZdlPvRKSt9nothrow_t", bDelete); add("_ZnwmSt11align_val_t", bNew); add("_ZdlPvSt11align_val_t", bDelete); add("_ZdlPvmSt11align_val_t", bDelete); add("calloc", bCalloc); add("__cxa_thread_atexit", bNop);
    { const char* one[] = {"floor", "ceil", "sqrt", "log2", "log", "exp2", "round", "trunc", "fabs", "lround", "exp", "log10"}; static std::string nm[24]; for (int k = 0; k < 12; ++k) { add(one[k], bDbl, k); if (k != 9) { nm[k] = std::string("llvm.") + one[k] + ".f64"; add(nm[k].c_str(), bDbl, k); } } add("fmod", bDbl2, 0); add("pow", bDbl2, 1); add("llvm.pow.f64", bDbl2, 1); add("llvm.maxnum.f64", bDbl2, 2); add("llvm.minnum.f64", bDbl2, 3); }
    add("sx_sym", sxSym); add("sx_assume", sxAssume); add("sx_check_", sxCheck); add("sx_reach", sxReach); add("sx_pick", sxPick); add("sx_param", sxParam); add("sx_engine", sxEngine); add("sx_ite", sxIte); add("sx_live_heap", sxLive); add("sx_print", sxPrint); add("sx_done", sxDone); add("sx_note", sxNote);
    // intrinsics by prefix
    for (auto n : {"llvm.lifetime.", "llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant.", "llvm.stackrestore", "llvm.stacksave", "llvm.donothing", "llvm.sideeffect", "llvm.prefetch", "llvm.var.annotation"}) add(n, bNop);
    for (auto n : {"llvm.expect.", "llvm.launder.", "llvm.threadlocal.address", "llvm.strip.", "llvm.ptr.annotation", "llvm.ssa.copy"}) add(n, bRet0);
    add("llvm.memcpy.", bMemcpy); add("llvm.memmove.", bMemcpy); add("llvm.memset.", bMemset);
    add("llvm.umin.", bMinMax, 0); add("llvm.umax.", bMinMax, 1); add("llvm.smin.", bMinMax, 2); add("llvm.smax.", bMinMax, 3); add("llvm.abs.", bAbs); add("llvm.ctlz.", bCtlz); add("llvm.cttz.", bCttz); add("llvm.ctpop.", bCtpop); add("llvm.bswap.", bBswap); add("llvm.usub.sat.", bUsubSat); add("llvm.uadd.sat.", bUaddSat);
    add("llvm.uadd.with.overflow.", bOverflow, 0); add("llvm.usub.with.overflow.", bOverflow, 1); add("llvm.umul.with.overflow.", bOverflow, 2); add("llvm.sadd.with.overflow.", bOverflow, 3); add("llvm.ssub.with.overflow.", bOverflow, 4); add("llvm.smul.with.overflow.", bOverflow, 5);
    add("llvm.fshl.", bFsh, 0); add("llvm.fshr.", bFsh, 1); add("llvm.eh.typeid.for", bEhTypeid); add("llvm.trap", bAbort); add("llvm.is.constant.", bNop); add("llvm.vector.reduce", nullptr);
    return t;
}
Builtin findBuiltin(const std::string& n, u64& imm) {
    auto& t = table(); auto it = t.find(n); if (it != t.end()) { imm = it->second.second; return it->second.first; }
    auto has = [&](const char* q) { return n.find(q) != std::string::npos; };
    // the standard exception classes: construction and destruction have no effect here (types are not told apart when caught)
    if (n.compare(0, 5, "_ZNSt") == 0 && (has("C1E") || has("C2E") || has("D1E") || has("D2E") || has("D0E")) && (has("_error") || has("out_of_range") || has("invalid_argument") || has("exception"))) return bNop;
    if (n.compare(0, 4, "_ZSt") == 0 && has("__throw_")) return bThrowLib;
    if (n.compare(0, 7, "_ZNSols") == 0 || n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 6, "_ZNSo9") == 0) return bRet0;
    if (n.compare(0, 5, "llvm.") == 0) for (auto& p : t) if (p.first.compare(0, 5, "llvm.") == 0 && n.compare(0, p.first.size(), p.first) == 0) { imm = p.second.second; return p.second.first; }
    return nullptr;
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void wr(std::ostream& o, const std::string& s) { o << s.size() << " " << s << "\n"; }
static std::string rd(std::istream& i) { size_t n; i >> n; i.get(); std::string s(n, 0); i.read(&s[0], n); return s; }
static void saveResult(const std::string& fn, bool timedOut, u64 left) {
    std::ofstream o(fn); Stats& S = X.S; o << S.paths << " " << S.ok << " " << S.err << " " << S.assumed << " " << S.unsupported << " " << S.forks << " " << S.steps << " " << S.unknown << " " << S.checks << " " << S.symChecks << " " << S.maxPathSteps << " " << timedOut << " " << left << "\n";
    o << gSolver.queries << " " << gSolver.sat << " " << gSolver.unsat << " " << gSolver.unknown << " " << gSolver.cacheHits << " " << gSolver.seconds << "\n";
    o << X.errCount.size() << "\n"; for (auto& p : X.errCount) { wr(o, p.first); o << p.second << " " << X.errors[p.first].size() << "\n"; for (auto& e : X.errors[p.first]) { wr(o, e.kind); wr(o, e.msg); wr(o, e.where); wr(o, e.stack); o << e.usesUninit << " " << e.inputs.size() << "\n"; for (auto& q : e.inputs) { wr(o, q.first); o << q.second << "\n"; } } }
    o << X.reach.size() << "\n"; for (auto& p : X.reach) { wr(o, p.first); o << p.second << "\n"; }
    o << X.checkCount.size() << "\n"; for (auto& p : X.checkCount) { wr(o, p.first); o << p.second << "\n"; }
    o << X.unsup.size() << "\n"; for (auto& p : X.unsup) wr(o, p);
    o << X.samples.size() << "\n"; for (auto& p : X.samples) wr(o, p);
    size_t nf = 0; for (auto f : allFuncs()) if (f->decoded) ++nf; o << nf << "\n";
    for (auto f : allFuncs()) if (f->decoded) { wr(o, f->name); o << f->calls << "\n"; std::string b; for (auto& d : f->code) b += d.vis ? '1' : '0'; wr(o, b); }
}
struct Merged { Stats S; SolverStats Q; bool timedOut = false; u64 left = 0; std::map<std::string, std::pair<u64, std::vector<ErrorRec>>> errs; std::map<std::string, u64> reach, checks; std::set<std::string> unsup; std::vector<std::string> samples; std::map<std::string, std::pair<u64, std::string>> cov; };
static void loadResult(const std::string& fn, Merged& M) {
    std::ifstream i(fn); if (!i) { M.timedOut = true; M.unsup.insert("worker died"); return; }
    Stats S; bool t; u64 l; i >> S.paths >> S.ok >> S.err >> S.assumed >> S.unsupported >> S.forks >> S.steps >> S.unknown >> S.checks >> S.symChecks >> S.maxPathSteps >> t >> l;
    M.S.paths += S.paths; M.S.ok += S.ok; M.S.err += S.err; M.S.assumed += S.assumed; M.S.unsupported += S.unsupported; M.S.forks += S.forks; M.S.steps += S.steps; M.S.unknown += S.unknown; M.S.checks += S.checks; M.S.symChecks += S.symChecks; M.S.maxPathSteps = std::max(M.S.maxPathSteps, S.maxPathSteps); M.timedOut |= t; M.left += l;
    SolverStats q; i >> q.queries >> q.sat >> q.unsat >> q.unknown >> q.cacheHits >> q.seconds; M.Q.queries += q.queries; M.Q.sat += q.sat; M.Q.unsat += q.unsat; M.Q.unknown += q.unknown; M.Q.cacheHits += q.cacheHits; M.Q.seconds += q.seconds;
    size_t n; i >> n; while (n--) { std::string k = rd(i); u64 c; size_t m; i >> c >> m; auto& e = M.errs[k]; e.first += c; while (m--) { ErrorRec r; r.kind = rd(i); r.msg = rd(i); r.where = rd(i); r.stack = rd(i); size_t z; i >> r.usesUninit >> z; while (z--) { std::string a = rd(i); u64 v; i >> v; r.inputs.push_back({a, v}); } if (e.second.size() < 6) e.second.push_back(r); } }
    i >> n; while (n--) { std::string k = rd(i); u64 c; i >> c; M.reach[k] += c; }
    i >> n; while (n--) { std::string k = rd(i); u64 c; i >> c; M.checks[k] += c; }
    i >> n; while (n--) M.unsup.insert(rd(i));
    i >> n; while (n--) { std::string k = rd(i); if (M.samples.size() < 5) M.samples.push_back(k); }
    i >> n; while (n--) { std::string k = rd(i); u64 c; i >> c; std::string b = rd(i); auto& q = M.cov[k]; q.first += c; if (q.second.empty()) q.second = b; else for (size_t j = 0; j < b.size() && j < q.second.size(); ++j) if (b[j] == '1') q.second[j] = '1'; }
}
static void resetStats() { X.S = Stats(); X.errors.clear(); X.errCount.clear(); X.reach.clear(); X.checkCount.clear(); X.unsup.clear(); X.samples.clear(); gSolver = SolverStats(); for (auto f : allFuncs()) { f->calls = 0; for (auto& d : f->code) d.vis = false; } }

int main(int argc, char** argv) {
    std::string bc, out = "-", tmp = "/tmp"; unsigned seed = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") gCfg.entry = nxt(); else if (a == "--out") out = nxt(); else if (a == "--tmp") tmp = nxt(); else if (a == "--time") gCfg.timeLimit = atof(argv[++i]); else if (a == "--workers") gCfg.workers = atoi(argv[++i]);
        else if (a == "--frontier") gCfg.frontier = atoi(argv[++i]); else if (a == "--steps") gCfg.maxSteps = strtoull(argv[++i], 0, 10); else if (a == "--desc") gCfg.desc = true; else if (a == "-v") gCfg.verbose = true; else if (a == "--dump") gDumpDir = argv[++i];
        else if (a == "--seed") seed = atoi(argv[++i]); else if (a == "--frames") gCfg.maxFrames = atoi(argv[++i]); else if (a == "--solver-ms") gSolverTimeoutMs = atoi(argv[++i]); else if (a == "--concrete") gCfg.concrete = true;
        else if (a == "--fix") { std::string k = nxt(); gCfg.concrete = true; auto p = k.find('='); gCfg.fixed[k.substr(0, p)].push_back(strtoull(k.c_str() + p + 1, 0, 10)); }
        else if (a == "-p") { std::string k = nxt(); auto p = k.find('='); gCfg.params[k.substr(0, p)] = strtoull(k.c_str() + p + 1, 0, 10); }
        else bc = a;
    }
    X.t0 = std::chrono::steady_clock::now();
    std::string err; if (!loadModule(bc, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 2; }
    State* st = new State;
    // globals
    struct H { Exec& x; State& s; } h{X, *st};
    for (auto& g : globalList()) {
        uint32_t id = X.newObj(*st, g.size, g.func ? OFunc : OGlobal, g.name, true);
        if (X.addrOf(id) != g.addr) { fprintf(stderr, "address layout mismatch\n"); return 2; }
        if (g.isConst) X.objW(*st, id).constant = false;
        for (auto& w : g.init) X.writeConc(*st, id, w.off, w.n, C(w.v));
    }
    for (auto& g : globalList()) if (g.isConst) X.objW(*st, X.idOf(g.addr)).constant = true;
    Merged M;
    auto runSeq = [&](DFunc* f) { // concrete initialisers
        X.pushFrame(*st, f, nullptr, 0); while (!st->fr.empty()) X.step(*st); };
    try { for (auto f : globalCtors()) runSeq(f); } catch (PathEnd&) { fprintf(stderr, "global constructor failed: %s\n", X.unsup.empty() ? "?" : X.unsup.begin()->c_str()); return 2; }
    DFunc* entry = funcByName(gCfg.entry); if (!entry) { fprintf(stderr, "no entry %s\n", gCfg.entry.c_str()); return 2; }
    X.pushFrame(*st, entry, nullptr, 0);
    X.work.push_back(st);
    if (gCfg.workers <= 1) { while (!X.work.empty() && !X.timedOut) { State* s = X.work.back(); X.work.pop_back(); X.run(s); if (X.S.err > gCfg.maxErrors) break; } std::string fn = tmp + "/lbsx_res_" + std::to_string(getpid()); saveResult(fn, X.timedOut, X.work.size()); loadResult(fn, M); unlink(fn.c_str()); }
    else {
        X.bfs = true;
        while (!X.work.empty() && X.work.size() < gCfg.frontier && !X.timedOut && X.S.err <= gCfg.maxErrors) { State* s = X.work.front(); X.work.pop_front(); X.run(s); }
        X.bfs = false; u64 left0 = 0; if (X.timedOut || X.S.err > gCfg.maxErrors) { left0 = X.work.size(); X.work.clear(); }
        std::string fn = tmp + "/lbsx_res_" + std::to_string(getpid()); saveResult(fn, X.timedOut, left0); loadResult(fn, M); unlink(fn.c_str());
        std::vector<State*> fr(X.work.begin(), X.work.end()); std::mt19937 rng(seed); std::shuffle(fr.begin(), fr.end(), rng);
        if (!fr.empty()) {
            struct Shared { std::atomic<u64> next, errs; std::atomic<int> active, seq; }; Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->next = 0; sh->errs = 0; sh->active = (int)gCfg.workers; sh->seq = (int)gCfg.workers;
            std::vector<pid_t> pids; std::cout.flush();
            for (unsigned w = 0; w < gCfg.workers; ++w) { pid_t p = fork(); if (p == 0) {
                    int me = (int)w; std::vector<pid_t> kids;
                    resetStats(); X.work.clear(); bool stop = false; u64 lastErr = 0; u64 lefts = 0; double lastSplit = X.elapsed();
                    for (bool own = true; own;) { u64 k = sh->next; if (k < fr.size()) k = sh->next++; if (k >= fr.size()) { if (X.work.empty()) break; own = false; } else X.work.push_back(fr[k]);
                        while (!X.work.empty()) {
                            State* s = X.work.back(); X.work.pop_back(); X.run(s); if (X.S.err != lastErr) { sh->errs += X.S.err - lastErr; lastErr = X.S.err; } if (X.timedOut || sh->errs > gCfg.maxErrors) { stop = true; break; }
                            if (X.work.size() >= 2 && sh->next >= fr.size() && sh->active < (int)gCfg.workers && X.elapsed() - lastSplit > 0.1) { // an idle slot: hand the older half of the work to a new process
                                if (++sh->active > (int)gCfg.workers) { --sh->active; continue; }
                                int id = sh->seq++; pid_t c = fork(); size_t half = X.work.size() / 2;
                                lastSplit = X.elapsed(); if (c < 0) --sh->active;
                                else if (c == 0) { me = id; kids.clear(); resetStats(); lastErr = 0; X.work.resize(half); own = false; }
                                else { kids.push_back(c); X.work.erase(X.work.begin(), X.work.begin() + half); }
                            }
                        }
                        if (stop) { lefts += X.work.size() + 1; break; } }
                    saveResult(fn + "_" + std::to_string(me), X.timedOut, stop ? lefts : 0); --sh->active; for (auto c : kids) { int st2; waitpid(c, &st2, 0); } _exit(0); }
                pids.push_back(p); }
            for (auto p : pids) { int stt; waitpid(p, &stt, 0); }
            for (int w = 0; w < sh->seq; ++w) { std::string g = fn + "_" + std::to_string(w); loadResult(g, M); unlink(g.c_str()); }
            if (sh->next < fr.size()) M.left += fr.size() - sh->next;
        }
    }
    // report
    std::ostringstream o; Stats& S = M.S;
    o << "{\"entry\":\"" << gCfg.entry << "\",\"paths\":" << S.paths << ",\"ok\":" << S.ok << ",\"error_paths\":" << S.err << ",\"assumed_away\":" << S.assumed << ",\"unsupported\":" << S.unsupported << ",\"forks\":" << S.forks << ",\"instructions\":" << S.steps << ",\"max_path_instructions\":" << S.maxPathSteps
      << ",\"checks\":" << S.checks << ",\"symbolic_checks\":" << S.symChecks << ",\"solver_unknown\":" << S.unknown + M.Q.unknown << ",\"queries\":" << M.Q.queries << ",\"sat\":" << M.Q.sat << ",\"unsat\":" << M.Q.unsat << ",\"cache_hits\":" << M.Q.cacheHits << ",\"solver_s\":" << M.Q.seconds << ",\"wall_s\":" << X.elapsed() << ",\"timed_out\":" << (M.timedOut ? "true" : "false") << ",\"states_left\":" << M.left;
    o << ",\"complete\":" << (!M.timedOut && !M.left && M.unsup.empty() && !(S.unknown + M.Q.unknown) && !S.unsupported ? "true" : "false");
    o << ",\"errors\":["; bool c1 = false; for (auto& p : M.errs) { if (c1) o << ","; c1 = true; auto& e0 = p.second.second[0]; o << "{\"kind\":\"" << jesc(e0.kind) << "\",\"msg\":\"" << jesc(e0.msg) << "\",\"where\":\"" << jesc(e0.where) << "\",\"stack\":\"" << jesc(e0.stack) << "\",\"count\":" << p.second.first << ",\"examples\":["; bool c2 = false; for (auto& e : p.second.second) { if (c2) o << ","; c2 = true; o << "{\"uninit\":" << (e.usesUninit ? "true" : "false") << ",\"inputs\":["; bool c3 = false; for (auto& q : e.inputs) { if (c3) o << ","; c3 = true; o << "[\"" << jesc(q.first) << "\"," << q.second << "]"; } o << "]}"; } o << "]}"; }
    o << "],\"reach\":{"; c1 = false; for (auto& p : M.reach) { if (c1) o << ","; c1 = true; o << "\"" << jesc(p.first) << "\":" << p.second; }
    o << "},\"check_counts\":{"; c1 = false; for (auto& p : M.checks) { if (c1) o << ","; c1 = true; o << "\"" << jesc(p.first) << "\":" << p.second; }
    o << "},\"unsupported_msgs\":["; c1 = false; for (auto& p : M.unsup) { if (c1) o << ","; c1 = true; o << "\"" << jesc(p) << "\""; }
    o << "],\"samples\":["; c1 = false; for (auto& p : M.samples) { if (c1) o << ","; c1 = true; o << "\"" << jesc(p) << "\""; }
    o << "],\"functions\":["; c1 = false; for (auto f : allFuncs()) if (f->repo) { auto it = M.cov.find(f->name); if (it == M.cov.end()) continue; size_t tot = it->second.second.size(), v = std::count(it->second.second.begin(), it->second.second.end(), '1'); if (!v) continue; if (c1) o << ","; c1 = true; o << "{\"name\":\"" << jesc(f->pretty) << "\",\"file\":\"" << jesc(f->file) << "\",\"calls\":" << it->second.first << ",\"insts\":" << tot << ",\"covered\":" << v << "}"; }
    o << "]}\n";
    if (out == "-") std::cout << o.str(); else std::ofstream(out) << o.str();
    return 0;
}
