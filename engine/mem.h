// Symbolic memory: copy-on-write objects made of 512-byte chunks; every 8-byte cell may hold an expression.
#pragma once
#include "expr.h"
#include <cstring>
#include <string>

struct Val { u64 c; Expr* e; };           // e == nullptr: concrete value c
inline Val C(u64 c) { return Val{c, nullptr}; }
inline Expr* toExpr(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromExpr(Expr* e) { if (isConst(e) && e->w <= 64) return Val{(u64)e->c, nullptr}; return Val{0, e}; }

template <class T> struct Rc {            // intrusive copy-on-write pointer (single threaded)
    T* p = nullptr;
    Rc() {}
    Rc(const Rc& o) : p(o.p) { if (p) ++p->rc; }
    Rc(Rc&& o) noexcept : p(o.p) { o.p = nullptr; }
    Rc& operator=(Rc o) noexcept { std::swap(p, o.p); return *this; }
    ~Rc() { if (p && --p->rc == 0) delete p; }
    static Rc make() { Rc r; r.p = new T(); r.p->rc = 1; return r; }
    T& w() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; --p->rc; p = n; } return *p; }
    const T* operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
};

struct Chunk {
    u64 rc = 1;
    u64 init[8];                          // one bit per byte
    Expr** cell = nullptr;                // 64 cells, non-null = symbolic
    unsigned char d[512];
    Chunk() { memset(init, 0, sizeof init); memset(d, 0, sizeof d); }
    Chunk(const Chunk& o) { memcpy(init, o.init, sizeof init); memcpy(d, o.d, sizeof d);
        if (o.cell) { cell = new Expr*[64]; memcpy(cell, o.cell, 64 * sizeof(Expr*)); } }
    ~Chunk() { delete[] cell; }
    bool isInit(unsigned o) const { return init[o >> 6] >> (o & 63) & 1; }
    bool allInit(unsigned o, unsigned n) const { u64 m = (n >= 64 ? ~0ull : ((1ull << n) - 1)); unsigned s = o & 63;
        if (s + n <= 64) return ((init[o >> 6] >> s) & m) == m;
        for (unsigned i = 0; i < n; ++i) if (!isInit(o + i)) return false; return true; }
    bool noneInit(unsigned o, unsigned n) const { for (unsigned i = 0; i < n; ++i) if (isInit(o + i)) return false; return true; }
    void setInit(unsigned o, unsigned n) { for (unsigned i = o; i < o + n;) { if (!(i & 63) && o + n - i >= 64) { init[i >> 6] = ~0ull; i += 64; } else { init[i >> 6] |= 1ull << (i & 63); ++i; } } }
    void clrInit(unsigned o, unsigned n) { for (unsigned i = o; i < o + n; ++i) init[i >> 6] &= ~(1ull << (i & 63)); }
};
struct ChunkTab { u64 rc = 1; Rc<Chunk> c[64]; };
struct Upd { Expr* off; u64 lo, hi; unsigned size; Val v; };  // write at symbolic offset
enum ObjKind : uint8_t { OHeap, OHeapArr, OStack, OGlobal, OFunc };
struct Obj {
    u64 rc = 1;
    u64 size = 0;
    ObjKind kind = OHeap;
    bool alive = true, constant = false, zero = false;
    const char* name = "";
    std::vector<Rc<ChunkTab>> t;
    std::vector<Upd> upd;
};
struct ObjPage { u64 rc = 1; Rc<Obj> o[64]; };
