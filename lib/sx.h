// Harness interface: symbolic inputs, assumptions, checks. In the engine these are intrinsics; natively they read the
// replay file (see native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
extern "C" {
uint64_t sx_sym(const char* name, unsigned bits);   // an arbitrary value of that many bits
void sx_assume(bool c);
void sx_check_(bool c, const char* msg);
void sx_reach(const char* name);
uint64_t sx_pick(uint64_t v);                       // case-split on the value
uint64_t sx_param(const char* name, uint64_t dflt);
uint64_t sx_engine();                               // 1 in the engine, 0 natively
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);
uint64_t sx_live_heap();
void sx_print(const char* name, uint64_t v);
void sx_done();                                     // end this path here
void sx_note(const char* name, uint64_t v);
unsigned sx_next_key();
extern int sx_key_mode;      // see sx_keys.cpp
extern unsigned sx_key_bits, sx_key_count;
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c, msg) sx_check_(static_cast<bool>(c), msg)
inline uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) { // symbolic value in [lo, hi]
    if (lo == hi) return lo;
    unsigned bits = 1; while (bits < 64 && ((hi - lo) >> bits)) ++bits;
    uint64_t v = sx_sym(name, bits); if (((hi - lo) & (hi - lo + 1)) != 0) sx_assume(v <= hi - lo); return lo + v;
}
inline uint64_t sx_choose(const char* name, uint64_t lo, uint64_t hi) { return sx_pick(sx_range(name, lo, hi)); } // case-split
inline bool sx_flag(const char* name) { return sx_pick(sx_sym(name, 1)) != 0; }
#ifdef SX_NATIVE
struct SxReg { SxReg(const char*, void (*)()); };
#define SX_ENTRY(n) extern "C" void n(); static SxReg sxreg_##n(#n, n); extern "C" void n()
#else
#define SX_ENTRY(n) extern "C" void n(); extern "C" void n()
#endif
