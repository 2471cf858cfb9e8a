// Native side of the harness interface: replays one assignment of the symbolic inputs.
#define SX_NATIVE
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <string>
static std::map<std::string, std::vector<uint64_t>>& in() { static auto* m = new std::map<std::string, std::vector<uint64_t>>; return *m; }
static std::map<std::string, size_t>& pos() { static auto* m = new std::map<std::string, size_t>; return *m; }
static std::map<std::string, uint64_t>& par() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static int gFill = -1; static long gLive = 0;
extern "C" {
struct KeepLive { long g = gLive; ~KeepLive() { gLive = g; } }; // allocations made here are not the program's
uint64_t sx_sym(const char* n, unsigned bits) { KeepLive k; auto& v = in()[n]; size_t& p = pos()[n]; uint64_t r = p < v.size() ? v[p] : 0; ++p; return bits >= 64 ? r : r & ((1ull << bits) - 1); }
void sx_assume(bool c) { if (!c) { printf("REPLAY assumption not met\n"); fflush(stdout); _Exit(0); } }
void sx_check_(bool c, const char* m) { if (!c) { printf("REPLAY-VIOLATION check %s\n", m); fflush(stdout); _Exit(9); } }
void sx_reach(const char*) {}
uint64_t sx_pick(uint64_t v) { return v; }
uint64_t sx_param(const char* n, uint64_t d) { KeepLive k; auto it = par().find(n); return it == par().end() ? d : it->second; }
uint64_t sx_engine() { return 0; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sx_live_heap() { return gLive; }
void sx_print(const char* n, uint64_t v) { printf("%s = %llu\n", n, (unsigned long long)v); }
void sx_note(const char* n, uint64_t v) { printf("note %s = %llu\n", n, (unsigned long long)v); }
void sx_done() { printf("REPLAY ok\n"); fflush(stdout); _Exit(0); }
}
#ifdef SX_EMUL
// the executor's address pattern: large blocks far apart, in ascending (or descending) order, equal low bits, never reused
#include <sys/mman.h>
static char* gBase = nullptr; static size_t gUsed = 0; static const size_t SPAN = size_t(1) << 43, STEP = size_t(1) << 24; static bool gDesc = false;
static void* raw(size_t n) {
    if (n < 512) return malloc(n ? n : 1);
    if (!gBase) { gBase = (char*)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (gBase == MAP_FAILED) _Exit(3); gBase = (char*)(((size_t)gBase + STEP - 1) & ~(STEP - 1)); }
    size_t need = (n + STEP - 1) & ~(STEP - 1); if (gUsed + need + STEP > SPAN) _Exit(3);
    char* p = gDesc ? gBase + (SPAN - STEP - gUsed - need) : gBase + gUsed; gUsed += need; return p;
}
static void rawfree(void* p) { if (gBase && (char*)p >= gBase && (char*)p < gBase + SPAN) { madvise(p, 4096, MADV_DONTNEED); return; } free(p); }
#define malloc raw
#define free rawfree
#endif
#ifndef SX_ASAN
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (gFill >= 0) memset(p, gFill, n); ++gLive; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (gFill >= 0) memset(p, gFill, n); ++gLive; return p; }
void operator delete(void* p) noexcept { if (p) --gLive; free(p); }
void operator delete[](void* p) noexcept { if (p) --gLive; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --gLive; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --gLive; free(p); }
#endif
static std::map<std::string, void (*)()>& reg() { static auto* m = new std::map<std::string, void (*)()>; return *m; }
SxReg::SxReg(const char* n, void (*f)()) { reg()[n] = f; }
int main(int argc, char** argv) { // usage: prog FILE ENTRY [fill]; FILE has lines "in NAME VALUE" and "param NAME VALUE"
    std::ifstream f(argv[1]); std::string k, n; uint64_t v; while (f >> k >> n >> v) { if (k == "in") in()[n].push_back(v); else if (k == "param") par()[n] = v; }
    f.close(); std::string en = argv[2]; auto* fn = reg()[en]; if (!fn) { printf("no entry\n"); return 3; } gFill = argc > 3 ? atoi(argv[3]) : -1; gLive = 0;
#ifdef SX_EMUL
    gDesc = argc > 4;
#endif
    fn(); printf("REPLAY ok\n"); return 0;
}
