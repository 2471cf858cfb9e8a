// Hash-consed bit-vector expressions, simplification, evaluation, Z3 back end.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef int64_t i64;

enum Kind : uint8_t { KConst, KVar, KNot, KAnd, KOr, KXor, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem,
    KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KZExt, KSExt, KIte };

typedef std::vector<uint32_t> VarSet;

struct Expr {
    Kind k; uint16_t w; uint32_t id; u64 hash;
    u128 c;                 // KConst: value; KVar: variable index; KExtract: low bit
    Expr *a, *b, *d;
    u64 kz, ko;             // known-zero / known-one bits (w <= 64)
    u64 rlo, rhi;           // unsigned range (w <= 64)
    const VarSet* vars;     // variables occurring
    uint32_t epoch; u128 ev;
    void* z3bool; void* z3bv;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> gVars;
extern u64 gExprCount;

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, bool uninit = false);
Expr* mkNot(Expr* a);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkCmp(Kind k, Expr* a, Expr* b); // KUlt KUle KSlt KSle
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
inline bool isConst(const Expr* e) { return e->k == KConst; }
inline bool isTrue(const Expr* e) { return e->k == KConst && e->c == 1; }
inline bool isFalse(const Expr* e) { return e->k == KConst && e->c == 0; }
std::string str(const Expr* e, int depth = 6);

// leaf constants of an ite tree; false if some leaf is not constant or too many
bool leafConsts(Expr* e, std::vector<u64>& out, size_t limit);

typedef std::vector<u64> Model; // by variable index, missing = 0
u128 evalExpr(Expr* e, const Model& m);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double seconds = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
extern const char* gDumpDir; // if set, every n-th query is dumped as SMT-LIB
// 1 sat (model updated), 0 unsat, -1 unknown. `pc` is known satisfiable by `base`.
int solve(const std::vector<Expr*>& pc, Expr* cond, const Model& base, Model* out);
