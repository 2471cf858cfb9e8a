#pragma once
#include "exec.h"
struct GInit { u64 off; unsigned n; u64 v; };
struct GObj { u64 addr, size; bool func, isConst; const char* name; std::vector<GInit> init; };
bool loadModule(const std::string& file, std::string& err);
const std::vector<GObj>& globalList();
std::vector<DFunc*> globalCtors();
DFunc* funcByName(const std::string& n);
DFunc* funcByAddr(u64 a);
void decodeFunction(DFunc* f);
const std::vector<DFunc*>& allFuncs();
Builtin findBuiltin(const std::string& n, u64& imm);
struct DInst; class Exec; struct State; void doAtomicRMW(Exec& x, State& s, const DInst& d); void doCmpXchg(Exec& x, State& s, const DInst& d);
extern Config gCfg;
