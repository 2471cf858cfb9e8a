#pragma once
#include "mem.h"
#include <map>
#include <deque>
#include <set>

struct DFunc;
enum Op : uint8_t { OBin, OICmp, OFBin, OFCmp, OFNeg, OCast, OLoad, OStore, OGep, OAlloca, OBr, OCondBr, OSwitch, OCall, OCallInd,
    OBuiltin, ORet, OSelect, OExtractValue, OInsertValue, OLandingPad, OResume, OUnreachable, ONop, OCopy, OUnsupported };
enum CastOp : uint8_t { CZExt, CSExt, CTrunc, CCopy, CUIToFP, CSIToFP, CFPToUI, CFPToSI, CFPTrunc, CFPExt };

struct Edge { uint32_t target = 0; std::vector<std::pair<int, int>> copies; };
struct Scal { unsigned off, w; bool fp; };   // byte offset, bit width
struct DInst;
struct Exec; struct State;
typedef void (*Builtin)(Exec&, State&, const DInst&);
struct DExt {
    std::vector<int> args; std::vector<unsigned> argw;
    std::vector<std::pair<int, i64>> scaled;   // gep: slot, scale
    std::vector<Scal> scal;                    // aggregate load/store layout
    std::vector<u64> cases; std::vector<Edge> edges;
    DFunc* callee = nullptr; Builtin fn = nullptr; std::string name; bool invoke = false; bool hasCatch = false;
    std::vector<unsigned> idxw;
};
struct DInst {
    Op op = ONop; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1, n = 0; int a = 0, b = 0, c = 0; u64 imm = 0; DExt* x = nullptr;
    uint32_t line = 0; mutable bool vis = false; const char* file = nullptr;
};
struct DFunc {
    std::string name, pretty; bool repo = false, decoded = false; unsigned nslots = 0, nargs = 0; std::vector<unsigned> argSlots;
    std::vector<DInst> code; std::vector<Val> consts; void* llvmF = nullptr; u64 calls = 0; std::string file;
};
struct Frame { DFunc* f; uint32_t ip; uint32_t base; uint32_t allocaBase; };

struct State {
    std::vector<Frame> fr; std::vector<Val> regs; std::vector<uint32_t> allocas;
    std::vector<Rc<ObjPage>> pages; uint32_t nextObj = 1;
    std::vector<Expr*> pc; Model model;
    std::vector<std::pair<Expr*, u64>> known;
    std::vector<std::pair<int, Expr*>> inputs;  // name id, expression
    std::vector<std::pair<int, uint32_t>> occ;  // name id -> next occurrence
    std::vector<std::pair<u64, u64>> exc;       // exception stack
    u64 excPtr = 0; u64 steps = 0; uint32_t uninitCnt = 0; u64 liveHeap = 0; uint32_t forks = 0;
};

struct ErrorRec { std::string kind, msg, where, stack; std::vector<std::pair<std::string, u64>> inputs; bool usesUninit = false; };
struct PathEnd { int why; };                     // 0 normal, 1 error, 2 assume, 3 unsupported

struct Config {
    std::string entry = "sx_main"; u64 maxSteps = 100000000ull; double timeLimit = 200; unsigned workers = 8; unsigned frontier = 1024; bool desc = false;
    size_t maxFrames = 20000; std::map<std::string, u64> params; std::map<std::string, std::vector<u64>> fixed; bool concrete = false; unsigned maxErrors = 200; bool verbose = false; u64 memLimitMB = 3000;
};
