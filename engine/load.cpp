// Bitcode loading and pre-decoding.
#include "load.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
using namespace llvm;

static LLVMContext gCtx; static std::unique_ptr<Module> gM; static const DataLayout* DL;
static std::vector<GObj> gObjs; static std::vector<DFunc*> gFuncs; static std::map<std::string, DFunc*> gByName; static DenseMap<const GlobalValue*, u64> gAddr; static std::map<u64, DFunc*> gFByAddr; static DenseMap<const Function*, DFunc*> gF;
const std::vector<GObj>& globalList() { return gObjs; }
const std::vector<DFunc*>& allFuncs() { return gFuncs; }
DFunc* funcByName(const std::string& n) { auto it = gByName.find(n); return it == gByName.end() || !it->second->llvmF ? nullptr : it->second; }
DFunc* funcByAddr(u64 a) { auto it = gFByAddr.find(a); return it == gFByAddr.end() ? nullptr : it->second; }

static void flatten(Type* t, u64 off, std::vector<Scal>& out) {
    if (t->isVoidTy()) return;
    if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out); return; }
    unsigned w = t->isPointerTy() ? 64 : t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
    out.push_back(Scal{(unsigned)off, w, t->isFloatingPointTy()});
}
static unsigned nsl(Type* t) { std::vector<Scal> v; flatten(t, 0, v); return v.size(); }
static unsigned width(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }

static bool constVal(const Constant* c, u64& out);
static bool constGep(const GEPOperator* g, u64& out) {
    u64 base; if (!constVal(cast<Constant>(g->getPointerOperand()), base)) return false;
    APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) return false; out = base + off.getZExtValue(); return true;
}
static bool constVal(const Constant* c, u64& out) {
    if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) return false; out = ci->getValue().getZExtValue(); return true; } out = ci->getZExtValue(); return true; }
    if (auto cf = dyn_cast<ConstantFP>(c)) { out = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { out = 0; return true; }
    if (auto al = dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee(), out);
    if (auto gv = dyn_cast<GlobalValue>(c)) { auto it = gAddr.find(gv); if (it == gAddr.end()) return false; out = it->second; return true; }
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        u64 a, b;
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: return constGep(cast<GEPOperator>(ce), out);
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (!constVal(ce->getOperand(0), a)) return false; out = a & mask64(width(ce->getType())); return true;
            case Instruction::Trunc: if (!constVal(ce->getOperand(0), a)) return false; out = a & mask64(width(ce->getType())); return true;
            case Instruction::Add: if (!constVal(ce->getOperand(0), a) || !constVal(ce->getOperand(1), b)) return false; out = (a + b) & mask64(width(ce->getType())); return true;
            case Instruction::Sub: if (!constVal(ce->getOperand(0), a) || !constVal(ce->getOperand(1), b)) return false; out = (a - b) & mask64(width(ce->getType())); return true;
            default: return false;
        }
    }
    return false;
}
static void flatConst(const Constant* c, Type* t, std::vector<u64>& out, bool& ok) {
    if (t->isStructTy() || t->isArrayTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); Constant* e = c->getAggregateElement(i); if (!e) { ok = false; return; } flatConst(e, et, out, ok); }
        return;
    }
    u64 v = 0; if (!constVal(c, v)) ok = false; out.push_back(v);
}
static void initBytes(const Constant* c, Type* t, u64 off, std::vector<GInit>& out) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) { unsigned es = cd->getElementByteSize(); StringRef r = cd->getRawDataValues(); for (unsigned i = 0; i < cd->getNumElements(); ++i) { u64 v = 0; memcpy(&v, r.data() + i * es, es); if (v) out.push_back(GInit{off + i * es, es, v}); } return; }
    if (t->isStructTy()) { auto sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) initBytes(c->getAggregateElement(i), t->getStructElementType(i), off + sl->getElementOffset(i), out); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); ++i) initBytes(c->getAggregateElement(i), t->getArrayElementType(), off + i * es, out); return; }
    u64 v = 0; if (constVal(c, v)) { unsigned n = DL->getTypeStoreSize(t); if (v) out.push_back(GInit{off, n > 8 ? 8 : n, v}); }
}

bool loadModule(const std::string& file, std::string& err) {
    SMDiagnostic d; gM = parseIRFile(file, d, gCtx); if (!gM) { err = d.getMessage().str(); return false; }
    DL = &gM->getDataLayout(); u64 id = 1; auto addr = [&](u64 i) { return (gCfg.desc ? 0x40000000ull - i : i) << 32; };
    for (Function& f : *gM) {
        if (f.getName().starts_with("llvm.")) continue;
        DFunc* df = new DFunc; df->name = f.getName().str(); df->pretty = llvm::demangle(df->name); if (df->pretty.size() > 300) df->pretty.resize(300); df->llvmF = f.isDeclaration() ? nullptr : (void*)&f;
        if (auto sp = f.getSubprogram()) { df->file = (sp->getFilename()).str(); std::string full = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (df->file[0] == '/') full = df->file; df->repo = full.find("/repo/") != std::string::npos; }
        gFuncs.push_back(df); gByName[df->name] = df; gF[&f] = df;
        gObjs.push_back(GObj{addr(id), 16, true, true, df->name.c_str(), {}}); gAddr[&f] = addr(id); gFByAddr[addr(id)] = df; ++id;
    }
    for (GlobalVariable& g : gM->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = g.hasInitializer() || g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 4096; if (!g.hasInitializer() && sz < 4096) sz = 4096; std::string* nm = new std::string(g.getName().str());
        gObjs.push_back(GObj{addr(id), sz, false, g.isConstant(), nm->c_str(), {}}); gAddr[&g] = addr(id); ++id; }
    size_t k = gObjs.size(); k = 0; for (auto& o : gObjs) if (o.func) ++k;
    for (GlobalVariable& g : gM->globals()) { if (g.getName().starts_with("llvm.")) continue; if (g.hasInitializer()) initBytes(g.getInitializer(), g.getValueType(), 0, gObjs[k].init); ++k; }
    return true;
}
std::vector<DFunc*> globalCtors() {
    std::vector<DFunc*> r; auto g = gM->getGlobalVariable("llvm.global_ctors"); if (!g) return r;
    auto ca = dyn_cast<ConstantArray>(g->getInitializer()); if (!ca) return r; std::vector<std::pair<u64, Function*>> v;
    for (auto& o : ca->operands()) { auto cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1))}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) r.push_back(gF[p.second]); return r;
}

struct Decoder {
    DFunc* F; Function& f; DenseMap<const Value*, int> slot; DenseMap<const BasicBlock*, uint32_t> start; DenseMap<const Constant*, int> cidx;
    Decoder(DFunc* d) : F(d), f(*(Function*)d->llvmF) {}
    int opnd(const Value* v) {
        if (auto c = dyn_cast<Constant>(v)) {
            auto it = cidx.find(c); if (it != cidx.end()) return it->second;
            std::vector<u64> vals; bool ok = true; flatConst(c, c->getType(), vals, ok);
            if (!ok) { bad = true; }
            int i = ~(int)F->consts.size(); if (vals.empty()) vals.push_back(0);
            bool wide = c->getType()->isIntegerTy() && c->getType()->getIntegerBitWidth() > 64;
            for (u64 x : vals) { Val q; q.c = x; q.e = nullptr; if (wide) { auto ap = cast<ConstantInt>(c)->getValue(); u128 t = ap.getRawData()[0]; if (ap.getNumWords() > 1) t |= (u128)ap.getRawData()[1] << 64; if (ap.getBitWidth() > 128) bad = true; else q.e = mkConst(t, ap.getBitWidth()); } F->consts.push_back(q); }
            cidx[c] = i; return i;
        }
        auto it = slot.find(v); if (it == slot.end()) { bad = true; return 0; } return it->second;
    }
    bool bad = false;
    void edge(const BasicBlock* from, const BasicBlock* to, Edge& e) {
        e.target = start[to];
        for (const PHINode& p : to->phis()) { int src = opnd(p.getIncomingValueForBlock(from)); int dst = slot[&p]; unsigned n = nsl(p.getType()); for (unsigned i = 0; i < n; ++i) e.copies.push_back({dst + (int)i, src >= 0 ? src + (int)i : src - (int)i}); }
    }
    void run() {
        unsigned s = 0; for (auto& a : f.args()) { slot[&a] = s; s += std::max(1u, nsl(a.getType())); } F->nargs = s;
        uint32_t ip = 0;
        for (auto& b : f) { start[&b] = ip; for (auto& i : b) { if (!i.getType()->isVoidTy()) { slot[&i] = s; s += std::max(1u, nsl(i.getType())); } if (!isa<PHINode>(i)) ++ip; } }
        F->nslots = s; F->code.resize(ip); ip = 0;
        for (auto& b : f) for (auto& i : b) if (!isa<PHINode>(i)) { bad = false; DInst& d = F->code[ip]; decode(i, d, &b); if (auto& dl = i.getDebugLoc()) d.line = dl.getLine(); if (bad) unsup(d, i); ++ip; }
        F->decoded = true;
    }
    void unsup(DInst& d, Instruction& i) { d.op = OUnsupported; d.x = new DExt; std::string t; raw_string_ostream os(t); i.print(os); d.x->name = os.str().substr(0, 200); }
    bool okType(Type* t) { if (t->isVoidTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy()) return true; if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 128; if (auto s = dyn_cast<StructType>(t)) { for (auto e : s->elements()) if (!okType(e)) return false; return true; } if (auto a = dyn_cast<ArrayType>(t)) return okType(a->getElementType()); return false; }
    void decode(Instruction& i, DInst& d, const BasicBlock* bb) {
        Type* t = i.getType();
        for (auto& o : i.operands()) { auto ot = o->getType(); if (!ot->isLabelTy() && !ot->isMetadataTy() && !ot->isTokenTy() && !okType(ot)) { unsup(d, i); return; } }
        if (!okType(t)) { unsup(d, i); return; }
        if (!t->isVoidTy()) d.dst = slot[&i];
        d.w = width(t);
        switch (i.getOpcode()) {
            case Instruction::Add: bin(i, d, KAdd); break; case Instruction::Sub: bin(i, d, KSub); break; case Instruction::Mul: bin(i, d, KMul); break; case Instruction::UDiv: bin(i, d, KUDiv); break; case Instruction::SDiv: bin(i, d, KSDiv); break;
            case Instruction::URem: bin(i, d, KURem); break; case Instruction::SRem: bin(i, d, KSRem); break; case Instruction::Shl: bin(i, d, KShl); break; case Instruction::LShr: bin(i, d, KLShr); break; case Instruction::AShr: bin(i, d, KAShr); break;
            case Instruction::And: bin(i, d, KAnd); break; case Instruction::Or: bin(i, d, KOr); break; case Instruction::Xor: bin(i, d, KXor); break;
            case Instruction::FAdd: bin(i, d, 0); d.op = OFBin; break; case Instruction::FSub: bin(i, d, 1); d.op = OFBin; break; case Instruction::FMul: bin(i, d, 2); d.op = OFBin; break; case Instruction::FDiv: bin(i, d, 3); d.op = OFBin; break; case Instruction::FRem: bin(i, d, 4); d.op = OFBin; break;
            case Instruction::FNeg: d.op = OFNeg; d.a = opnd(i.getOperand(0)); break;
            case Instruction::ICmp: { d.op = OICmp; d.a = opnd(i.getOperand(0)); d.b = opnd(i.getOperand(1)); d.w = width(i.getOperand(0)->getType()); unsigned p = 0;
                switch (cast<ICmpInst>(i).getPredicate()) { case CmpInst::ICMP_EQ: p = 0; break; case CmpInst::ICMP_NE: p = 1; break; case CmpInst::ICMP_UGT: p = 2; break; case CmpInst::ICMP_UGE: p = 3; break; case CmpInst::ICMP_ULT: p = 4; break; case CmpInst::ICMP_ULE: p = 5; break; case CmpInst::ICMP_SGT: p = 6; break; case CmpInst::ICMP_SGE: p = 7; break; case CmpInst::ICMP_SLT: p = 8; break; default: p = 9; } d.sub = p; break; }
            case Instruction::FCmp: { d.op = OFCmp; d.imm = 0; Value* o[2] = {i.getOperand(0), i.getOperand(1)};
                // an unsigned integer converted to double and compared: compare the integer (see OFCmp)
                for (int k = 0; k < 2; ++k) if (auto* c = dyn_cast<UIToFPInst>(o[k])) if (c->getType()->isDoubleTy() && !c->getOperand(0)->getType()->isVectorTy() && width(c->getOperand(0)->getType()) <= 64) { o[k] = c->getOperand(0); d.imm |= 1u << k; d.imm |= (u64)width(o[k]->getType()) << (8 + 8 * k); }
                d.a = opnd(o[0]); d.b = opnd(o[1]); d.w = width(i.getOperand(0)->getType()); d.sub = (unsigned)cast<FCmpInst>(i).getPredicate(); break; }
            case Instruction::ZExt: cast_(i, d, CZExt); break; case Instruction::SExt: cast_(i, d, CSExt); break; case Instruction::Trunc: cast_(i, d, CTrunc); break;
            case Instruction::BitCast: cast_(i, d, CCopy); break; case Instruction::PtrToInt: cast_(i, d, width(t) < 64 ? CTrunc : width(t) > 64 ? CZExt : CCopy); break; case Instruction::IntToPtr: cast_(i, d, width(i.getOperand(0)->getType()) < 64 ? CZExt : CCopy); break;
            case Instruction::UIToFP: { bool only = i.getType()->isDoubleTy() && !i.use_empty(); for (auto* u : i.users()) only &= isa<FCmpInst>(u); cast_(i, d, CUIToFP); if (only && d.w2 <= 64) d.op = ONop; break; } case Instruction::SIToFP: cast_(i, d, CSIToFP); break; case Instruction::FPToUI: cast_(i, d, CFPToUI); break; case Instruction::FPToSI: cast_(i, d, CFPToSI); break; case Instruction::FPTrunc: cast_(i, d, CFPTrunc); break; case Instruction::FPExt: cast_(i, d, CFPExt); break;
            case Instruction::Freeze: d.op = OCopy; d.a = opnd(i.getOperand(0)); d.n = nsl(t); break;
            case Instruction::Load: d.op = OLoad; d.a = opnd(i.getOperand(0)); mem(d, t); break;
            case Instruction::Store: { d.op = OStore; auto& st = cast<StoreInst>(i); d.a = opnd(st.getPointerOperand()); Type* vt = st.getValueOperand()->getType(); d.b = opnd(st.getValueOperand()); mem(d, vt); d.w = width(vt); if (d.x) for (size_t k = 0; k < d.x->scal.size(); ++k) d.x->args.push_back(d.b >= 0 ? d.b + (int)k : d.b - (int)k); break; }
            case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(i); d.op = OGep; d.a = opnd(g.getPointerOperand()); u64 off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* idx = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sz; else { if (!d.x) d.x = new DExt; d.x->scaled.push_back({opnd(idx), (i64)sz}); d.x->idxw.push_back(width(idx->getType())); } } }
                d.imm = off; break; }
            case Instruction::Alloca: { auto& a = cast<AllocaInst>(i); d.op = OAlloca; d.imm = DL->getTypeAllocSize(a.getAllocatedType()); d.x = new DExt; d.x->name = "local variable " + a.getName().str(); if (auto ci = dyn_cast<ConstantInt>(a.getArraySize())) d.imm *= ci->getZExtValue(); else { d.c = 1; d.a = opnd(a.getArraySize()); } break; }
            case Instruction::Br: { auto& b = cast<BranchInst>(i); d.x = new DExt; if (b.isUnconditional()) { d.op = OBr; d.x->edges.resize(1); edge(bb, b.getSuccessor(0), d.x->edges[0]); } else { d.op = OCondBr; d.a = opnd(b.getCondition()); d.x->edges.resize(2); edge(bb, b.getSuccessor(0), d.x->edges[0]); edge(bb, b.getSuccessor(1), d.x->edges[1]); } break; }
            case Instruction::Switch: { auto& s = cast<SwitchInst>(i); d.op = OSwitch; d.x = new DExt; d.a = opnd(s.getCondition()); d.w = width(s.getCondition()->getType()); for (auto& c : s.cases()) { d.x->cases.push_back(c.getCaseValue()->getZExtValue()); d.x->edges.emplace_back(); edge(bb, c.getCaseSuccessor(), d.x->edges.back()); } d.x->edges.emplace_back(); edge(bb, s.getDefaultDest(), d.x->edges.back()); break; }
            case Instruction::Ret: { d.op = ORet; if (i.getNumOperands()) { int a = opnd(i.getOperand(0)); unsigned n = nsl(i.getOperand(0)->getType()); if (n == 1) { d.a = a; d.n = 1; } else { d.x = new DExt; for (unsigned k = 0; k < n; ++k) d.x->args.push_back(a >= 0 ? a + (int)k : a - (int)k); } } break; }
            case Instruction::Select: { d.op = OSelect; d.a = opnd(i.getOperand(0)); std::vector<Scal> sc; flatten(t, 0, sc); d.n = sc.size(); d.b = opnd(i.getOperand(1)); d.c = opnd(i.getOperand(2)); if (d.n != 1) { d.x = new DExt; for (int k = 0; k < d.n; ++k) { d.x->args.push_back(d.b >= 0 ? d.b + k : d.b - k); d.x->argw.push_back(sc[k].w); } for (int k = 0; k < d.n; ++k) d.x->args.push_back(d.c >= 0 ? d.c + k : d.c - k); } break; }
            case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(i); d.op = OExtractValue; d.a = opnd(e.getAggregateOperand()); d.imm = slotOf(e.getAggregateOperand()->getType(), e.getIndices()); d.n = nsl(t); break; }
            case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(i); d.op = OInsertValue; d.a = opnd(e.getAggregateOperand()); d.b = opnd(e.getInsertedValueOperand()); d.imm = slotOf(t, e.getIndices()); d.n = nsl(t); d.c = nsl(e.getInsertedValueOperand()->getType()); break; }
            case Instruction::LandingPad: d.op = OLandingPad; break;
            case Instruction::Resume: d.op = OResume; d.a = opnd(i.getOperand(0)); break;
            case Instruction::Unreachable: d.op = OUnreachable; break;
            case Instruction::Fence: d.op = ONop; break;
            case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(i); unsigned w = width(a.getValOperand()->getType()); if (w != 8 && w != 16 && w != 32 && w != 64) { unsup(d, i); break; } d.op = OBuiltin; d.x = new DExt; d.x->fn = doAtomicRMW; d.x->name = "atomicrmw"; d.imm = (unsigned)a.getOperation(); for (Value* o : {a.getPointerOperand(), a.getValOperand()}) { d.x->args.push_back(opnd(o)); d.x->argw.push_back(width(o->getType())); } break; }
            case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(i); d.op = OBuiltin; d.x = new DExt; d.x->fn = doCmpXchg; d.x->name = "cmpxchg"; for (Value* o : {a.getPointerOperand(), a.getCompareOperand(), a.getNewValOperand()}) { d.x->args.push_back(opnd(o)); d.x->argw.push_back(width(o->getType())); } break; }
            case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(i), d, bb); break;
            default: unsup(d, i);
        }
    }
    unsigned slotOf(Type* t, ArrayRef<unsigned> idx) { unsigned s = 0; for (unsigned k : idx) { if (auto st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; ++j) s += nsl(st->getElementType(j)); t = st->getElementType(k); } else { auto at = cast<ArrayType>(t); s += k * nsl(at->getElementType()); t = at->getElementType(); } } return s; }
    void bin(Instruction& i, DInst& d, unsigned k) { d.op = OBin; d.sub = k; d.a = opnd(i.getOperand(0)); d.b = opnd(i.getOperand(1)); }
    void cast_(Instruction& i, DInst& d, CastOp c) { d.op = OCast; d.sub = c; d.a = opnd(i.getOperand(0)); d.w2 = width(i.getOperand(0)->getType()); }
    void mem(DInst& d, Type* t) { unsigned w = width(t); if (w && w <= 64) { d.n = DL->getTypeStoreSize(t); if (d.n == 3 || d.n > 4) d.n = d.n > 8 ? 8 : d.n; } else { d.x = new DExt; flatten(t, 0, d.x->scal); for (auto& q : d.x->scal) if (!q.w || q.w > 64) { // split wide integers is not supported
                bad = true; } } }
    void call(CallBase& c, DInst& d, const BasicBlock* bb) {
        d.x = new DExt; Function* fn = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
        if (!fn) if (auto al = dyn_cast<GlobalAlias>(c.getCalledOperand())) fn = dyn_cast<Function>(al->getAliaseeObject());
        if (fn && fn->getName().starts_with("llvm.")) { u64 imm = 0; Builtin b = findBuiltin(fn->getName().str(), imm); if (!b) { bad = true; return; } d.op = OBuiltin; d.x->fn = b; d.imm = imm; d.x->name = fn->getName().str(); if (d.dst < 0) d.dst = -1;
            for (auto& a : c.args()) { if (a->getType()->isMetadataTy()) continue; d.x->args.push_back(opnd(a)); d.x->argw.push_back(width(a->getType())); } if (fn->getName().starts_with("llvm.stacksave")) { d.x->fn = findBuiltin("__cxa_end_catch", imm); } if (fn->getName().starts_with("llvm.lifetime") || fn->getName().starts_with("llvm.dbg")) d.op = ONop; return; }
        for (auto& a : c.args()) { int o = opnd(a); unsigned n = std::max(1u, nsl(a->getType())); for (unsigned k = 0; k < n; ++k) { d.x->args.push_back(o >= 0 ? o + (int)k : o - (int)k); d.x->argw.push_back(width(a->getType())); } }
        if (auto iv = dyn_cast<InvokeInst>(&c)) { d.x->invoke = true; d.x->edges.resize(2); edge(bb, iv->getNormalDest(), d.x->edges[0]); edge(bb, iv->getUnwindDest(), d.x->edges[1]); }
        if (!fn) { if (c.isInlineAsm()) { bad = true; return; } d.op = OCallInd; d.a = opnd(c.getCalledOperand()); return; }
        DFunc* df = gF[fn]; u64 imm = 0; Builtin b = findBuiltin(df->name, imm);
        if (b) { d.op = OBuiltin; d.x->fn = b; d.imm = imm; d.x->name = df->name; return; }
        if (!df->llvmF) { bad = true; return; }
        d.op = OCall; d.x->callee = df;
    }
};
void decodeFunction(DFunc* f) { Decoder(f).run(); }
