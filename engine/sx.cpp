// sx: symbolic executor for LLVM-18 bitcode (whole-program, forking, in-process), deciding path conditions with Z3.
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

struct V { u64 c; Expr *e; };
static inline V cV(u64 c) { return V{c, nullptr}; }
static inline V eV(Expr *e) { if (e->k == K_Const && e->w <= 64) return V{(u64)e->val, nullptr}; return V{0, e}; }
static inline Expr *toE(V v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static Module *M; static const DataLayout *DL;

// ------------------------------------------------------------------------------------------------ options / statistics
struct Opts {
    std::string bc, out, entry = "sx_main", prefix; int jobs = 1; double time = 1e9; u64 maxSteps = 300000000ull; u32 maxDepth = 6000; u64 memMB = 1900; u64 maxPaths = ~0ull; int validate = 8; u64 seed = 1;
    std::map<std::string, u64> pins; bool trace = false; bool profile = false; int maxViol = 12; unsigned iteMax = 300; bool stopFirst = false; u64 confirm = 2000; int forkSel = 0;
} opt;
struct Stats {
    u64 paths = 0, killedAssume = 0, forks = 0, instrs = 0, asserts = 0, assertsSym = 0, incomplete = 0, states = 0, maxDepth = 0, maxCons = 0, domHits = 0, domConfirmed = 0;
    std::map<std::string, u64> cover; std::map<std::string, u64> assertMsgs; std::set<std::string> incompleteWhy;
} st;
static int g_outfd = -1;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
struct Shared { volatile int active; volatile int stop; volatile u64 paths; volatile int viol; };
static Shared *g_sh;

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const std::string &line) { std::string l = line + "\n"; if (write(g_outfd, l.data(), l.size()) < 0) {} }

// ------------------------------------------------------------------------------------------------ decoded program
enum Op : uint16_t {
    I_Ret, I_Br, I_CBr, I_Switch, I_IndBr, I_Unreach, I_Resume, I_Bin, I_FBin, I_FNeg, I_Alloca, I_Load, I_Store, I_Gep, I_GepC,
    I_RMW, I_CmpXchg, I_Trunc, I_ZExt, I_SExt, I_Copy, I_FPCast, I_BitCast, I_ICmp, I_FCmp, I_Select, I_Call, I_CallInd, I_Intrin, I_Ext,
    I_ExtElt, I_InsElt, I_Shuffle, I_InsVal, I_LandingPad, I_Nop, I_Bad
};
struct Leaf { unsigned w; u64 off; };
struct Edge { u32 target; u32 cb, cn; };
struct Func;
struct Exec;
struct State;
struct Ins;
typedef void (*ExtFn)(Exec &, State &, const Ins &, std::vector<V> &args, V *dst);
struct Ins { Op op; uint16_t w, n, sub; int dst, a, b, c; u32 x, y; const Instruction *I; union { Func *f; ExtFn ext; std::vector<Leaf> *lv; u64 k; }; };
struct Func {
    const Function *F; std::string name; bool decoded = false; bool touched = false;
    unsigned nregs = 0; std::vector<V> K; std::vector<Ins> code; std::vector<Edge> edges; std::vector<std::pair<int,int>> copies; std::vector<int> extra; std::vector<u64> extra64;
    std::unordered_map<const BasicBlock*, u32> bbpc; std::vector<const Argument*> args; std::vector<int> argReg; std::vector<u64> byval; u64 profile = 0;
};
static std::unordered_map<const Function*, Func*> g_funcs;
static std::vector<Func*> g_funcByIdx;
static std::unordered_map<u64, std::pair<Func*, const BasicBlock*>> g_blockAddr;
static std::unordered_map<const BasicBlock*, u64> g_blockAddrOf;
constexpr u64 FN_BASE = 0x7f0000000000ull, BB_BASE = 0x7e0000000000ull;
static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static std::map<u64, const GlobalVariable*> g_gByAddr;

static std::string demang(StringRef s) { return llvm::demangle(s.str()); }

// ------------------------------------------------------------------------------------------------ states
struct Frame { Func *f; u32 pc; u32 stackMark; std::vector<V> R; };
typedef std::shared_ptr<Frame> FrameP;
enum TStat : u8 { T_Run, T_BlockMutex, T_WaitCV, T_Join, T_Done };
struct Thread { std::vector<FrameP> fr; TStat stat = T_Run; u64 waitOn = 0; int phase = 0; u32 stackTop = 0, stackBase = 0, stackEnd = 0; V lpExn{0,0}, lpSel{0,0}; std::vector<u64> caught; u32 uncaught = 0; };
struct SymLog { Expr *sym; u32 name; u64 val; };  // sym==null: concrete val (schedule choices, pinned)
struct Obs { u32 tag; V v; };
static std::vector<std::string> g_names; static std::unordered_map<std::string, u32> g_nameIdx;
static u32 nameId(const std::string &s) { auto it = g_nameIdx.find(s); if (it != g_nameIdx.end()) return it->second; u32 i = g_names.size(); g_names.push_back(s); g_nameIdx[s] = i; return i; }

// The values a symbol of at most 8 bits may still take. Constraints over one such symbol are kept here, as a set.
struct Dom { u64 m[4] = {0, 0, 0, 0}; bool joined = false, any = false; };
struct State {
    std::vector<Dom> dom;
    std::vector<Thread> th; int cur = 0; Mem mem;
    std::vector<Expr*> cons; std::vector<std::pair<Expr*, u64>> eqs; u64 eqBloom = 0;
    Model model; std::vector<SymLog> log; std::vector<Obs> obs; std::vector<std::pair<u32,u32>> symCount;
    u64 steps = 0; u32 depth = 0; bool schedOk = false; int boot = 0; u64 heapLive = 0; int preempt = 0;
    State() {}
    State(const State &o) = default;
    Thread &T() { return th[cur]; }
};
struct Kill { };

static std::vector<State*> g_work;

static u64 rngState = 88172645463325252ull;
static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

// ------------------------------------------------------------------------------------------------ types / constants
static std::unordered_map<Type*, std::vector<Leaf>*> g_leaves;
static void flat(Type *T, u64 off, std::vector<Leaf> &out) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, out); return; }
    if (auto *Ve = dyn_cast<FixedVectorType>(T)) { u64 eb = DL->getTypeSizeInBits(Ve->getElementType()); if (eb % 8) eb = 8; for (u64 i = 0; i < Ve->getNumElements(); i++) flat(Ve->getElementType(), off + i * eb / 8, out); return; }
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy()) return;
    out.push_back({(unsigned)DL->getTypeSizeInBits(T).getFixedValue(), off});
}
static std::vector<Leaf> *leaves(Type *T) { auto &p = g_leaves[T]; if (!p) { p = new std::vector<Leaf>; flat(T, 0, *p); } return p; }
static unsigned nslots(Type *T) { return leaves(T)->size(); }

static u64 addrOf(const GlobalValue *G);
static u64 blockAddr(const BasicBlock *B) {
    auto it = g_blockAddrOf.find(B); if (it != g_blockAddrOf.end()) return it->second;
    u64 a = BB_BASE + 16 * (g_blockAddrOf.size() + 1); g_blockAddrOf[B] = a; g_blockAddr[a] = { g_funcs[B->getParent()], B }; return a;
}
static V apV(const APInt &x) { if (x.getBitWidth() <= 64) return cV(x.getZExtValue()); u128 v = x.extractBitsAsZExtValue(64, 0); v |= (u128)x.extractBitsAsZExtValue(x.getBitWidth() - 64, 64) << 64; return V{0, mkConst(v, x.getBitWidth())}; }
static V binop(unsigned opc, unsigned w, V a, V b);
static void constSlots(const Constant *C, std::vector<V> &out) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) { out.push_back(apV(CI->getValue())); return; }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back(apV(CF->getValueAPF().bitcastToAPInt())); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(cV(0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto &l : *leaves(T)) out.push_back(l.w <= 64 ? cV(0) : V{0, mkConst(0, l.w)}); return; }
    if (auto *BA = dyn_cast<BlockAddress>(C)) { out.push_back(cV(blockAddr(BA->getBasicBlock()))); return; }
    if (auto *GV = dyn_cast<GlobalValue>(C)) { out.push_back(cV(addrOf(GV))); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constSlots(CD->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(C)) { for (auto &O : C->operands()) constSlots(cast<Constant>(O), out); return; }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        std::vector<V> o; 
        switch (E->getOpcode()) {
            case Instruction::GetElementPtr: {
                constSlots(E->getOperand(0), o); APInt off(64, 0);
                if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "non-const gep\n"); abort(); }
                out.push_back(cV(o[0].c + off.getZExtValue())); return; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
                constSlots(E->getOperand(0), o); unsigned w = DL->getTypeSizeInBits(T); out.push_back(cV(o[0].c & mask64(w))); return; }
            case Instruction::ICmp: {
                constSlots(E->getOperand(0), o); constSlots(E->getOperand(1), o);
                bool r; switch (E->getPredicate()) { case CmpInst::ICMP_EQ: r = o[0].c == o[1].c; break; case CmpInst::ICMP_NE: r = o[0].c != o[1].c; break; case CmpInst::ICMP_ULT: r = o[0].c < o[1].c; break; default: fprintf(stderr, "const icmp\n"); abort(); }
                out.push_back(cV(r)); return; }
            default:
                if (Instruction::isBinaryOp(E->getOpcode())) { constSlots(E->getOperand(0), o); constSlots(E->getOperand(1), o); out.push_back(binop(E->getOpcode(), DL->getTypeSizeInBits(T), o[0], o[1])); return; }
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "constant not supported: %s\n", os.str().c_str()); abort();
}

// ------------------------------------------------------------------------------------------------ decoding
static const std::unordered_map<std::string, ExtFn> &externals();
static Func *funcOf(const Function *F) { return g_funcs.at(F); }

struct Decoder {
    Func &f; const Function &F; std::unordered_map<const Value*, int> reg; unsigned nr = 0; std::unordered_map<const Constant*, int> cmap;
    Decoder(Func &f) : f(f), F(*f.F) {}
    int constOp(const Constant *C) {
        auto it = cmap.find(C); if (it != cmap.end()) return it->second;
        int i = f.K.size(); constSlots(C, f.K); if ((int)f.K.size() == i) f.K.push_back(cV(0));
        return cmap[C] = ~i;
    }
    int op(const Value *v) {
        if (auto *C = dyn_cast<Constant>(v)) return constOp(C);
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return 0;
        auto it = reg.find(v); if (it == reg.end()) { fprintf(stderr, "operand not found\n"); v->print(errs()); abort(); }
        return it->second;
    }
    static int slotOf(int o, unsigned i) { return o >= 0 ? o + (int)i : o - (int)i; }
    u32 edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = 0; e.cb = f.copies.size();
        for (auto &P : to->phis()) { int s = op(P.getIncomingValueForBlock(from)); int d = reg[&P]; unsigned n = nslots(P.getType()); for (unsigned i = 0; i < n; i++) f.copies.push_back({d + (int)i, slotOf(s, i)}); }
        e.cn = f.copies.size() - e.cb; f.edges.push_back(e); fix.push_back({(u32)f.edges.size() - 1, to}); return f.edges.size() - 1;
    }
    std::vector<std::pair<u32, const BasicBlock*>> fix;
    void run() {
        for (auto &A : F.args()) { reg[&A] = nr; f.argReg.push_back(nr); f.byval.push_back(A.hasByValAttr() ? (u64)DL->getTypeAllocSize(A.getParamByValType()) : 0); nr += std::max(1u, nslots(A.getType())); }
        for (auto &B : F) for (auto &I : B) { reg[&I] = nr; nr += nslots(I.getType()); }
        f.nregs = nr;
        for (auto &B : F) { f.bbpc[&B] = f.code.size(); for (auto &I : B) ins(I); }
        for (auto &p : fix) f.edges[p.first].target = f.bbpc[p.second];
        f.decoded = true;
    }
    void ins(const Instruction &I) {
        Ins x; memset(&x, 0, sizeof x); x.I = &I; x.dst = reg[&I]; x.n = nslots(I.getType());
        Type *T = I.getType(); auto *lv = leaves(T); if (!lv->empty()) x.w = (*lv)[0].w;
        auto put = [&] { f.code.push_back(x); };
        if (isa<PHINode>(I)) return;
        switch (I.getOpcode()) {
            case Instruction::Ret: x.op = I_Ret; if (I.getNumOperands()) { x.a = op(I.getOperand(0)); x.n = nslots(I.getOperand(0)->getType()); } put(); return;
            case Instruction::Br: { auto &B = cast<BranchInst>(I);
                if (B.isUnconditional()) { x.op = I_Br; x.x = edge(I.getParent(), B.getSuccessor(0)); }
                else { x.op = I_CBr; x.a = op(B.getCondition()); x.x = edge(I.getParent(), B.getSuccessor(0)); x.y = edge(I.getParent(), B.getSuccessor(1)); }
                put(); return; }
            case Instruction::Switch: { auto &S = cast<SwitchInst>(I); x.op = I_Switch; x.a = op(S.getCondition()); x.w = S.getCondition()->getType()->getIntegerBitWidth();
                std::vector<int> ex; std::vector<u64> vals; ex.push_back(edge(I.getParent(), S.getDefaultDest()));
                for (auto &c : S.cases()) { vals.push_back(c.getCaseValue()->getZExtValue()); ex.push_back(edge(I.getParent(), c.getCaseSuccessor())); }
                x.x = f.extra.size(); f.extra.insert(f.extra.end(), ex.begin(), ex.end()); x.y = f.extra64.size(); f.extra64.insert(f.extra64.end(), vals.begin(), vals.end()); x.b = vals.size(); put(); return; }
            case Instruction::IndirectBr: { auto &S = cast<IndirectBrInst>(I); x.op = I_IndBr; x.a = op(S.getAddress()); std::vector<int> ex; std::vector<u64> vals;
                for (unsigned i = 0; i < S.getNumDestinations(); i++) { ex.push_back(edge(I.getParent(), S.getDestination(i))); vals.push_back(blockAddr(S.getDestination(i))); }
                x.x = f.extra.size(); f.extra.insert(f.extra.end(), ex.begin(), ex.end()); x.y = f.extra64.size(); f.extra64.insert(f.extra64.end(), vals.begin(), vals.end()); x.b = vals.size(); put(); return; }
            case Instruction::Unreachable: x.op = I_Unreach; put(); return;
            case Instruction::Resume: x.op = I_Resume; x.a = op(I.getOperand(0)); put(); return;
            case Instruction::FNeg: x.op = I_FNeg; x.a = op(I.getOperand(0)); put(); return;
            case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.op = I_Alloca; x.a = op(A.getArraySize()); x.k = DL->getTypeAllocSize(A.getAllocatedType()); put(); return; }
            case Instruction::Load: x.op = I_Load; x.a = op(I.getOperand(0)); x.lv = lv; put(); return;
            case Instruction::Store: { auto *t = leaves(I.getOperand(0)->getType()); x.op = I_Store; x.a = op(I.getOperand(1)); x.b = op(I.getOperand(0)); x.n = t->size(); x.w = t->empty() ? 0 : (*t)[0].w; x.lv = t; put(); return; }
            case Instruction::GetElementPtr: {
                auto &G = cast<GEPOperator>(I);
                if (T->isVectorTy()) { x.op = I_Bad; put(); return; }
                x.a = op(G.getPointerOperand()); u64 k = 0; std::vector<int> ex; std::vector<u64> sc;
                for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
                    const Value *ix = gti.getOperand();
                    if (auto *ST = gti.getStructTypeOrNull()) { k += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    u64 s = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto *CI = dyn_cast<ConstantInt>(ix)) { k += s * (u64)CI->getSExtValue(); continue; }
                    ex.push_back(op(ix)); ex.push_back(ix->getType()->getIntegerBitWidth()); sc.push_back(s);
                }
                x.k = k;
                if (sc.empty()) x.op = I_GepC; else { x.op = I_Gep; x.b = sc.size(); x.x = f.extra.size(); f.extra.insert(f.extra.end(), ex.begin(), ex.end()); x.y = f.extra64.size(); f.extra64.insert(f.extra64.end(), sc.begin(), sc.end()); }
                put(); return; }
            case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); x.op = I_RMW; x.a = op(A.getPointerOperand()); x.b = op(A.getValOperand()); x.sub = A.getOperation(); put(); return; }
            case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); x.op = I_CmpXchg; x.a = op(A.getPointerOperand()); x.b = op(A.getCompareOperand()); x.c = op(A.getNewValOperand()); put(); return; }
            case Instruction::Fence: x.op = I_Nop; put(); return;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: x.op = I.getOpcode() == Instruction::Trunc ? I_Trunc : I.getOpcode() == Instruction::ZExt ? I_ZExt : I_SExt; x.a = op(I.getOperand(0)); x.sub = (*leaves(I.getOperand(0)->getType()))[0].w; put(); return;
            case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw = (*leaves(I.getOperand(0)->getType()))[0].w; x.op = sw == x.w ? I_Copy : sw > x.w ? I_Trunc : I_ZExt; x.sub = sw; x.a = op(I.getOperand(0)); put(); return; }
            case Instruction::AddrSpaceCast: case Instruction::Freeze: x.op = I_Copy; x.a = op(I.getOperand(0)); put(); return;
            case Instruction::BitCast: { auto *sl = leaves(I.getOperand(0)->getType()); x.a = op(I.getOperand(0)); x.op = (sl->size() == lv->size()) ? I_Copy : I_BitCast; x.sub = (*sl)[0].w; x.b = sl->size(); put(); return; }
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                x.op = I_FPCast; x.b = I.getOpcode(); x.a = op(I.getOperand(0)); x.sub = (*leaves(I.getOperand(0)->getType()))[0].w; put(); return;
            case Instruction::ICmp: x.op = I_ICmp; x.sub = cast<CmpInst>(I).getPredicate(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.w = (*leaves(I.getOperand(0)->getType()))[0].w; put(); return;
            case Instruction::FCmp: x.op = I_FCmp; x.sub = cast<CmpInst>(I).getPredicate(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.w = (*leaves(I.getOperand(0)->getType()))[0].w; put(); return;
            case Instruction::Select: x.op = I_Select; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); x.sub = nslots(I.getOperand(0)->getType()); x.lv = lv; put(); return;
            case Instruction::ExtractElement: { auto *vt = cast<FixedVectorType>(I.getOperand(0)->getType()); x.op = I_ExtElt; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = vt->getNumElements(); put(); return; }
            case Instruction::InsertElement: x.op = I_InsElt; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); put(); return;
            case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); x.op = I_Shuffle; unsigned n0 = cast<FixedVectorType>(S.getOperand(0)->getType())->getNumElements(); int a = op(S.getOperand(0)), b = op(S.getOperand(1)); x.x = f.extra.size(); for (int m : S.getShuffleMask()) f.extra.push_back(m < 0 ? slotOf(a, 0) : (unsigned)m < n0 ? slotOf(a, m) : slotOf(b, m - n0)); put(); return; }
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                bool ex = I.getOpcode() == Instruction::ExtractValue; Type *agg = I.getOperand(0)->getType(); unsigned s = 0; ArrayRef<unsigned> idx = ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                for (unsigned i : idx) { if (auto *S = dyn_cast<StructType>(agg)) { for (unsigned j = 0; j < i; j++) s += nslots(S->getElementType(j)); agg = S->getElementType(i); } else { auto *A = cast<ArrayType>(agg); s += i * nslots(A->getElementType()); agg = A->getElementType(); } }
                if (ex) { x.op = I_Copy; x.a = slotOf(op(I.getOperand(0)), s); } else { x.op = I_InsVal; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = s; x.sub = nslots(agg); }
                put(); return; }
            case Instruction::LandingPad: x.op = I_LandingPad; put(); return;
            case Instruction::Call: case Instruction::Invoke: call(x, cast<CallBase>(I)); put(); return;
            default: break;
        }
        if (I.isBinaryOp()) { bool fp = T->isFPOrFPVectorTy(); x.op = fp ? I_FBin : I_Bin; x.sub = I.getOpcode(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); put(); return; }
        x.op = I_Bad; put();
    }
    void call(Ins &x, const CallBase &C) {
        x.c = C.arg_size(); x.x = f.extra.size();
        if (auto *iv = dyn_cast<InvokeInst>(&C)) { u32 e0, e1; std::vector<int> args; for (auto &A : C.args()) args.push_back(op(A)); x.x = f.extra.size(); f.extra.insert(f.extra.end(), args.begin(), args.end()); e0 = edge(C.getParent(), iv->getNormalDest()); e1 = edge(C.getParent(), iv->getUnwindDest()); x.b = 1 + e0; x.y = e1; }
        else for (auto &A : C.args()) f.extra.push_back(op(A));
        const Value *cal = C.getCalledOperand()->stripPointerCasts();
        if (auto *A = dyn_cast<GlobalAlias>(cal)) cal = A->getAliaseeObject();
        if (auto *Fn = dyn_cast<Function>(cal)) {
            if (Fn->isIntrinsic()) {
                auto id = Fn->getIntrinsicID();
                switch (id) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::vaend:
                    x.op = I_Nop; return; default: break; }
                x.op = I_Intrin; x.sub = id; return;
            }
            auto &ex = externals(); auto it = ex.find(Fn->getName().str());
            if (it != ex.end()) { x.op = I_Ext; x.ext = it->second; return; }
            x.op = I_Call; x.f = funcOf(Fn); return;
        }
        if (isa<InlineAsm>(cal)) { auto *A = cast<InlineAsm>(cal); x.op = A->getAsmString().empty() || A->getAsmString() == "pause" ? I_Nop : I_Bad; return; }
        x.op = I_CallInd; x.a = op(C.getCalledOperand());
    }
};

static u64 addrOf(const GlobalValue *G) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) { std::vector<V> o; constSlots(A->getAliasee(), o); return o[0].c; }
    auto it = g_gaddr.find(G); if (it == g_gaddr.end()) { fprintf(stderr, "no address for %s\n", G->getName().str().c_str()); abort(); } return it->second;
}

// ------------------------------------------------------------------------------------------------ pure operations
static Expr *nz(Expr *e) { return mkNot(mkBin(K_Eq, e, mkConst(0, e->w))); }
static double bd(u64 x) { double d; memcpy(&d, &x, 8); return d; } static u64 db(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static float bf(u64 x) { u32 y = x; float d; memcpy(&d, &y, 4); return d; } static u64 fb(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static long double bl(Expr *e) { long double d = 0; u128 v = e->val; memcpy(&d, &v, 10); return d; } static V lb(long double d) { u128 v = 0; memcpy(&v, &d, 10); return V{0, mkConst(v, 80)}; }

static V binop(unsigned opc, unsigned w, V a, V b) {
    if (!a.e && !b.e && w <= 64) {
        u64 m = mask64(w), x = a.c, y = b.c;
        switch (opc) {
            case Instruction::Add: return cV((x + y) & m); case Instruction::Sub: return cV((x - y) & m); case Instruction::Mul: return cV((x * y) & m);
            case Instruction::UDiv: return cV(y ? x / y : m); case Instruction::URem: return cV(y ? x % y : x);
            case Instruction::SDiv: return cV((u64)foldBin(K_SDiv, x, y, w)); case Instruction::SRem: return cV((u64)foldBin(K_SRem, x, y, w));
            case Instruction::And: return cV(x & y); case Instruction::Or: return cV(x | y); case Instruction::Xor: return cV(x ^ y);
            case Instruction::Shl: return cV(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return cV(y >= w ? 0 : x >> y);
            case Instruction::AShr: return cV((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m);
        }
    }
    Kind k;
    switch (opc) {
        case Instruction::Add: k = K_Add; break; case Instruction::Sub: k = K_Sub; break; case Instruction::Mul: k = K_Mul; break;
        case Instruction::UDiv: k = K_UDiv; break; case Instruction::URem: k = K_URem; break; case Instruction::SDiv: k = K_SDiv; break; case Instruction::SRem: k = K_SRem; break;
        case Instruction::And: k = K_And; break; case Instruction::Or: k = K_Or; break; case Instruction::Xor: k = K_Xor; break;
        case Instruction::Shl: k = K_Shl; break; case Instruction::LShr: k = K_LShr; break; default: k = K_AShr; break;
    }
    return eV(mkBin(k, toE(a, w), toE(b, w)));
}
static V icmp(unsigned p, unsigned w, V a, V b) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
        switch (p) {
            case CmpInst::ICMP_EQ: return cV(x == y); case CmpInst::ICMP_NE: return cV(x != y); case CmpInst::ICMP_UGT: return cV(x > y); case CmpInst::ICMP_UGE: return cV(x >= y);
            case CmpInst::ICMP_ULT: return cV(x < y); case CmpInst::ICMP_ULE: return cV(x <= y); case CmpInst::ICMP_SGT: return cV(sx > sy); case CmpInst::ICMP_SGE: return cV(sx >= sy);
            case CmpInst::ICMP_SLT: return cV(sx < sy); default: return cV(sx <= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return eV(mkBin(K_Eq, x, y)); case CmpInst::ICMP_NE: return eV(mkNot(mkBin(K_Eq, x, y)));
        case CmpInst::ICMP_UGT: return eV(mkBin(K_Ult, y, x)); case CmpInst::ICMP_UGE: return eV(mkBin(K_Ule, y, x));
        case CmpInst::ICMP_ULT: return eV(mkBin(K_Ult, x, y)); case CmpInst::ICMP_ULE: return eV(mkBin(K_Ule, x, y));
        case CmpInst::ICMP_SGT: return eV(mkBin(K_Slt, y, x)); case CmpInst::ICMP_SGE: return eV(mkBin(K_Sle, y, x));
        case CmpInst::ICMP_SLT: return eV(mkBin(K_Slt, x, y)); default: return eV(mkBin(K_Sle, x, y));
    }
}
static V fbin(unsigned opc, unsigned w, V a, V b) {
    if (w == 80) { long double x = bl(a.e), y = bl(b.e); switch (opc) { case Instruction::FAdd: return lb(x + y); case Instruction::FSub: return lb(x - y); case Instruction::FMul: return lb(x * y); case Instruction::FDiv: return lb(x / y); default: return lb(fmodl(x, y)); } }
    Kind k; switch (opc) { case Instruction::FAdd: k = K_FAdd; break; case Instruction::FSub: k = K_FSub; break; case Instruction::FMul: k = K_FMul; break; case Instruction::FDiv: k = K_FDiv; break; default: k = K_FRem; break; }
    if (!a.e && !b.e) {
        if (w == 64) { double x = bd(a.c), y = bd(b.c), r; switch (k) { case K_FAdd: r = x + y; break; case K_FSub: r = x - y; break; case K_FMul: r = x * y; break; case K_FDiv: r = x / y; break; default: r = fmod(x, y); } return cV(db(r)); }
        float x = bf(a.c), y = bf(b.c), r; switch (k) { case K_FAdd: r = x + y; break; case K_FSub: r = x - y; break; case K_FMul: r = x * y; break; case K_FDiv: r = x / y; break; default: r = fmodf(x, y); } return cV(fb(r));
    }
    return eV(mkFBin(k, toE(a, w), toE(b, w)));
}
static V fcmp(unsigned p, unsigned w, V a, V b) {
    if (p == CmpInst::FCMP_FALSE) return cV(0); if (p == CmpInst::FCMP_TRUE) return cV(1);
    if (w == 80 || (!a.e && !b.e)) {
        long double x = w == 80 ? bl(a.e) : w == 64 ? (long double)bd(a.c) : (long double)bf(a.c), y = w == 80 ? bl(b.e) : w == 64 ? (long double)bd(b.c) : (long double)bf(b.c);
        bool un = x != x || y != y, r = false;
        switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !un; break; case 7: r = !un; break; }
        if (p & 8) { if (p == CmpInst::FCMP_UNO) r = un; else r = r || un; }
        if (p == CmpInst::FCMP_ORD) r = !un;
        return cV(r);
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    auto un = [&] { return mkBin(K_Or, mkFUn(K_FIsNaN, x, 1), mkFUn(K_FIsNaN, y, 1)); };
    switch (p) {
        case CmpInst::FCMP_OEQ: return eV(mkFBin(K_FEq, x, y)); case CmpInst::FCMP_OGT: return eV(mkFBin(K_FLt, y, x)); case CmpInst::FCMP_OGE: return eV(mkFBin(K_FLe, y, x));
        case CmpInst::FCMP_OLT: return eV(mkFBin(K_FLt, x, y)); case CmpInst::FCMP_OLE: return eV(mkFBin(K_FLe, x, y));
        case CmpInst::FCMP_ONE: return eV(mkBin(K_And, mkNot(mkFBin(K_FEq, x, y)), mkNot(un()))); case CmpInst::FCMP_ORD: return eV(mkNot(un())); case CmpInst::FCMP_UNO: return eV(un());
        case CmpInst::FCMP_UEQ: return eV(mkBin(K_Or, mkFBin(K_FEq, x, y), un())); case CmpInst::FCMP_UNE: return eV(mkNot(mkFBin(K_FEq, x, y)));
        case CmpInst::FCMP_UGT: return eV(mkNot(mkFBin(K_FLe, x, y))); case CmpInst::FCMP_UGE: return eV(mkNot(mkFBin(K_FLt, x, y)));
        case CmpInst::FCMP_ULT: return eV(mkNot(mkFBin(K_FLe, y, x))); default: return eV(mkNot(mkFBin(K_FLt, y, x)));
    }
}
static bool sameV(V a, V b) { return a.e == b.e && (a.e || a.c == b.c); }
static V selV(Expr *c, V a, V b, unsigned w) { if (!a.e && !b.e && a.c == b.c && w <= 64) return a; if (a.e == b.e && a.e) return a; return eV(mkIte(c, toE(a, w), toE(b, w))); }

// ------------------------------------------------------------------------------------------------ executor
struct Exec {
    State *S = nullptr; Frame *F = nullptr; V *R = nullptr;

    // -- constraints --
    static void addEq(State &s, Expr *e, u64 v) { s.eqs.push_back({e, v}); s.eqBloom |= 1ull << (e->hash & 63); }
    static bool knownVal(State &s, Expr *e, u64 &v) {
        if (!(s.eqBloom >> (e->hash & 63) & 1)) return false;
        for (auto &p : s.eqs) if (p.first == e) { v = p.second; return true; }
        return false;
    }
    struct Mask { u64 m[4]; };
    static bool unary(Expr *c) { return c->syms->v.size() == 1 && g_syms[c->syms->v[0]].w <= 8; }
    static Mask full(unsigned w) { Mask r{{0, 0, 0, 0}}; unsigned n = 1u << w; for (unsigned i = 0; i < 4; i++) r.m[i] = n >= 64 * (i + 1) ? ~0ull : n > 64 * i ? (1ull << (n - 64 * i)) - 1 : 0; return r; }
    static const Mask &maskOf(Expr *c) {   // the values of its symbol for which a condition over one small symbol holds
        static std::unordered_map<Expr*, Mask> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
        u32 sy = c->syms->v[0]; unsigned w = g_syms[sy].w; Mask r{{0, 0, 0, 0}};
        if (c->w == 1 && (c->k == K_And || c->k == K_Or) && unary(c->a) && unary(c->b)) { Mask x = maskOf(c->a), y = maskOf(c->b); for (int i = 0; i < 4; i++) r.m[i] = c->k == K_And ? x.m[i] & y.m[i] : x.m[i] | y.m[i]; }
        else if (c->k == K_Xor && isTrue(c->b)) { Mask x = maskOf(c->a), f = full(w); for (int i = 0; i < 4; i++) r.m[i] = f.m[i] & ~x.m[i]; }
        else { static Model M; if (M.v.size() < g_syms.size()) M.v.resize(g_syms.size()); for (unsigned v = 0; v < 1u << w; v++) { M.v[sy] = v; bumpEval(); if (evalExpr(c, M)) r.m[v >> 6] |= 1ull << (v & 63); } M.v[sy] = 0; }
        return memo.emplace(c, r).first->second;
    }
    static Dom &domOf(State &s, u32 sy) { if (s.dom.size() <= sy) s.dom.resize(sy + 1); Dom &d = s.dom[sy]; if (!d.any) { d.any = true; Mask f = full(g_syms[sy].w); memcpy(d.m, f.m, sizeof d.m); } return d; }
    static Expr *domExpr(u32 sy, const Dom &d) {   // the set as a formula: a disjunction of intervals
        static std::map<std::pair<u32, std::array<u64, 4>>, Expr*> memo; std::array<u64, 4> key; memcpy(key.data(), d.m, 32); auto &r = memo[{sy, key}]; if (r) return r;
        Expr *x = g_syms[sy].e; unsigned w = g_syms[sy].w, n = 1u << w; auto in = [&](unsigned v) { return d.m[v >> 6] >> (v & 63) & 1; };
        r = mkConst(0, 1);
        for (unsigned v = 0; v < n; v++) if (in(v)) { unsigned e = v; while (e + 1 < n && in(e + 1)) e++;
            Expr *t = e == v ? mkBin(K_Eq, x, mkConst(v, w)) : mkBin(K_And, mkBin(K_Ule, mkConst(v, w), x), mkBin(K_Ule, x, mkConst(e, w))); r = mkBin(K_Or, r, t); v = e; }
        return r;
    }
    static void addCons(State &s, Expr *c) {
        if (isTrue(c)) return;
        if (c->k == K_And) { addCons(s, c->a); addCons(s, c->b); return; }
        if (unary(c)) { Dom &d = domOf(s, c->syms->v[0]); const Mask &k = maskOf(c); unsigned pop = 0; for (int i = 0; i < 4; i++) { d.m[i] &= k.m[i]; pop += __builtin_popcountll(d.m[i]); }
            if (pop == 1) { unsigned i = 0; while (!d.m[i]) i++; addEq(s, g_syms[c->syms->v[0]].e, 64 * i + __builtin_ctzll(d.m[i])); }
            if (c->k == K_Eq && isC(c->b) && c->a->w <= 64) addEq(s, c->a, (u64)c->b->val);
            return; }
        for (auto x : s.cons) if (x == c) return;
        for (u32 y : c->syms->v) if (g_syms[y].w <= 8) domOf(s, y).joined = true;
        s.cons.push_back(c); if (s.cons.size() > st.maxCons) st.maxCons = s.cons.size();
        addEq(s, c, 1); Expr *n = mkNot(c); addEq(s, n, 0);
        if (c->k == K_Eq && isC(c->b) && c->a->w <= 64) addEq(s, c->a, (u64)c->b->val);
        if (c->k == K_Xor && isTrue(c->b) && c->a->k == K_Or) { addCons(s, mkNot(c->a->a)); addCons(s, mkNot(c->a->b)); }
    }
    // has the solver agree with a decision taken over the values of a small symbol (each distinct one once, up to a number per process)
    static void confirmDom(Expr *c, const Dom &d, int k) {
        static std::map<std::pair<Expr*, std::array<u64, 4>>, bool> seen; if (st.domConfirmed >= opt.confirm) return;
        std::array<u64, 4> key; memcpy(key.data(), d.m, 32); if (!seen.emplace(std::make_pair(c, key), true).second) return;
        std::vector<Expr*> q{domExpr(c->syms->v[0], d), k ? mkNot(c) : c}; for (auto x : q) if (isFalse(x)) return; st.domConfirmed++;
        Model m; m.v.resize(g_syms.size()); Sat r = solve(q, m); if (r == SAT) { fprintf(stderr, "sx: the solver disagrees with a decision over a small symbol\n"); _exit(3); }
    }
    // 1: holds under the values the symbol may take, 0: fails, -1: open; exact unless the symbol is joined with others
    static int domKnown(State &s, Expr *c, Mask &left) {
        Dom &d = domOf(s, c->syms->v[0]); const Mask &k = maskOf(c); bool in = false, out = false;
        for (int i = 0; i < 4; i++) { left.m[i] = d.m[i] & k.m[i]; in |= left.m[i] != 0; out |= (d.m[i] & ~k.m[i]) != 0; }
        int k2 = !in ? 0 : !out ? 1 : -1; if (k2 >= 0) confirmDom(c, d, k2);
        return k2;
    }
    static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
        switch (e->k) {
            case K_Ite: return mkIte(a, b, c); case K_Concat: return mkConcat(a, b); case K_Extract: return mkExtract(a, (unsigned)e->val, e->w); case K_ZExt: return mkZExt(a, e->w); case K_SExt: return mkSExt(a, e->w);
            case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: case K_FRem: case K_FEq: case K_FLt: case K_FLe: return mkFBin(e->k, a, b);
            case K_FSqrt: case K_FIsNaN: case K_FExt: case K_FTrunc: case K_FToSI: case K_FToUI: case K_SIToF: case K_UIToF: case K_FRnd: return mkFUn(e->k, a, e->w, (unsigned)e->val);
            default: return mkBin(e->k, a, b);
        }
    }
    // rewrites an expression with what the domains of the small symbols decide
    static Expr *simp(State &s, Expr *e) {
        bool any = false; for (u32 y : e->syms->v) if (y < s.dom.size() && s.dom[y].any && g_syms[y].w <= 8) { any = true; break; }
        if (!any) return e;
        std::unordered_map<Expr*, Expr*> memo; std::vector<std::pair<Expr*, int>> stk{{e, 0}};
        auto get = [&](Expr *x) -> Expr* { if (!x) return nullptr; if (x->syms->v.empty()) return x; auto it = memo.find(x); return it == memo.end() ? nullptr : it->second; };
        while (!stk.empty()) {
            auto &[x, i] = stk.back(); Expr *r = nullptr;
            if (x->syms->v.empty() || memo.count(x)) { stk.pop_back(); continue; }
            if (i == 0 && unary(x)) {
                u32 y = x->syms->v[0];
                if (y < s.dom.size() && s.dom[y].any) {
                    Dom &d = s.dom[y]; unsigned pop = 0, v = 0; for (int j = 0; j < 4; j++) { if (!pop && d.m[j]) v = 64 * j + __builtin_ctzll(d.m[j]); pop += __builtin_popcountll(d.m[j]); }
                    if (pop == 1) { static Model M; if (M.v.size() < g_syms.size()) M.v.resize(g_syms.size()); M.v[y] = v; bumpEval(); r = mkConst(evalExpr(x, M), x->w); M.v[y] = 0; }
                    else if (x->w == 1) { Mask l; int k = domKnown(s, x, l); if (k >= 0) r = mkConst(k, 1); }
                } else r = x;
            }
            if (!r && x->k == K_Sym) r = x;
            if (r) { memo[x] = r; stk.pop_back(); continue; }
            Expr *ch[3] = { x->a, x->b, x->c };
            if (i < 3) { Expr *c = ch[i++]; if (c && !c->syms->v.empty() && !memo.count(c)) stk.push_back({c, 0}); continue; }
            Expr *a = get(x->a), *b = get(x->b), *c = get(x->c);
            memo[x] = a == x->a && b == x->b && c == x->c ? x : rebuild(x, a, b, c); stk.pop_back();
        }
        return memo[e];
    }
    static void timeUp(double slack) { if (g_sh->stop || now() > opt.time + slack) { st.incomplete++; st.incompleteWhy.insert(g_sh->stop ? "stopped" : "time limit"); throw Kill{}; } }
    static Sat check(State &s, Expr *c, Model &m, bool smt = false) {
        u64 kv;
        if (!isC(c) && !unary(c)) c = simp(s, c);
        if (isTrue(c)) { m = s.model; return SAT; }
        if (isFalse(c)) return UNSAT;
        if (knownVal(s, c, kv)) { if (!kv) return UNSAT; m = s.model; return SAT; }
        if (!smt && unary(c)) {
            Mask left; int k = domKnown(s, c, left);
            if (k >= 0) { st.domHits++; if (!k) return UNSAT; m = s.model; return SAT; }
            u32 sy = c->syms->v[0];
            if (!s.dom[sy].joined) { st.domHits++; m = s.model; if (m.v.size() < g_syms.size()) m.v.resize(g_syms.size()); unsigned i = 0; while (!left.m[i]) i++; m.v[sy] = 64 * i + __builtin_ctzll(left.m[i]); return SAT; }
        }
        timeUp(1);
        // slice: constraints transitively sharing symbols with c
        static std::vector<u8> mark; static std::vector<u8> used;
        mark.assign(g_syms.size(), 0); used.assign(s.cons.size(), 0);
        std::vector<u32> seen;
        for (auto x : c->syms->v) { mark[x] = 1; seen.push_back(x); }
        std::vector<Expr*> q{c}; bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
                auto &v = s.cons[i]->syms->v; bool hit = false;
                for (auto x : v) if (mark[x]) { hit = true; break; }
                if (hit) { used[i] = 1; q.push_back(s.cons[i]); for (auto x : v) if (!mark[x]) { mark[x] = 1; ch = true; seen.push_back(x); } }
            }
        }
        for (u32 x : seen) if (x < s.dom.size() && s.dom[x].any) q.push_back(domExpr(x, s.dom[x]));
        m = s.model; if (m.v.size() < g_syms.size()) m.v.resize(g_syms.size());
        Sat r = solve(q, m);
        if (r == UNKNOWN) { st.incomplete++; st.incompleteWhy.insert("solver resource limit"); }
        return r;
    }
    State *fork(State &s) { if (s.depth > opt.maxDepth) fail(s, "nontermination", "more than " + std::to_string(opt.maxDepth) + " decisions on one path"); State *t = new State(s); for (auto &th : t->th) if (!th.fr.empty()) th.fr.back() = std::make_shared<Frame>(*th.fr.back()); t->depth++; s.depth++; st.forks++; if (t->depth > st.maxDepth) st.maxDepth = t->depth; return t; }
    void push(State *t) { g_work.push_back(t); }
    bool modelTrue(State &s, Expr *c) { return evalExpr(c, s.model) != 0; }

    // decide a condition; may fork, the other side re-executes the current instruction
    bool decide(State &s, Expr *c) {
        if (isC(c)) return c->val != 0;
        u64 kv; if (knownVal(s, c, kv)) return kv;
        if (unary(c)) { Mask l; int k = domKnown(s, c, l); if (k >= 0) { st.domHits++; return k; } }
        else { Expr *c0 = c; c = simp(s, c); if (isC(c)) { st.domHits++; addEq(s, c0, (u64)c->val); return c->val != 0; } if (c != c0) return decide(s, c); }
        bool v = modelTrue(s, c); Expr *o = v ? mkNot(c) : c; Model m; Sat r = check(s, o, m);
        if (r == SAT) { State *t = fork(s); addCons(*t, o); t->model = std::move(m); push(t); addCons(s, v ? c : mkNot(c)); }
        else { addEq(s, c, v); if (r == UNKNOWN) addCons(s, v ? c : mkNot(c)); }
        return v;
    }
    u64 conc(State &s, V v) {
        if (!v.e) return v.c;
        u64 kv; if (knownVal(s, v.e, kv)) return kv;
        u64 x = (u64)evalExpr(v.e, s.model); Expr *eq = mkBin(K_Eq, v.e, mkConst(x, v.e->w)); Model m;
        Expr *ne = mkNot(eq); Sat r = check(s, ne, m);
        if (r == SAT) { State *t = fork(s); addCons(*t, ne); t->model = std::move(m); push(t); }
        if (r != UNSAT) addCons(s, eq); else addEq(s, v.e, x);
        // registers of the running function that differ from a concretised address by a constant become constants too
        if (v.e->w == 64 && !s.T().fr.empty()) {
            auto split = [](Expr *e, u64 &k) { k = 0; while (e->k == K_Add) { if (isC(e->b)) { k += (u64)e->b->val; e = e->a; } else if (isC(e->a)) { k += (u64)e->a->val; e = e->b; } else break; } return e; };
            u64 k0, k; Expr *b = split(v.e, k0); for (auto &r : s.T().fr.back()->R) if (r.e && r.e->w == 64 && split(r.e, k) == b) r = cV(x - k0 + k);
        }
        return x;
    }
    // -- reports --
    static std::string where(const Instruction *I) {
        if (!I) return "?";
        if (auto &L = I->getDebugLoc()) { auto *sc = L->getScope(); std::string fn = sc->getFilename().str(); return fn + ":" + std::to_string(L.getLine()); }
        return "";
    }
    std::string stackOf(State &s, int n = 14) {
        std::string r; auto &fr = s.T().fr;
        for (int i = (int)fr.size() - 1, k = 0; i >= 0 && k < n; i--) {
            auto &f = *fr[i]; const Instruction *I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
            std::string fn = demang(f.f->name); if (fn.size() > 110) fn = fn.substr(0, 110) + "..";
            if (I && I->getDebugLoc()) {
                for (const DILocation *L = I->getDebugLoc().get(); L && k < n; L = L->getInlinedAt(), k++) { auto *sp = L->getScope()->getSubprogram(); r += (r.empty() ? "" : " <- ") + (sp ? sp->getName().str() : fn) + "@" + L->getFilename().str() + ":" + std::to_string(L->getLine()); }
            } else { r += (r.empty() ? "" : " <- ") + fn; k++; }
        }
        return r;
    }
    static std::string valuesJson(State &s, const Model &m) {
        std::string v = "["; bool first = true; bumpEval();
        for (auto &l : s.log) { u64 x = l.sym ? (u64)evalExpr(l.sym, m) : l.val; if (!first) v += ","; first = false; v += "[\"" + jesc(g_names[l.name]) + "\"," + std::to_string(x) + "]"; }
        return v + "]";
    }
    std::set<std::string> reported;
    void violation(State &s, const std::string &kind, const std::string &msg, const Model &m) {
        std::string stk = stackOf(s);
        std::string key = kind + "|" + msg + "|" + stk.substr(0, stk.find(" <- ") == std::string::npos ? stk.size() : stk.find(" <- "));
        if (!reported.insert(key).second) return;
        __sync_fetch_and_add(&g_sh->viol, 1);
        emit("{\"t\":\"violation\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"stack\":\"" + jesc(stk) + "\",\"values\":" + valuesJson(s, m) + "}");
        if (opt.stopFirst || g_sh->viol >= opt.maxViol) g_sh->stop = 1;
    }
    [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.model); throw Kill{}; }
    [[noreturn]] void unsupported(State &s, const std::string &msg) {
        st.incomplete++; std::string w = msg + " at " + stackOf(s, 5); st.incompleteWhy.insert("unsupported: " + w); throw Kill{};
    }
    // condition must hold; reports otherwise and continues on the good side
    void must(State &s, Expr *ok, const std::string &kind, const std::string &msg) {
        if (isTrue(ok)) return;
        if (isFalse(ok)) fail(s, kind, msg);
        u64 kv; if (knownVal(s, ok, kv) && kv) return;
        bool v = modelTrue(s, ok);
        if (!v) { violation(s, kind, msg, s.model); Model m; if (check(s, ok, m) != SAT) throw Kill{}; s.model = std::move(m); addCons(s, ok); return; }
        Model m; Sat r = check(s, mkNot(ok), m, true);
        if (r == SAT) { violation(s, kind, msg, m); addCons(s, ok); }
        else if (r == UNSAT) addEq(s, ok, 1);
        else addCons(s, ok);
    }
    // -- memory --
    std::string describe(State &s, u64 a) {
        char b[160]; Obj *o = s.mem.find(a);
        if (!o) { snprintf(b, sizeof b, a < 0x1000000 ? "null page address 0x%llx" : "address 0x%llx of no live object", (unsigned long long)a); return b; }
        static const char *kn[] = {"global","constant","stack","malloc'd","new'd","new[]'d","mapped"};
        snprintf(b, sizeof b, "offset %lld of a %llu-byte %s object", (long long)(a - o->base), (unsigned long long)o->size, kn[o->kind]); return b;
    }
    inline Obj *at(State &s, u64 a, u64 n, bool wr) {
        Obj *o = s.mem.find(a);
        if (__builtin_expect(!o || a < o->base || a - o->base + n > o->size || (wr && o->kind == O_Const), 0)) {
            char b[64]; snprintf(b, sizeof b, "invalid %llu-byte %s at ", (unsigned long long)n, wr ? "write" : "read");
            fail(s, "memory", b + describe(s, a));
        }
        return o;
    }
    static V rd(Obj *o, u64 off, unsigned w) {
        unsigned n = (w + 7) / 8;
        if (o->s) { bool sy = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sy = true; break; }
            if (sy) { Expr *e = nullptr; for (unsigned i = 0; i < n; i++) { Expr *x = o->s[off + i]; if (!x) x = mkConst(o->b[off + i], 8); e = e ? mkConcat(x, e) : x; } if (n * 8 != w) e = mkExtract(e, 0, w); return eV(e); } }
        if (w <= 64) { u64 v = 0; memcpy(&v, o->b + off, n); return cV(v & mask64(w)); }
        u128 v = 0; memcpy(&v, o->b + off, n); return V{0, mkConst(v, w)};
    }
    static void wr(Obj *o, u64 off, unsigned w, V v) {
        unsigned n = (w + 7) / 8;
        if (!v.e) { memcpy(o->b + off, &v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr*)); return; }
        if (isC(v.e)) { u128 x = v.e->val; memcpy(o->b + off, &x, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr*)); return; }
        if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*));
        Expr *e = n * 8 != w ? mkZExt(v.e, n * 8) : v.e;
        for (unsigned i = 0; i < n; i++) { Expr *x = mkExtract(e, i * 8, 8); if (isC(x)) { o->b[off + i] = (u8)x->val; o->s[off + i] = nullptr; } else o->s[off + i] = x; }
    }
    // resolves a symbolic address to one object (forking on others); the offset may stay symbolic
    struct SA { Obj *o; bool conc; u64 addr; Expr *off; std::vector<u64> cand; };
    SA resolve(State &s, Expr *e, u64 n, bool wr_) {
        u64 kv; SA r; r.conc = true; r.off = nullptr;
        if (knownVal(s, e, kv)) { r.addr = kv; r.o = at(s, kv, n, wr_); return r; }
        u64 a = (u64)evalExpr(e, s.model); Obj *o = at(s, a, n, wr_);
        Expr *off = mkBin(K_Sub, e, mkConst(o->base, 64));
        Expr *in = mkBin(K_Ule, off, mkConst(o->size - n, 64));
        if (!isTrue(in)) { Model m; Sat q = check(s, mkNot(in), m);
            if (q == SAT) { State *t = fork(s); addCons(*t, mkNot(in)); t->model = std::move(m); push(t); addCons(s, in); }
            else if (q == UNKNOWN) addCons(s, in); }
        r.o = o;
        u64 um = ~off->kz, step = 1; { u64 pos = ~off->kz; if (pos == 0) step = o->size + 1; else step = 1ull << __builtin_ctzll(pos); if (step > o->size) step = o->size + 1; }
        u64 hi = std::min<u64>(um, o->size - n), lo = off->ko; if (hi == ~0ull) hi = o->size - n;
        if (isC(off)) { r.addr = o->base + (u64)off->val; return r; }
        if (lo <= hi && (hi - lo) / step + 1 <= opt.iteMax && (!wr_ || (hi - lo) / step + 1 <= 64)) {
            for (u64 x = lo; x <= hi; x += step) if ((x & off->kz) == 0 && (x & off->ko) == off->ko) r.cand.push_back(x);
            // narrow the candidates to feasible ones when there are many
            r.conc = false; r.off = off; return r;
        }
        r.addr = conc(s, V{0, e}); r.o = at(s, r.addr, n, wr_); return r;
    }
    V load(State &s, V a, unsigned w) {
        unsigned n = (w + 7) / 8;
        if (!a.e) { Obj *o = at(s, a.c, n, false); return rd(o, a.c - o->base, w); }
        SA r = resolve(s, a.e, n, false);
        if (r.conc) return rd(r.o, r.addr - r.o->base, w);
        // build ite chain, grouping equal values
        V acc = rd(r.o, r.cand.back(), w);
        std::vector<std::pair<V, Expr*>> groups;
        for (size_t i = 0; i + 1 < r.cand.size(); i++) {
            V v = rd(r.o, r.cand[i], w);
            if (!v.e && !acc.e && v.c == acc.c) continue; if (v.e && v.e == acc.e) continue;
            Expr *c = mkBin(K_Eq, r.off, mkConst(r.cand[i], 64)); bool f = false;
            for (auto &g : groups) if (g.first.e == v.e && g.first.c == v.c) { g.second = mkBin(K_Or, g.second, c); f = true; break; }
            if (!f) groups.push_back({v, c});
        }
        for (auto &g : groups) acc = selV(g.second, g.first, acc, w);
        return acc;
    }
    void store(State &s, V a, unsigned w, V v) {
        unsigned n = (w + 7) / 8;
        if (!a.e) { Obj *o = at(s, a.c, n, true); o = s.mem.writable(o); wr(o, a.c - o->base, w, v); return; }
        SA r = resolve(s, a.e, n, true);
        Obj *o = s.mem.writable(r.o);
        if (r.conc) { wr(o, r.addr - o->base, w, v); return; }
        // a candidate write must not be applied on top of another candidate's: each byte takes the old value unless addressed
        std::vector<V> old; for (u64 c : r.cand) old.push_back(rd(o, c, w));
        if (r.cand.size() > 1 && r.cand[1] - r.cand[0] < n) {   // overlapping candidates: byte-wise
            Expr *ve = toE(v, w); if (n * 8 != w) ve = mkZExt(ve, n * 8);
            std::map<u64, Expr*> nb; 
            for (u64 c : r.cand) for (unsigned i = 0; i < n; i++) { u64 p = c + i; if (!nb.count(p)) nb[p] = toE(rd(o, p, 8), 8); }
            for (u64 c : r.cand) { Expr *q = mkBin(K_Eq, r.off, mkConst(c, 64)); for (unsigned i = 0; i < n; i++) nb[c + i] = mkIte(q, mkExtract(ve, i * 8, 8), nb[c + i]); }
            for (auto &p : nb) wr(o, p.first, 8, eV(p.second));
            return;
        }
        for (size_t i = 0; i < r.cand.size(); i++) { Expr *q = mkBin(K_Eq, r.off, mkConst(r.cand[i], 64)); wr(o, r.cand[i], w, selV(q, v, old[i], w)); }
    }
    void copyMem(State &s, u64 d, u64 a, u64 n) {
        if (!n) return;
        Obj *so = at(s, a, n, false), *d0 = at(s, d, n, true); Obj *dof = s.mem.writable(d0); so = at(s, a, n, false);
        u64 ao = a - so->base, o = d - dof->base;
        memmove(dof->b + o, so->b + ao, n);
        if (so->s) { if (!dof->s) dof->s = (Expr**)calloc(dof->size, sizeof(Expr*)); memmove(dof->s + o, so->s + ao, n * sizeof(Expr*)); }
        else if (dof->s) memset(dof->s + o, 0, n * sizeof(Expr*));
    }
    void setMem(State &s, u64 d, V v, u64 n) {
        if (!n) return; Obj *o = s.mem.writable(at(s, d, n, true)); u64 off = d - o->base;
        if (!v.e) { memset(o->b + off, (int)v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr*)); return; }
        for (u64 i = 0; i < n; i++) wr(o, off + i, 8, v);
    }
    std::string cstr(State &s, u64 a) { std::string r; for (;; a++) { Obj *o = at(s, a, 1, false); u64 off = a - o->base; if (o->s && o->s[off]) { r += '?'; if (r.size() > 200) break; continue; } char c = o->b[off]; if (!c) break; r += c; } return r; }
    V memcmpV(State &s, u64 a, u64 b, u64 n) {
        V r = cV(0);
        if (!n) return r;
        at(s, a, n, false); at(s, b, n, false);
        for (u64 i = n; i-- > 0;) {
            Obj *x = s.mem.find(a), *y = s.mem.find(b); V p = rd(x, a - x->base + i, 8), q = rd(y, b - y->base + i, 8);
            if (!p.e && !q.e) { if (p.c != q.c) r = cV(p.c < q.c ? 0xffffffffu : 1u); continue; }
            Expr *pe = toE(p, 8), *qe = toE(q, 8);
            if (pe == qe) continue;
            V lt = selV(mkBin(K_Ult, pe, qe), cV(0xffffffffu), cV(1), 32);
            r = selV(mkBin(K_Eq, pe, qe), r, lt, 32);
        }
        return r;
    }
    // -- frames --
    void reload() { auto &t = S->T(); FrameP &p = t.fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); F = p.get(); R = F->R.data(); }
    u64 stackAlloc(State &s, u64 size, const void *site) {
        Thread &t = s.T(); u32 id = t.stackTop; unsigned n = ((size + OBJ_OFF) >> ID_SHIFT) + 1; if (id + n >= t.stackEnd) fail(s, "stack-overflow", "call stack exhausted (unbounded recursion?)");
        t.stackTop += n; return s.mem.allocAt(id, O_Stack, size, 0xaa, site);
    }
    void popFrame(State &s) {
        Thread &t = s.T(); u32 mark = t.fr.back()->stackMark;
        while (t.stackTop > mark) { t.stackTop--; Obj *&o = s.mem.slot(t.stackTop); Obj *x = o; o = nullptr; unrefObj(x); }
        t.fr.pop_back();
    }
    void enter(State &s, Func *f, const V *args, unsigned nargs) {
        if (f->F->isDeclaration()) unsupported(s, "call of external function " + f->name);
        if (!f->decoded) { Decoder d(*f); d.run(); }
        f->touched = true;
        Thread &t = s.T(); if (t.fr.size() > 3000) fail(s, "stack-overflow", "call depth above 3000 (unbounded recursion?)");
        auto p = std::make_shared<Frame>(); p->f = f; p->pc = 0; p->stackMark = t.stackTop; p->R.resize(f->nregs);
        t.fr.push_back(p);
        unsigned k = 0;
        for (unsigned i = 0; i < f->argReg.size(); i++) {
            unsigned n = std::max(1u, nslots(f->F->getArg(i)->getType()));
            for (unsigned j = 0; j < n; j++) p->R[f->argReg[i] + j] = k + j < nargs ? args[k + j] : cV(0);
            if (f->byval[i]) { u64 a = stackAlloc(s, f->byval[i], nullptr); copyMem(s, a, p->R[f->argReg[i]].c, f->byval[i]); p->R[f->argReg[i]] = cV(a); }
            k += n;
        }
    }
    inline void jump(u32 ei) {
        const Edge &e = F->f->edges[ei];
        if (e.cn) { const auto *cp = F->f->copies.data() + e.cb; const V *K = F->f->K.data();
            if (e.cn == 1) { int s = cp->second; R[cp->first] = s >= 0 ? R[s] : K[~s]; }
            else { V tmp[64]; std::vector<V> big; V *t = tmp; if (e.cn > 64) { big.resize(e.cn); t = big.data(); }
                for (u32 i = 0; i < e.cn; i++) { int s = cp[i].second; t[i] = s >= 0 ? R[s] : K[~s]; } for (u32 i = 0; i < e.cn; i++) R[cp[i].first] = t[i]; } }
        F->pc = e.target;
    }
    // complete the call instruction at the top frame
    void finishCall() { const Ins &c = F->f->code[F->pc]; if (c.b) jump(c.b - 1); else F->pc++; }

    // -- exceptions --
    std::map<u64, int> tiId; 
    int typeId(u64 ti) { auto it = tiId.find(ti); if (it != tiId.end()) return it->second; int i = tiId.size() + 1; return tiId[ti] = i; }
    std::string tiName(State &s, u64 ti) { Obj *o = s.mem.find(ti); if (!o) return "?"; u64 n = rd(o, ti - o->base + 8, 64).c; return demang("_Z" + std::string("TS") + cstr(s, n)); }
    u64 tiVt[3] = {0,0,0}; // class, si, vmi
    u64 rd64(State &s, u64 a) { Obj *o = at(s, a, 8, false); V v = rd(o, a - o->base, 64); return conc(s, v); }
    bool tiEq(State &s, u64 a, u64 b) { if (a == b) return true; if (!a || !b) return false; u64 x = rd64(s, a + 8), y = rd64(s, b + 8); return x == y || cstr(s, x) == cstr(s, y); }
    // does class `ti` (object at adj) derive from `target`? adjusts the pointer
    bool upcast(State &s, u64 ti, u64 target, u64 &adj) {
        if (tiEq(s, ti, target)) return true;
        u64 vt = rd64(s, ti); 
        if (vt == tiVt[1]) { return upcast(s, rd64(s, ti + 16), target, adj); }
        if (vt == tiVt[2]) {
            u32 nb = (u32)(rd64(s, ti + 16) >> 32);
            for (u32 i = 0; i < nb; i++) { u64 bt = rd64(s, ti + 24 + 16 * i); int64_t fl = rd64(s, ti + 32 + 16 * i); int64_t off = fl >> 8; u64 a = adj;
                if (fl & 1) { if (!a) continue; u64 vp = rd64(s, a); off = (int64_t)rd64(s, vp + off); }
                if (a) a += off; if (upcast(s, bt, target, a)) { adj = a; return true; } }
        }
        return false;
    }
    void subobjects(State &s, u64 ti, u64 obj, u64 target, std::vector<u64> &out) {
        if (tiEq(s, ti, target)) { for (auto x : out) if (x == obj) return; out.push_back(obj); return; }
        u64 vt = rd64(s, ti);
        if (vt == tiVt[1]) { subobjects(s, rd64(s, ti + 16), obj, target, out); return; }
        if (vt == tiVt[2]) { u32 nb = (u32)(rd64(s, ti + 16) >> 32);
            for (u32 i = 0; i < nb; i++) { u64 bt = rd64(s, ti + 24 + 16 * i); int64_t fl = rd64(s, ti + 32 + 16 * i); int64_t off = fl >> 8; if (fl & 1) { u64 vp = rd64(s, obj); off = (int64_t)rd64(s, vp + off); } subobjects(s, bt, obj + off, target, out); } }
    }
    bool catches(State &s, u64 catchTi, u64 exTi, u64 &adj) {
        if (!catchTi) return true;
        if (tiEq(s, catchTi, exTi)) return true;
        u64 vt = rd64(s, exTi);
        if (vt == tiVt[1] || vt == tiVt[2] ) { return upcast(s, exTi, catchTi, adj); }
        return false;
    }
    // unwinds the current thread; `top`: frames above are gone. exn = object address
    int matchLP(State &s, const LandingPadInst *lp, u64 exn, u64 exTi, u64 &adj, bool &cleanup) {
        cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            std::vector<V> o; 
            if (lp->isCatch(i)) { constSlots(lp->getClause(i), o); u64 a = exn; if (catches(s, o[0].c, exTi, a)) { adj = a; return o[0].c ? typeId(o[0].c) : typeId(0); } }
            else { if (lp->getClause(i)->getType()->isArrayTy()) constSlots(lp->getClause(i), o); bool ok = false; for (auto &t : o) { u64 a = exn; if (catches(s, t.c, exTi, a)) ok = true; } if (!ok) return -1; }
        }
        return 0;
    }
    void unwind(State &s, u64 exn) {
        u64 exTi = rd64(s, exn - 32); Thread &t = s.T(); bool found = false;
        for (int i = (int)t.fr.size() - 1; i >= 0; i--) {
            auto &f = *t.fr[i]; const Instruction *I = f.f->code[f.pc].I; auto *iv = dyn_cast<InvokeInst>(I); if (!iv) continue;
            u64 adj = exn; bool cl; if (matchLP(s, iv->getLandingPadInst(), exn, exTi, adj, cl)) { found = true; break; }
        }
        if (!found) fail(s, "uncaught-exception", "uncaught exception of type " + tiName(s, exTi));
        for (;;) {
            reload(); const Instruction *I = F->f->code[F->pc].I; auto *iv = dyn_cast<InvokeInst>(I);
            if (iv) { u64 adj = exn; bool cl; int sel = matchLP(s, iv->getLandingPadInst(), exn, exTi, adj, cl);
                if (sel || cl) { if (sel) { Obj *o = s.mem.writable(at(s, exn - 16, 8, true)); wr(o, exn - 16 - o->base, 64, cV(adj)); }
                    s.T().lpExn = cV(exn); s.T().lpSel = cV((u32)sel); jump(F->f->code[F->pc].y); return; } }
            popFrame(s);
        }
    }
    void throwEx(State &s, u64 exn) { s.T().uncaught++; unwind(s, exn); }

    // -- threads --
    bool runnable(State &s, int i) {
        Thread &t = s.th[i]; if (t.stat == T_Done) return false; if (t.stat == T_Run) return true;
        if (t.stat == T_BlockMutex) { Obj *o = s.mem.find(t.waitOn); return o && rd(o, t.waitOn - o->base, 32).c == 0; }
        if (t.stat == T_Join) { if (t.waitOn == ~0ull) { for (int j = 1; j < (int)s.th.size(); j++) if (s.th[j].stat != T_Done) return false; return true; } return s.th[t.waitOn].stat == T_Done; }
        return false;
    }
    // returns true when the current thread proceeds with its operation now
    void pickThread(State &s, const char *why) {
        std::vector<int> r; for (int i = 0; i < (int)s.th.size(); i++) if (runnable(s, i)) r.push_back(i);
        if (r.empty()) { 
            std::string d; for (int i = 0; i < (int)s.th.size(); i++) { static const char *sn[] = {"running", "blocked on mutex", "waiting on condition variable", "joining", "done"}; d += " T" + std::to_string(i) + ":" + sn[s.th[i].stat]; }
            fail(s, "deadlock", "no runnable thread (" + d.substr(1) + ")"); }
        if (r.size() > 1) {
            u32 nm = nameId("sched");
            for (size_t i = 1; i < r.size(); i++) { State *t = fork(s); t->cur = r[i]; t->schedOk = true; t->log.push_back({nullptr, nm, (u64)r[i]}); push(t); }
            s.log.push_back({nullptr, nm, (u64)r[0]});
        }
        s.cur = r[0]; s.schedOk = true;
    }
    // call at the start of a synchronisation operation; true if the op must be (re)started later
    bool schedPoint(State &s) {
        if (s.th.size() == 1) return false;
        if (s.schedOk) { s.schedOk = false; return false; }
        int me = s.cur; pickThread(s, "sync");
        if (s.cur == me) { s.schedOk = false; return false; }
        return true;
    }
    bool switched = false;   // set by externals that changed the current thread / frame: do not advance pc

    // -- main loop --
    void intrinsic(State &s, const Ins &x);
    void finishPath(State &s);
    void runState(State *s);
    void loop();
    bool rethrowing = false;
};
static Exec X;

#include "intrin.inc"
#include "extern.inc"

static bool g_memLow = false;
static bool memoryLow() {
    static unsigned n = 0; if (g_memLow || ++n % 64) return g_memLow;
    if (FILE *f = fopen("/proc/self/statm", "r")) { unsigned long a, r = 0; if (fscanf(f, "%lu %lu", &a, &r) == 2 && r / 256 > opt.memMB) g_memLow = true; fclose(f); }
    return g_memLow;
}
void Exec::runState(State *sp) {
    S = sp; State &s = *sp; reload();
    const u64 limit = opt.maxSteps; u64 budget = 0;
    for (;;) {
        const Ins &x = F->f->code[F->pc];
        const V *K = F->f->K.data();
        #define G(o) ((o) >= 0 ? R[o] : K[~(o)])
        #define GS(o, i) ((o) >= 0 ? R[(o) + (i)] : K[~(o) + (i)])
        st.instrs++; if (opt.profile) F->f->profile++;
        if (++budget >= 4096) { s.steps += budget; budget = 0; if (s.steps > limit) fail(s, "nontermination", "more than " + std::to_string(limit) + " instructions on one path"); timeUp(0); if (memoryLow()) { st.incomplete++; st.incompleteWhy.insert("memory limit"); throw Kill{}; } }
        if (opt.trace) { std::string q; raw_string_ostream os(q); x.I->print(os); fprintf(stderr, "[%s] %s\n", F->f->name.c_str(), q.c_str()); }
        switch (x.op) {
            case I_Bin: {
                unsigned o = x.sub;
                if (o >= Instruction::UDiv && o <= Instruction::SRem) {
                    for (unsigned i = 0; i < x.n; i++) { V b = GS(x.b, i);
                        if (!b.e) { if (b.c == 0) fail(s, "arithmetic", "division by zero"); } else must(s, nz(b.e), "arithmetic", "division by zero");
                        if (o == Instruction::SDiv || o == Instruction::SRem) { V a = GS(x.a, i); Expr *mn = mkBin(K_Eq, toE(a, x.w), mkConst((u128)1 << (x.w - 1), x.w)), *m1 = mkBin(K_Eq, toE(b, x.w), mkConst(~(u128)0, x.w)); must(s, mkNot(mkBin(K_And, mn, m1)), "arithmetic", "signed division overflow"); } }
                }
                if (x.n == 1) R[x.dst] = binop(o, x.w, G(x.a), G(x.b));
                else for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = binop(o, x.w, GS(x.a, i), GS(x.b, i));
                F->pc++; break; }
            case I_ICmp: if (x.n == 1) R[x.dst] = icmp(x.sub, x.w, G(x.a), G(x.b)); else for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = icmp(x.sub, x.w, GS(x.a, i), GS(x.b, i)); F->pc++; break;
            case I_Br: jump(x.x); break;
            case I_CBr: { V c = G(x.a); bool v = c.e ? decide(s, c.e) : c.c; jump(v ? x.x : x.y); break; }
            case I_Load: if (x.n == 1) R[x.dst] = load(s, G(x.a), x.w); else { V a = G(x.a); if (a.e) a = cV(conc(s, a)); unsigned i = 0; for (auto &l : *x.lv) R[x.dst + i++] = load(s, cV(a.c + l.off), l.w); } F->pc++; break;
            case I_Store: if (x.n == 1) store(s, G(x.a), x.w, G(x.b)); else { V a = G(x.a); if (a.e) a = cV(conc(s, a)); unsigned i = 0; for (auto &l : *x.lv) { store(s, cV(a.c + l.off), l.w, GS(x.b, i)); i++; } } F->pc++; break;
            case I_GepC: { V a = G(x.a); R[x.dst] = a.e ? eV(mkBin(K_Add, a.e, mkConst(x.k, 64))) : cV(a.c + x.k); F->pc++; break; }
            case I_Gep: {
                V a = G(x.a); u64 k = x.k; Expr *e = a.e; if (!e) k += a.c;
                for (int i = 0; i < x.b; i++) { int o = F->f->extra[x.x + 2 * i]; unsigned w = F->f->extra[x.x + 2 * i + 1]; u64 sc = F->f->extra64[x.y + i]; V v = G(o);
                    if (!v.e) k += sc * (u64)sext64(v.c, w); else { Expr *t = mkBin(K_Mul, w < 64 ? mkSExt(v.e, 64) : v.e, mkConst(sc, 64)); e = e ? mkBin(K_Add, e, t) : t; } }
                R[x.dst] = e ? eV(mkBin(K_Add, e, mkConst(k, 64))) : cV(k); F->pc++; break; }
            case I_Copy: if (x.n == 1) R[x.dst] = G(x.a); else for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = GS(x.a, i); F->pc++; break;
            case I_Trunc: for (unsigned i = 0; i < x.n; i++) { V v = GS(x.a, i); R[x.dst + i] = v.e ? eV(mkExtract(v.e, 0, x.w)) : cV(v.c & mask64(x.w)); } F->pc++; break;
            case I_ZExt: for (unsigned i = 0; i < x.n; i++) { V v = GS(x.a, i); R[x.dst + i] = v.e || x.w > 64 ? eV(mkZExt(toE(v, x.sub), x.w)) : v; } F->pc++; break;
            case I_SExt: for (unsigned i = 0; i < x.n; i++) { V v = GS(x.a, i); R[x.dst + i] = v.e || x.w > 64 ? eV(mkSExt(toE(v, x.sub), x.w)) : cV((u64)sext64(v.c, x.sub) & mask64(x.w)); } F->pc++; break;
            case I_Select: {
                for (unsigned i = 0; i < x.n; i++) { V c = x.sub > 1 ? GS(x.a, i) : G(x.a); V a = GS(x.b, i), b = GS(x.c, i); u64 kv;
                    if (!c.e) R[x.dst + i] = c.c ? a : b; else if (knownVal(s, c.e, kv)) R[x.dst + i] = kv ? a : b; else if (opt.forkSel && !sameV(a, b) && (opt.forkSel > 1 || x.I->getType()->isPointerTy())) R[x.dst + i] = decide(s, c.e) ? a : b; else R[x.dst + i] = selV(c.e, a, b, (*x.lv)[i].w); }
                F->pc++; break; }
            case I_Call: {
                V args[32]; std::vector<V> big; const CallBase &C = cast<CallBase>(*x.I); unsigned k = 0;
                if (x.f->F->isDeclaration()) unsupported(s, "call of external function " + x.f->name);
                if (!x.f->decoded) { Decoder d(*x.f); d.run(); }
                for (int i = 0; i < x.c; i++) { int o = F->f->extra[x.x + i]; unsigned n = std::max(1u, nslots(C.getArgOperand(i)->getType())); for (unsigned j = 0; j < n; j++) { V v = o >= 0 ? R[o + j] : K[~o + j]; if (k < 32) args[k] = v; else { if (big.empty()) big.assign(args, args + 32); big.push_back(v); } k++; } }
                enter(s, x.f, big.empty() ? args : big.data(), k); reload(); break; }
            case I_CallInd: {
                V t = G(x.a); u64 a = conc(s, t); u64 ix = (a - FN_BASE) / 16;
                if (a < FN_BASE || (a & 15) || ix >= g_funcByIdx.size()) fail(s, "memory", "indirect call to a non-function: " + describe(s, a));
                Func *f = g_funcByIdx[ix]; const CallBase &C = cast<CallBase>(*x.I); std::vector<V> args;
                for (int i = 0; i < x.c; i++) { int o = F->f->extra[x.x + i]; unsigned n = std::max(1u, nslots(C.getArgOperand(i)->getType())); for (unsigned j = 0; j < n; j++) args.push_back(o >= 0 ? R[o + j] : K[~o + j]); }
                auto it = externals().find(f->name);
                if (it != externals().end()) { V tmp[8] = {}; switched = false; Ins y = x; it->second(*this, s, y, args, x.n ? R + x.dst : tmp); if (!switched) finishCall(); else reload(); break; }
                enter(s, f, args.data(), args.size()); reload(); break; }
            case I_Ext: {
                std::vector<V> args; args.reserve(x.c); const CallBase &C = cast<CallBase>(*x.I);
                for (int i = 0; i < x.c; i++) { int o = F->f->extra[x.x + i]; unsigned n = std::max(1u, nslots(C.getArgOperand(i)->getType())); for (unsigned j = 0; j < n; j++) args.push_back(o >= 0 ? R[o + j] : K[~o + j]); }
                V tmp[8] = {}; switched = false; x.ext(*this, s, x, args, x.n ? R + x.dst : tmp);
                if (switched) { if (s.T().fr.empty()) return; reload(); } else finishCall();
                break; }
            case I_Ret: {
                V tmp[16]; std::vector<V> big; V *rv = tmp; if (x.n > 16) { big.resize(x.n); rv = big.data(); }
                if (x.I->getNumOperands()) for (unsigned i = 0; i < x.n; i++) rv[i] = GS(x.a, i);
                unsigned n = x.I->getNumOperands() ? x.n : 0;
                popFrame(s);
                if (s.T().fr.empty()) {
                    if (s.cur != 0) { s.T().stat = T_Done; pickThread(s, "exit"); reload(); break; }
                    s.steps += budget; finishPath(s); if (s.T().fr.empty()) return; reload(); break;
                }
                reload(); const Ins &c = F->f->code[F->pc]; for (unsigned i = 0; i < n && i < c.n; i++) R[c.dst + i] = rv[i];
                finishCall(); break; }
            case I_Switch: {
                V v = G(x.a); const int *ex = F->f->extra.data() + x.x; const u64 *cv = F->f->extra64.data() + x.y; u64 kv;
                if (v.e && knownVal(s, v.e, kv)) v = cV(kv);
                if (!v.e) { int t = 0; for (int i = 0; i < x.b; i++) if (cv[i] == v.c) { t = i + 1; break; } jump(ex[t]); break; }
                // group the cases by target block
                std::vector<std::pair<u32, Expr*>> g; Expr *any = mkConst(0, 1);
                for (int i = 0; i < x.b; i++) { Expr *q = mkBin(K_Eq, v.e, mkConst(cv[i], x.w)); any = mkBin(K_Or, any, q); u32 t = F->f->edges[ex[i + 1]].target; bool f = false;
                    if (F->f->edges[ex[i+1]].cn == 0) for (auto &p : g) if (F->f->edges[p.first].target == t) { p.second = mkBin(K_Or, p.second, q); f = true; break; }
                    if (!f) g.push_back({(u32)ex[i + 1], q}); }
                g.push_back({(u32)ex[0], mkNot(any)});
                int taken = -1; std::vector<std::pair<State*, u32>> ns;
                for (size_t i = 0; i < g.size(); i++) {
                    if (isFalse(g[i].second)) continue;
                    if (taken < 0 && modelTrue(s, g[i].second)) { taken = i; continue; }
                    Model m; Sat r = check(s, g[i].second, m);
                    if (r == SAT) { State *t = fork(s); addCons(*t, g[i].second); t->model = std::move(m); push(t); ns.push_back({t, g[i].first}); }
                }
                if (taken < 0) { fprintf(stderr, "switch: model satisfies no case\n"); abort(); }
                if (!ns.empty()) addCons(s, g[taken].second); else addEq(s, g[taken].second, 1);
                { State *ss = S; for (auto &p : ns) { S = p.first; reload(); jump(p.second); } S = ss; reload(); }
                jump(g[taken].first); break; }
            case I_IndBr: {
                u64 a = conc(s, G(x.a)); const u64 *cv = F->f->extra64.data() + x.y; int t = -1; for (int i = 0; i < x.b; i++) if (cv[i] == a) { t = i; break; }
                if (t < 0) fail(s, "memory", "indirect branch to an invalid block address"); jump(F->f->extra[x.x + t]); break; }
            case I_Alloca: { u64 n = conc(s, G(x.a)); u64 sz = x.k * n; R[x.dst] = cV(stackAlloc(s, sz, x.I)); F->pc++; break; }
            case I_FBin: for (unsigned i = 0; i < x.n; i++) { V a = GS(x.a, i), b = GS(x.b, i); if (x.sub == Instruction::FRem && (a.e || b.e) && x.w <= 64) { a = cV(conc(s, a)); b = cV(conc(s, b)); } R[x.dst + i] = fbin(x.sub, x.w, a, b); } F->pc++; break;
            case I_FNeg: for (unsigned i = 0; i < x.n; i++) { V a = GS(x.a, i); R[x.dst + i] = x.w == 80 ? lb(-bl(a.e)) : binop(Instruction::Xor, x.w, a, cV(1ull << (x.w - 1))); } F->pc++; break;
            case I_FCmp: for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = fcmp(x.sub, x.w, GS(x.a, i), GS(x.b, i)); F->pc++; break;
            case I_FPCast: {
                for (unsigned i = 0; i < x.n; i++) { V a = GS(x.a, i); unsigned sw = x.sub, w = x.w; V r;
                    if (sw == 80 || w == 80) {
                        if ((sw == 80 && !isC(a.e)) ) unsupported(s, "symbolic long double");
                        if (sw != 80 && a.e) a = cV(conc(s, a));
                        switch (x.b) { case Instruction::FPToUI: r = cV((u64)bl(a.e) & mask64(w)); break; case Instruction::FPToSI: r = cV((u64)(int64_t)bl(a.e) & mask64(w)); break;
                            case Instruction::UIToFP: r = lb((long double)a.c); break; case Instruction::SIToFP: r = lb((long double)sext64(a.c, sw)); break;
                            case Instruction::FPTrunc: r = w == 64 ? cV(db((double)bl(a.e))) : cV(fb((float)bl(a.e))); break; default: r = lb(sw == 64 ? (long double)bd(a.c) : (long double)bf(a.c)); }
                    } else { static const std::map<int, Kind> km = {{Instruction::FPToUI, K_FToUI}, {Instruction::FPToSI, K_FToSI}, {Instruction::UIToFP, K_UIToF}, {Instruction::SIToFP, K_SIToF}, {Instruction::FPTrunc, K_FTrunc}, {Instruction::FPExt, K_FExt}};
                        r = eV(mkFUn(km.at(x.b), toE(a, sw), w)); }
                    R[x.dst + i] = r; }
                F->pc++; break; }
            case I_BitCast: {
                if (x.b == 1) { Expr *e = toE(G(x.a), x.sub); for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = eV(mkExtract(e, i * x.w, x.w)); }
                else if (x.n == 1) { Expr *e = nullptr; for (int i = 0; i < x.b; i++) { Expr *p = toE(GS(x.a, i), x.sub); e = e ? mkConcat(p, e) : p; } R[x.dst] = eV(e); }
                else { Expr *e = nullptr; for (int i = 0; i < x.b; i++) { Expr *p = toE(GS(x.a, i), x.sub); e = e ? mkConcat(p, e) : p; } for (unsigned i = 0; i < x.n; i++) R[x.dst + i] = eV(mkExtract(e, i * x.w, x.w)); }
                F->pc++; break; }
            case I_ExtElt: { V ix = G(x.b); u64 i = conc(s, ix); if (i >= (u64)x.c) fail(s, "memory", "vector element index out of range"); R[x.dst] = GS(x.a, i); F->pc++; break; }
            case I_InsElt: { u64 i = conc(s, G(x.c)); V v = G(x.b); for (unsigned j = 0; j < x.n; j++) { V t = GS(x.a, j); R[x.dst + j] = t; } if (i < x.n) R[x.dst + i] = v; F->pc++; break; }
            case I_Shuffle: { V tmp[64]; for (unsigned j = 0; j < x.n; j++) { int o = F->f->extra[x.x + j]; tmp[j] = G(o); } for (unsigned j = 0; j < x.n; j++) R[x.dst + j] = tmp[j]; F->pc++; break; }
            case I_InsVal: { for (unsigned j = 0; j < x.n; j++) { V t = GS(x.a, j); R[x.dst + j] = t; } for (unsigned j = 0; j < x.sub; j++) { V t = GS(x.b, j); R[x.dst + x.c + j] = t; } F->pc++; break; }
            case I_LandingPad: R[x.dst] = s.T().lpExn; R[x.dst + 1] = s.T().lpSel; F->pc++; break;
            case I_Resume: { u64 exn = conc(s, G(x.a)); popFrame(s); if (s.T().fr.empty()) fail(s, "uncaught-exception", "exception leaves the entry point"); unwind(s, exn); break; }
            case I_RMW: {
                if (schedPoint(s)) { reload(); break; }
                V a = G(x.a), old = load(s, a, x.w), v = G(x.b), nv;
                switch (x.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, x.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, x.w, old, v); break;
                    case AtomicRMWInst::And: nv = binop(Instruction::And, x.w, old, v); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, x.w, old, v); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, x.w, old, v); break; default: unsupported(s, "atomicrmw"); }
                store(s, a, x.w, nv); R[x.dst] = old; F->pc++; break; }
            case I_CmpXchg: {
                if (schedPoint(s)) { reload(); break; }
                V a = G(x.a), old = load(s, a, x.w); V eq = icmp(CmpInst::ICMP_EQ, x.w, old, G(x.b)); bool t = eq.e ? decide(s, eq.e) : eq.c; if (t) store(s, a, x.w, G(x.c)); R[x.dst] = old; R[x.dst + 1] = cV(t); F->pc++; break; }
            case I_Intrin: switched = false; intrinsic(s, x); if (switched) reload(); else finishCall(); break;
            case I_Nop: if (isa<CallBase>(x.I)) finishCall(); else F->pc++; break;
            case I_Unreach: fail(s, "unreachable", "execution reached code the program declares unreachable");
            default: { std::string q; raw_string_ostream os(q); x.I->print(os); unsupported(s, "instruction " + os.str()); }
        }
    }
}

static std::vector<Func*> g_boot;
void Exec::finishPath(State &s) {
    if (s.boot < (int)g_boot.size()) { Func *f = g_boot[s.boot++]; if (s.boot == (int)g_boot.size()) s.heapLive = 0; enter(s, f, nullptr, 0); return; }
    st.paths++; __sync_fetch_and_add(&g_sh->paths, 1);
    // a sample of completed paths is replayed natively: print inputs and the predicted observations
    static u64 seen = 0; seen++;
    bool take = (int)seen <= opt.validate ? true : (rng() % seen) < (u64)opt.validate && (rng() % 4 == 0);
    if (take && opt.validate) {
        static int emitted = 0;
        if (emitted < 4 * opt.validate) {
            emitted++; std::string o = "[";
            for (size_t i = 0; i < s.obs.size(); i++) { if (i) o += ","; u64 v = s.obs[i].v.e ? (u64)evalExpr(s.obs[i].v.e, s.model) : s.obs[i].v.c; o += "[\"" + jesc(g_names[s.obs[i].tag]) + "\"," + std::to_string(v) + "]"; }
            emit("{\"t\":\"path\",\"values\":" + valuesJson(s, s.model) + ",\"obs\":" + o + "],\"cons\":" + std::to_string(s.cons.size()) + "}");
        }
    }
}

static void dumpStats(const char *why) {
    std::string o = "{\"t\":\"stats\",\"why\":\"" + std::string(why) + "\"";
    auto num = [&](const char *k, double v) { char b[96]; snprintf(b, sizeof b, ",\"%s\":%.15g", k, v); o += b; };
    num("paths", st.paths); num("assumed_away", st.killedAssume); num("forks", st.forks); num("instrs", st.instrs); num("asserts", st.asserts); num("asserts_sym", st.assertsSym); num("incomplete", st.incomplete); num("max_depth", st.maxDepth); num("max_cons", st.maxCons); num("dom_hits", st.domHits); num("dom_confirmed", st.domConfirmed);
    num("z3_calls", g_ss.z3_calls); num("z3_sat", g_ss.sat); num("z3_unsat", g_ss.unsat); num("z3_unknown", g_ss.unknown); num("cache_hits", g_ss.cache_hits); num("model_hits", g_ss.model_hits); num("z3_time", g_ss.z3_time); num("max_query", g_ss.max_query); num("wall", now()); num("pending", g_work.size());
    auto mp = [&](const char *k, std::map<std::string, u64> &m) { o += ",\"" + std::string(k) + "\":{"; bool f = true; for (auto &p : m) { if (!f) o += ","; f = false; o += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); } o += "}"; };
    mp("cover", st.cover); mp("assert_msgs", st.assertMsgs);
    o += ",\"incomplete_why\":["; bool f = true; int c = 0; for (auto &w : st.incompleteWhy) { if (c++ > 6) break; if (!f) o += ","; f = false; o += "\"" + jesc(w) + "\""; } o += "]";
    o += ",\"funcs\":["; f = true;
    std::set<const DISubprogram*> sps;
    for (auto *fn : g_funcByIdx) if (fn->touched) {
        if (auto *sp = fn->F->getSubprogram()) sps.insert(sp);
        for (auto &B : *fn->F) for (auto &I : B) for (const DILocation *L = I.getDebugLoc(); L; L = L->getInlinedAt()) sps.insert(L->getScope()->getSubprogram());
    }
    std::set<std::string> names;
    for (auto *sp : sps) {
        std::string file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/")) ? sp->getFilename().str() : sp->getDirectory().str() + "/" + sp->getFilename().str();
        if (file.find(opt.prefix) == std::string::npos) continue;
        std::string nm = demang(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); if (nm.size() > 140) nm = nm.substr(0, 140) + ".."; names.insert(nm);
    }
    for (auto &nm : names) { if (!f) o += ","; f = false; o += "\"" + jesc(nm) + "\""; }
    o += "]";
    if (opt.profile) { std::vector<std::pair<u64, std::string>> p; for (auto *fn : g_funcByIdx) if (fn->profile) p.push_back({fn->profile, demang(fn->name)}); std::sort(p.rbegin(), p.rend()); for (size_t i = 0; i < p.size() && i < 25; i++) fprintf(stderr, "%12llu %s\n", (unsigned long long)p[i].first, p[i].second.substr(0, 150).c_str()); }
    emit(o + "}");
}

void Exec::loop() {
    while (!g_work.empty()) {
        if (g_sh->stop || now() > opt.time) { st.incomplete++; st.incompleteWhy.insert(g_sh->stop ? "stopped" : "time limit"); break; }
        if (g_sh->paths > opt.maxPaths) { st.incomplete++; st.incompleteWhy.insert("path limit"); break; }
        // hand half of the pending states to a new process while cores are idle
        if (g_work.size() >= 2 && g_sh->active < opt.jobs) {
            if (__sync_add_and_fetch(&g_sh->active, 1) <= opt.jobs) {
                pid_t p = ::fork();
                if (p == 0) {
                    std::vector<State*> keep; for (size_t i = 0; i < g_work.size(); i++) if (i % 2 == 0) keep.push_back(g_work[i]); 
                    g_work.swap(keep); st = Stats(); g_ss = SolverStats(); rngState ^= (u64)getpid() * 0x9E3779B97F4A7C15ull;
                } else if (p > 0) { std::vector<State*> keep; for (size_t i = 0; i < g_work.size(); i++) if (i % 2 == 1) keep.push_back(g_work[i]); else delete g_work[i]; g_work.swap(keep); if (g_work.empty()) break; }
                else __sync_sub_and_fetch(&g_sh->active, 1);
            } else __sync_sub_and_fetch(&g_sh->active, 1);
        }
        if (g_memLow) { st.incomplete++; st.incompleteWhy.insert("memory limit"); break; }
        State *s = g_work.back(); g_work.pop_back();
        try { runState(s); } catch (Kill &) { }
        delete s;
    }
}

static void initMemory(State &s) {
    u64 fi = 0;
    for (auto &F : *M) { if (F.isIntrinsic()) continue; auto *f = new Func; f->F = &F; f->name = F.getName().str(); g_funcs[&F] = f; g_gaddr[&F] = FN_BASE + 16 * fi++; g_funcByIdx.push_back(f); }
    s.mem.nextId = 16384 + 8 * 1024;
    for (auto &Gv : M->globals()) { u64 sz = DL->getTypeAllocSize(Gv.getValueType()); if (Gv.getName().starts_with("llvm.")) continue; u64 a = s.mem.alloc(Gv.isConstant() ? O_Const : O_Global, sz, 0, &Gv); g_gaddr[&Gv] = a; g_gByAddr[a] = &Gv; }
    for (auto &Gv : M->globals()) {
        if (Gv.getName().starts_with("llvm.") || !Gv.hasInitializer()) continue;
        Obj *o = s.mem.find(g_gaddr[&Gv]); std::vector<V> v; auto *C = Gv.getInitializer();
        if (C->isNullValue() || isa<UndefValue>(C)) continue;
        constSlots(C, v); auto *lv = leaves(Gv.getValueType());
        for (size_t i = 0; i < lv->size(); i++) Exec::wr(o, (*lv)[i].off, (*lv)[i].w, v[i]);
    }
    static const char *vt[3] = {"_ZTVN10__cxxabiv117__class_type_infoE", "_ZTVN10__cxxabiv120__si_class_type_infoE", "_ZTVN10__cxxabiv121__vmi_class_type_infoE"};
    for (int i = 0; i < 3; i++) if (auto *g = M->getNamedValue(vt[i])) X.tiVt[i] = g_gaddr[g] + 16;
    // external data without a definition
    for (auto &Gv : M->globals()) if (!Gv.hasInitializer() && getenv("SX_VERBOSE")) fprintf(stderr, "external data: %s\n", Gv.getName().str().c_str());
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Func*>> cs; for (auto &O : A->operands()) { auto *S = cast<ConstantStruct>(O); cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), g_funcs[cast<Function>(S->getOperand(1)->stripPointerCasts())]}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &c : cs) g_boot.push_back(c.second);
    }
}

int main(int argc, char **argv) {
    g_t0 = std::chrono::steady_clock::now();
    opt.prefix = "/repo/"; std::string libstrip; std::vector<std::string> stubs, wraps;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--out") opt.out = nx(); else if (a == "--jobs") opt.jobs = stoi(nx()); else if (a == "--time") opt.time = stod(nx()); else if (a == "--entry") opt.entry = nx();
        else if (a == "--max-steps") opt.maxSteps = stoull(nx()); else if (a == "--max-depth") opt.maxDepth = stoul(nx()); else if (a == "--mem") opt.memMB = stoull(nx()); else if (a == "--max-paths") opt.maxPaths = stoull(nx()); else if (a == "--validate") opt.validate = stoi(nx()); else if (a == "--pin") { std::string p = nx(); auto e = p.find('='); opt.pins[p.substr(0, e)] = stoull(p.substr(e + 1)); }
        else if (a == "--trace") opt.trace = true; else if (a == "--profile") opt.profile = true; else if (a == "--prefix") opt.prefix = nx(); else if (a == "--max-viol") opt.maxViol = stoi(nx()); else if (a == "--ite-max") opt.iteMax = stoi(nx()); else if (a == "--stop-first") opt.stopFirst = true; else if (a == "--fork-select") opt.forkSel = stoi(nx()); else if (a == "--confirm") opt.confirm = stoull(nx());
        else if (a == "--smt-dump") g_smt_dump = nx(); else if (a == "--smt-dump-max") g_smt_dump_max = stoi(nx()); else if (a == "--rlimit") g_rlimit = stoul(nx()); else if (a == "--seed") { opt.seed = stoull(nx()); rngState ^= opt.seed * 0x9E3779B97F4A7C15ull; }
        else if (a == "--libstrip") libstrip = nx(); else if (a == "--stub") stubs.push_back(nx()); else if (a == "--wrap") wraps.push_back(nx());
        else opt.bc = a;
    }
    if (opt.time < 1e8) g_deadline = std::chrono::duration<double>(g_t0.time_since_epoch()).count() + opt.time;
    if (libstrip.empty() && wraps.empty()) g_outfd = opt.out.empty() ? 1 : open(opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    g_sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh->active = 1;
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(opt.bc, err, ctx);
    if (!mod) { err.print("sx", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    if (!libstrip.empty()) {   // --libstrip LIST: drop the definitions the C++ runtime library provides, write the rest to --out
        std::ifstream in(libstrip); std::string nm;
        while (std::getline(in, nm)) {
            if (auto *F = M->getFunction(nm)) { if (!F->isDeclaration()) { F->deleteBody(); F->setComdat(nullptr); } F->setLinkage(GlobalValue::ExternalLinkage); F->setVisibility(GlobalValue::DefaultVisibility); }
            else if (auto *G = M->getGlobalVariable(nm, true)) { G->setInitializer(nullptr); G->setComdat(nullptr); G->setLinkage(GlobalValue::ExternalLinkage); G->setVisibility(GlobalValue::DefaultVisibility); G->setDSOLocal(false); }
            else if (auto *A = M->getNamedAlias(nm)) { auto *F = Function::Create(cast<FunctionType>(A->getValueType()), GlobalValue::ExternalLinkage, "", M); A->replaceAllUsesWith(F); F->takeName(A); A->eraseFromParent(); }
        }
        std::error_code ec; raw_fd_ostream os(opt.out, ec); WriteBitcodeToFile(*M, os); return ec ? 2 : 0;
    }
    if (!wraps.empty()) {   // --wrap F: as the linker option of this name: other units' calls of F reach __wrap_F, calls of __real_F reach F
        for (auto &w : wraps) {
            auto *F = M->getFunction(w), *W = M->getFunction("__wrap_" + w), *R = M->getFunction("__real_" + w);
            if (F && F->isDeclaration()) { if (W) { F->replaceAllUsesWith(W); F->eraseFromParent(); } else F->setName("__wrap_" + w); }
            if (R) { if (auto *G = M->getFunction(w)) { R->replaceAllUsesWith(G); R->eraseFromParent(); } else R->setName(w); }
        }
        std::error_code ec; raw_fd_ostream os(opt.out, ec); WriteBitcodeToFile(*M, os); return ec ? 2 : 0;
    }
    for (auto &st : stubs) {   // --stub F=G: calls of F become calls of G, a harness function that over-approximates it
        auto e = st.find('='); auto *F = M->getFunction(st.substr(0, e)), *G = M->getFunction(st.substr(e + 1));
        if (!G) { fprintf(stderr, "no function %s to stand in\n", st.c_str()); return 2; }
        if (F) F->replaceAllUsesWith(G);
    }
    State *s = new State; s->th.emplace_back(); s->th[0].stackBase = s->th[0].stackTop = 64; s->th[0].stackEnd = 16384;
    initMemory(*s);
    auto *E = M->getFunction(opt.entry); if (!E) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
    g_boot.push_back(g_funcs[E]);
    pid_t root = getpid();
    X.S = s; Func *f0 = g_boot[s->boot++]; X.enter(*s, f0, nullptr, 0);
    g_work.push_back(s);
    X.loop();
    dumpStats("done");
    __sync_sub_and_fetch(&g_sh->active, 1);
    while (wait(nullptr) > 0) {}
    _exit(getpid() == root ? 0 : 0);
}
