// symx: symbolic executor for LLVM bitcode (bit-precise, path-forking, Z3 back end).
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
using namespace llvm;

// ---------------------------------------------------------------- options
static double optTime = 60; static int optJobs = 1; static u64 optMaxViol = 3; static u64 optSamples = 24; static bool optVerbose = false; static u64 optSeed = 1;
static u64 optMaxIns = 400000000ULL; static std::string optOut = "symx.out"; static std::string optEntry = "harness"; static std::string optRepo = "/repo/"; static bool optBfs = false;
static std::string optDumpCov; static u64 optMaxForkVals = 70000; static u64 optMuxMax = 300;

struct Shared {
  std::atomic<int> active; std::atomic<int> stop; std::atomic<u64> paths, pathsOk, pathsAssume, pathsViol, pathsErr, pathsDropped, forks, insns, queries, qsat, qunsat, qorder, qosat, qunk, cacheHits, usec, maxUsec, samples, viols, asserts, assertsSym, assumes, branchesSym, maxPathIns, concretizations, fpConc, procs, unkDropped, reads;
  std::atomic<u64> nreach; char reachNames[256][64]; std::atomic<u64> reachCnt[256];
  std::atomic<u64> nerr; char errNames[64][160]; std::atomic<u64> errCnt[64];
  std::atomic_flag lock;
};
static Shared *SH; static u8 *cov; static size_t covN = 0;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double tStart, tDeadline;

// ---------------------------------------------------------------- code
enum IOp : u8 { I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_CALLI, I_INTR, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_INSERT, I_FBIN, I_FCMP, I_FCVT, I_FNEG, I_CMPXCHG, I_RMW, I_BAD };
struct Edge { u32 pc; u32 bb; std::vector<std::pair<i32, i32>> moves; };
struct Arg { i32 op; u16 w; u16 slots; u32 byval; u32 align; };
struct GepIdx { i32 op; u8 w; i64 scale; };
struct FInfo;
struct Ins { IOp op; u8 sub; u8 w; u8 w2; i32 dst, a, b, c; u64 imm; const Instruction *src; u16 nslots; 
  std::vector<Arg> *args; std::vector<GepIdx> *gep; std::vector<Edge> *edges; std::vector<std::pair<u64, u32>> *cases; FInfo *fn; std::vector<std::pair<u32, u8>> *fields; std::string *msg; };
struct FInfo { const Function *F; bool compiled = false; std::vector<Ins> code; std::vector<Val> consts; u32 nregs = 0; u32 entryBB = 0; bool isRepo = false; bool vararg = false; std::vector<u16> paramSlots; int intr = -1; bool executed = false; u64 addr = 0; u32 bb0 = 0; u32 nbb = 0; };

enum Intr { X_NONE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMALIGN, X_POSIX_MEMALIGN, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_ABORT, X_EXIT, X_ASSERTFAIL,
  X_SYMVAL, X_SYMBYTES, X_ASSUME, X_ASSERT, X_FAIL, X_REACH, X_OBSERVE, X_CONC, X_NATIVE, X_POISON, X_UNPOISON, X_THNEW, X_THSWITCH, X_THSELF, X_END, X_HEAPLIVE, X_PRINT, X_PRINTV, X_ISSYM, X_VASTART, X_VACOPY, X_VAEND, X_NOP, X_BSWAP, X_CTPOP, X_CTLZ, X_CTTZ, X_FSHL, X_FSHR, X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_USUBSAT, X_UADDSAT, X_SADDO, X_UADDO, X_SSUBO, X_USUBO, X_SMULO, X_UMULO, X_EXPECT, X_OBJSIZE, X_ISCONST, X_STACKSAVE, X_STACKRESTORE, X_TLS, X_PTRMASK, X_VALIDMEM, X_FABS, X_FMATH, X_INSLIMIT, X_ARENASIZE, X_ISREPLAY, X_DIGITS, X_UNDIGITS };
static std::map<std::string, int> intrTab = {
  {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"memalign", X_MEMALIGN}, {"aligned_alloc", X_MEMALIGN}, {"posix_memalign", X_POSIX_MEMALIGN},
  {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"abort", X_ABORT}, {"exit", X_EXIT}, {"_exit", X_EXIT}, {"__assert_fail", X_ASSERTFAIL},
  {"sym__val", X_SYMVAL}, {"sym__bytes", X_SYMBYTES}, {"sym__assume", X_ASSUME}, {"sym__assert", X_ASSERT}, {"sym__fail", X_FAIL}, {"sym__reach", X_REACH}, {"sym__observe", X_OBSERVE}, {"sym__conc", X_CONC}, {"sym_is_native", X_NATIVE}, {"sym_poison", X_POISON}, {"sym_unpoison", X_UNPOISON},
  {"symt_new", X_THNEW}, {"symt_switch", X_THSWITCH}, {"symt_self", X_THSELF}, {"sym_end", X_END}, {"sym_heap_live", X_HEAPLIVE}, {"sym_print", X_PRINT}, {"sym_printv", X_PRINTV}, {"sym_is_symbolic", X_ISSYM}, {"sym_valid_mem", X_VALIDMEM}, {"sym_ins_limit", X_INSLIMIT}, {"sym__digits", X_DIGITS}, {"sym__undigits", X_UNDIGITS},
  {"sqrt", X_FMATH}, {"ceil", X_FMATH}, {"floor", X_FMATH}, {"log", X_FMATH}, {"exp", X_FMATH}, {"log10", X_FMATH}};

static Module *M; static const DataLayout *DL;
static std::map<const GlobalVariable *, u64> gvAddr; static std::map<const Function *, FInfo *> fns; static std::vector<FInfo *> fnByIdx;
static const u64 FN_BASE = 0x10000, CONST_BASE = 0x1000000, GLOB_BASE = 0x10000000, STACK_BASE = 0x20000000, STACK_SZ = 0x800000, HEAP_BASE = 0x60000000;
static u64 constEnd;

struct Frame { FInfo *f; u32 pc; u32 rb; i32 dst; u64 sp; u64 va; };
struct Thread { std::vector<Frame> fr; std::vector<Val> regs; u64 sp = 0; };
struct Input { u32 var; u8 w; u16 name; };
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<Expr *> pcs; std::vector<u64> fixed; ModelP model; std::vector<Input> inputs; std::vector<Val> obs; u64 heapNext = HEAP_BASE; u64 live = 0, liveBytes = 0; u64 ins = 0; u64 insLimit = 0; u32 depth = 0;
  struct Fam { u32 first, n; Expr *v; }; std::vector<Fam> fams; u32 noteN = 0; std::vector<u32> reach; u64 nconc = 0; std::string limitMsg; std::unordered_set<Expr *> known;
  void addC(Expr *e) { if (isC(e)) return; if (e->op == E_AND && e->w == 1) { addC(e->a); addC(e->b); return; }
    for (Expr *p : pcs) if (p == e) return; pcs.push_back(e); noteKnown(e); if (e->op == E_EQ && e->a->w > 1 && isC(e->b)) noteKnown(e->a);
    Expr *v = nullptr; if (e->op == E_EQ && e->a->op == E_VAR && isC(e->b)) v = e->a; else if (e->op == E_VAR) v = e; else if (e->w == 1 && e->op == E_XOR && e->a->op == E_VAR && isC(e->b)) v = e->a;
    if (v) { u64 i = v->val; if (i / 64 >= fixed.size()) fixed.resize(i / 64 + 1); fixed[i / 64] |= 1ULL << (i % 64); } }
  // e has only one possible value on this path
  void noteKnown(Expr *e) { for (;;) { if (e->op == E_XOR && isC(e->b)) e = e->a; else if (e->op == E_CONST) return; else { known.insert(e); if (e->w == 1) { known.insert(mkNot(e)); return; } if ((e->op == E_ADD && isC(e->b)) || e->op == E_ZEXT || e->op == E_SEXT) e = e->a; else if ((e->op == E_MUL && isC(e->b) && e->b->val && e->a->hi <= maskw(e->w) / e->b->val) || (e->op == E_SHL && isC(e->b) && e->b->val < e->w && e->a->hi <= (maskw(e->w) >> e->b->val))) e = e->a; else return; } } }
  bool varsFixed(Expr *e) const { const auto &b = e->vs->bits; if (b.size() > fixed.size()) return false; for (size_t i = 0; i < b.size(); i++) if (b[i] & ~fixed[i]) return false; return true; }
  bool fx(Expr *e, u64 tag) const { if (e->op == E_CONST) return true; if (e->kTag == tag) return e->kRes; bool r = fx1(e, tag); e->kTag = tag; e->kRes = r; return r; }
  bool fx1(Expr *e, u64 tag) const { if (varsFixed(e) || known.count(e)) return true;
    switch (e->op) { case E_VAR: return false;
    case E_ITE: return fx(e->a, tag) && fx(evalE(e->a, *model) ? e->b : e->c, tag);
    case E_AND: case E_OR: if (e->w == 1) { u64 ab = e->op == E_OR; if (evalE(e->a, *model) == ab && fx(e->a, tag)) return true; if (evalE(e->b, *model) == ab && fx(e->b, tag)) return true; } return fx(e->a, tag) && fx(e->b, tag);
    case E_EXTRACT: case E_ZEXT: case E_SEXT: return fx(e->a, tag);
    default: return fx(e->a, tag) && (!e->b || fx(e->b, tag)); } }
  static u64 newTag() { static u64 t = 0; return ++t; }
  bool isFixed(Expr *e) const { return fx(e, newTag()); }
  // an undecided condition that (alone with other conditions) selects the value of e; null when e depends on data
  Expr *openCond(Expr *e) const { return openCond(e, newTag(), 0); }
  Expr *openCond(Expr *e, u64 tag, int d) const { if (d > 2000 || fx(e, tag)) return nullptr; if (e->w == 1) return e;
    switch (e->op) { case E_ITE: if (!fx(e->a, tag)) return e->a; return openCond(evalE(e->a, *model) ? e->b : e->c, tag, d + 1);
    case E_ADD: case E_SUB: case E_MUL: case E_SHL: case E_LSHR: case E_ASHR: case E_SDIV: case E_UDIV: case E_SREM: case E_UREM: case E_ZEXT: case E_SEXT: case E_AND: case E_OR: case E_XOR: case E_CONCAT: case E_EXTRACT: { Expr *x = openCond(e->a, tag, d + 1); if (x) return x; if (!fx(e->a, tag)) return nullptr; return e->b ? openCond(e->b, tag, d + 1) : nullptr; }
    default: return nullptr; } }
};
static std::vector<std::string> names; static std::map<std::string, u16> nameIdx;
static u16 nameId(const std::string &s) { auto it = nameIdx.find(s); if (it != nameIdx.end()) return it->second; names.push_back(s); return nameIdx[s] = names.size() - 1; }
static std::map<std::pair<u32, u32>, u32> varIntern; static u32 varNext = 0;
static u32 getVar(u32 seq, u32 w) { auto k = std::make_pair(seq, w); auto it = varIntern.find(k); if (it != varIntern.end()) return it->second; return varIntern[k] = varNext++; }

static std::vector<State *> work; static State *S; // current
struct PathEnd {}; // thrown to end the current path

static u32 slotsOf(Type *T) { if (T->isVoidTy()) return 0; if (auto *s = dyn_cast<StructType>(T)) { u32 n = 0; for (Type *e : s->elements()) n += slotsOf(e); return n; } if (auto *a = dyn_cast<ArrayType>(T)) return a->getNumElements() * slotsOf(a->getElementType()); return 1; }
static unsigned widthOf(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; return 999; }
static void flatFields(Type *T, u64 off, std::vector<std::pair<u32, u8>> &o) { if (auto *s = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatFields(s->getElementType(i), off + L->getElementOffset(i), o); }
  else if (auto *a = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatFields(a->getElementType(), off + i * es, o); } else o.push_back({(u32)off, (u8)widthOf(T)}); }
static u32 slotIndex(Type *T, ArrayRef<unsigned> idx) { u32 n = 0; for (unsigned i : idx) { if (auto *s = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) n += slotsOf(s->getElementType(k)); T = s->getElementType(i); } else { auto *a = cast<ArrayType>(T); n += i * slotsOf(a->getElementType()); T = a->getElementType(); } } return n; }

static FInfo *fnInfo(const Function *F) { auto it = fns.find(F); return it == fns.end() ? nullptr : it->second; }
static u64 constVal(const Constant *C, bool &ok) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(C)) return 0; if (isa<UndefValue>(C)) return 0;
  if (auto *cf = dyn_cast<ConstantFP>(C)) { return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (auto *F = dyn_cast<Function>(C)) { FInfo *f = fnInfo(F); return f ? f->addr : 0; }
  if (auto *g = dyn_cast<GlobalVariable>(C)) { auto it = gvAddr.find(g); if (it == gvAddr.end()) { ok = false; return 0; } return it->second; }
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee(), ok);
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) { u64 b = constVal(cast<Constant>(gep->getPointerOperand()), ok); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { ok = false; return 0; } return b + off.getZExtValue(); }
    u64 a = constVal(ce->getOperand(0), ok); unsigned w = widthOf(ce->getType());
    switch (ce->getOpcode()) { case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: return a & maskw(w);
      case Instruction::ZExt: return a; case Instruction::SExt: return sextw(a, widthOf(ce->getOperand(0)->getType())) & maskw(w);
      case Instruction::Add: return (a + constVal(ce->getOperand(1), ok)) & maskw(w); case Instruction::Sub: return (a - constVal(ce->getOperand(1), ok)) & maskw(w); case Instruction::Mul: return (a * constVal(ce->getOperand(1), ok)) & maskw(w);
      default: ok = false; return 0; } }
  ok = false; return 0;
}
static void constSlots(const Constant *C, std::vector<Val> &o, bool &ok) {
  Type *T = C->getType();
  if (T->isAggregateType()) { u32 n = slotsOf(T); if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (u32 i = 0; i < n; i++) o.push_back(VC(0)); return; }
    unsigned k = isa<StructType>(T) ? T->getStructNumElements() : T->getArrayNumElements(); for (unsigned i = 0; i < k; i++) constSlots(C->getAggregateElement(i), o, ok); return; }
  if (isa<UndefValue>(C) && widthOf(T) <= 64) { o.push_back(VC(0)); return; }
  o.push_back(VC(constVal(C, ok)));
}
// ---------------------------------------------------------------- compile
struct Comp {
  FInfo *f; std::map<const Value *, i32> reg; std::map<const Value *, i32> cst; bool bad = false;
  i32 opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cst.find(v); if (it != cst.end()) return it->second; bool ok = true; std::vector<Val> sl; constSlots(c, sl, ok); if (!ok) { bad = true; }
      if (sl.empty()) sl.push_back(VC(0)); i32 r = -(i32)f->consts.size() - 1; for (auto &x : sl) f->consts.push_back(x); return cst[v] = r; }
    auto it = reg.find(v); if (it == reg.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1; errs() << "no reg for " << *v << "\n"; bad = true; return -1; } return it->second;
  }
};
static EOp binOp(unsigned o) { switch (o) { case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL; case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV; case Instruction::URem: return E_UREM; case Instruction::SRem: return E_SREM; case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR; case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR; } return E_CONST; }
static int llvmIntr(StringRef n) {
  if (!n.starts_with("llvm.")) return X_NONE; n = n.drop_front(5);
  if (n.starts_with("memcpy")) return X_MEMCPY; if (n.starts_with("memmove")) return X_MEMMOVE; if (n.starts_with("memset")) return X_MEMSET;
  if (n.starts_with("dbg") || n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("invariant") || n.starts_with("prefetch") || n.starts_with("va_end") || n.starts_with("donothing") || n.starts_with("sideeffect")) return X_NOP;
  if (n.starts_with("va_start")) return X_VASTART; if (n.starts_with("va_copy")) return X_VACOPY;
  if (n.starts_with("bswap")) return X_BSWAP; if (n.starts_with("ctpop")) return X_CTPOP; if (n.starts_with("ctlz")) return X_CTLZ; if (n.starts_with("cttz")) return X_CTTZ; if (n.starts_with("fshl")) return X_FSHL; if (n.starts_with("fshr")) return X_FSHR;
  if (n.starts_with("umin")) return X_UMIN; if (n.starts_with("umax")) return X_UMAX; if (n.starts_with("smin")) return X_SMIN; if (n.starts_with("smax")) return X_SMAX; if (n.starts_with("abs")) return X_ABS; if (n.starts_with("usub.sat")) return X_USUBSAT; if (n.starts_with("uadd.sat")) return X_UADDSAT;
  if (n.starts_with("sadd.with")) return X_SADDO; if (n.starts_with("uadd.with")) return X_UADDO; if (n.starts_with("ssub.with")) return X_SSUBO; if (n.starts_with("usub.with")) return X_USUBO; if (n.starts_with("smul.with")) return X_SMULO; if (n.starts_with("umul.with")) return X_UMULO;
  if (n.starts_with("expect")) return X_EXPECT; if (n.starts_with("objectsize")) return X_OBJSIZE; if (n.starts_with("is.constant")) return X_ISCONST; if (n.starts_with("stacksave")) return X_STACKSAVE; if (n.starts_with("stackrestore")) return X_STACKRESTORE; if (n.starts_with("threadlocal.address")) return X_TLS; if (n.starts_with("trap")) return X_ABORT; if (n.starts_with("fabs")) return X_FABS; if (n.starts_with("fmuladd")||n.starts_with("floor")||n.starts_with("ceil")||n.starts_with("sqrt")) return X_FMATH;
  return X_NONE;
}
static void compile(FInfo *f) {
  f->compiled = true; const Function &F = *f->F; Comp C; C.f = f; u32 nr = 0;
  for (auto &A : F.args()) { C.reg[&A] = nr; u32 s = slotsOf(A.getType()); f->paramSlots.push_back(s); nr += s ? s : 1; }
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { C.reg[&I] = nr; nr += std::max(1u, slotsOf(I.getType())); }
  f->nregs = nr; std::map<const BasicBlock *, u32> bbPc; std::map<const BasicBlock *, u32> bbId; u32 k = 0; for (auto &B : F) bbId[&B] = f->bb0 + k++;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.pc = 0; e.bb = bbId[to]; for (auto &P : to->phis()) { i32 d = C.reg[&P]; i32 s = C.opnd(P.getIncomingValueForBlock(from)); u32 n = slotsOf(P.getType()); for (u32 i = 0; i < n; i++) e.moves.push_back({d + (i32)i, s >= 0 ? s + (i32)i : s - (i32)i}); } return e; };
  std::vector<std::pair<std::vector<Edge> *, std::vector<const BasicBlock *>>> fix;
  for (auto &B : F) { bbPc[&B] = f->code.size();
    for (auto &I : B) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins n; memset((void *)&n, 0, sizeof n); n.src = &I; n.dst = I.getType()->isVoidTy() ? -1 : C.reg[&I]; C.bad = false; Type *T = I.getType(); bool bad = false; n.nslots = slotsOf(T);
      if (!T->isVoidTy() && !T->isAggregateType() && widthOf(T) > 64) bad = true;
      for (auto &o : I.operands()) if (!o->getType()->isAggregateType() && !o->getType()->isVoidTy() && !o->getType()->isLabelTy() && !o->getType()->isMetadataTy() && !isa<BasicBlock>(o) && widthOf(o->getType()) > 64 && !isa<CallInst>(I)) bad = true;
      unsigned oc = I.getOpcode();
      if (bad) { n.op = I_BAD; }
      else if (I.isBinaryOp() && !T->isFloatingPointTy()) { n.op = I_BIN; n.sub = binOp(oc); n.w = widthOf(T); n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); }
      else if (I.isBinaryOp()) { n.op = I_FBIN; n.sub = oc; n.w = widthOf(T); n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); }
      else if (auto *ic = dyn_cast<ICmpInst>(&I)) { n.op = I_ICMP; n.sub = ic->getPredicate(); n.w = widthOf(I.getOperand(0)->getType()); n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); }
      else if (auto *fc = dyn_cast<FCmpInst>(&I)) { n.op = I_FCMP; n.sub = fc->getPredicate(); n.w = widthOf(I.getOperand(0)->getType()); n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); }
      else switch (oc) {
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: n.op = oc == Instruction::ZExt ? I_ZEXT : oc == Instruction::SExt ? I_SEXT : I_TRUNC; n.w = widthOf(T); n.w2 = widthOf(I.getOperand(0)->getType()); n.a = C.opnd(I.getOperand(0)); break;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: { unsigned wa = widthOf(T), wb = widthOf(I.getOperand(0)->getType()); n.a = C.opnd(I.getOperand(0)); n.w = wa; n.w2 = wb; n.op = T->isAggregateType() ? I_MOV : wa > wb ? I_ZEXT : wa < wb ? I_TRUNC : I_MOV; if (n.op == I_MOV && !T->isAggregateType()) n.nslots = 1; break; }
        case Instruction::Select: n.op = I_SELECT; n.w = T->isAggregateType() ? 0 : widthOf(T); n.w2 = T->isPointerTy() || T->isAggregateType() || T->isFloatingPointTy(); n.c = C.opnd(I.getOperand(0)); n.a = C.opnd(I.getOperand(1)); n.b = C.opnd(I.getOperand(2)); break;
        case Instruction::Load: n.op = I_LOAD; n.a = C.opnd(I.getOperand(0)); if (T->isAggregateType()) { n.fields = new std::vector<std::pair<u32, u8>>; flatFields(T, 0, *n.fields); } n.w = widthOf(T); n.imm = DL->getTypeStoreSize(T); break;
        case Instruction::Store: { Type *VT = I.getOperand(0)->getType(); n.op = I_STORE; n.a = C.opnd(I.getOperand(1)); n.b = C.opnd(I.getOperand(0)); if (VT->isAggregateType()) { n.fields = new std::vector<std::pair<u32, u8>>; flatFields(VT, 0, *n.fields); } n.w = widthOf(VT); n.imm = DL->getTypeStoreSize(VT); break; }
        case Instruction::GetElementPtr: { auto &G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { n.op = I_BAD; break; } n.op = I_GEP; n.a = C.opnd(G.getPointerOperand()); n.gep = new std::vector<GepIdx>; u64 off = 0;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else { u64 sz = gi.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else n.gep->push_back({C.opnd(ix), (u8)widthOf(ix->getType()), (i64)sz}); } }
          n.imm = off; break; }
        case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); n.op = I_ALLOCA; n.a = C.opnd(A.getArraySize()); n.w2 = widthOf(A.getArraySize()->getType()); n.imm = DL->getTypeAllocSize(A.getAllocatedType()); n.b = A.getAlign().value(); break; }
        case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); n.op = I_MOV; i32 s = C.opnd(E.getAggregateOperand()); i32 k = slotIndex(E.getAggregateOperand()->getType(), E.getIndices()); n.a = s >= 0 ? s + k : s - k; break; }
        case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); n.op = I_INSERT; n.a = C.opnd(E.getAggregateOperand()); n.b = C.opnd(E.getInsertedValueOperand()); n.imm = slotIndex(T, E.getIndices()); n.c = slotsOf(E.getInsertedValueOperand()->getType()); break; }
        case Instruction::FNeg: n.op = I_FNEG; n.w = widthOf(T); n.a = C.opnd(I.getOperand(0)); break;
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: n.op = I_FCVT; n.sub = oc; n.w = widthOf(T); n.w2 = widthOf(I.getOperand(0)->getType()); n.a = C.opnd(I.getOperand(0)); break;
        case Instruction::AtomicCmpXchg: n.op = I_CMPXCHG; n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); n.c = C.opnd(I.getOperand(2)); n.w = widthOf(I.getOperand(1)->getType()); break;
        case Instruction::AtomicRMW: n.op = I_RMW; n.sub = cast<AtomicRMWInst>(I).getOperation(); n.a = C.opnd(I.getOperand(0)); n.b = C.opnd(I.getOperand(1)); n.w = widthOf(T); break;
        case Instruction::Fence: continue;
        case Instruction::Ret: n.op = I_RET; n.nslots = I.getNumOperands() ? slotsOf(I.getOperand(0)->getType()) : 0; n.a = I.getNumOperands() ? C.opnd(I.getOperand(0)) : 0; break;
        case Instruction::Br: { auto &b = cast<BranchInst>(I); n.edges = new std::vector<Edge>; std::vector<const BasicBlock *> t; if (b.isConditional()) { n.op = I_CBR; n.a = C.opnd(b.getCondition()); t = {b.getSuccessor(0), b.getSuccessor(1)}; } else { n.op = I_BR; t = {b.getSuccessor(0)}; }
          for (auto *x : t) n.edges->push_back(mkEdge(&B, x)); fix.push_back({n.edges, t}); break; }
        case Instruction::Switch: { auto &s = cast<SwitchInst>(I); n.op = I_SWITCH; n.a = C.opnd(s.getCondition()); n.w = widthOf(s.getCondition()->getType()); n.edges = new std::vector<Edge>; n.cases = new std::vector<std::pair<u64, u32>>; std::vector<const BasicBlock *> t; t.push_back(s.getDefaultDest()); n.edges->push_back(mkEdge(&B, s.getDefaultDest()));
          for (auto c : s.cases()) { t.push_back(c.getCaseSuccessor()); n.edges->push_back(mkEdge(&B, c.getCaseSuccessor())); n.cases->push_back({c.getCaseValue()->getZExtValue(), (u32)t.size() - 1}); } fix.push_back({n.edges, t}); break; }
        case Instruction::Unreachable: n.op = I_UNREACH; break;
        case Instruction::Call: { auto &c = cast<CallInst>(I); if (c.isInlineAsm()) { auto *ia = cast<InlineAsm>(c.getCalledOperand()); if (ia->getAsmString().empty() || StringRef(ia->getAsmString()).contains("mfence") || StringRef(ia->getAsmString()).contains("pause")) continue; n.op = I_BAD; break; }
          const Value *cv = c.getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts(); auto *cf = dyn_cast<Function>(cv); int x = X_NONE;
          if (cf && cf->isIntrinsic()) { x = llvmIntr(cf->getName()); if (x == X_NOP) continue; if (x == X_NONE) { n.op = I_BAD; break; } }
          n.args = new std::vector<Arg>; unsigned ai = 0; bool wb = false;
          for (auto &a : c.args()) { Arg g; g.op = C.opnd(a); Type *AT = a->getType(); g.slots = slotsOf(AT); g.w = AT->isAggregateType() ? 0 : widthOf(AT); if (AT->isMetadataTy()) { g.w = 0; } else if (!AT->isAggregateType() && g.w > 64) wb = true; g.byval = 0; if (c.isByValArgument(ai)) g.byval = DL->getTypeAllocSize(c.getParamByValType(ai)); g.align = 8; n.args->push_back(g); ai++; }
          if (wb) { n.op = I_BAD; break; }
          n.w = T->isVoidTy() || T->isAggregateType() ? 0 : widthOf(T); n.imm = c.getFunctionType()->getNumParams();
          if (x != X_NONE) { n.op = I_INTR; n.sub = x; n.w2 = c.arg_size() ? (c.getArgOperand(0)->getType()->isAggregateType() ? 0 : widthOf(c.getArgOperand(0)->getType())) : 0; if (n.w2 > 64) n.w2 = 0; n.msg = new std::string(cf->getName().str()); }
          else if (cf) { FInfo *t = fnInfo(cf); n.fn = t; if (t && t->intr >= 0) { n.op = I_INTR; n.sub = t->intr; n.msg = new std::string(cf->getName().str()); n.w2 = 0; } else n.op = I_CALL; }
          else { n.op = I_CALLI; n.a = C.opnd(c.getCalledOperand()); }
          break; }
        default: n.op = I_BAD;
      }
      if (C.bad) n.op = I_BAD;
      f->code.push_back(n);
    } }
  for (auto &p : fix) for (size_t i = 0; i < p.second.size(); i++) (*p.first)[i].pc = bbPc[p.second[i]];
}

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void lockSh() { while (SH->lock.test_and_set()) usleep(10); }
static void unlockSh() { SH->lock.clear(); }
static void bumpErr(const std::string &s) { lockSh(); u64 n = SH->nerr; u64 i; for (i = 0; i < n; i++) if (s.compare(0, 159, SH->errNames[i]) == 0) break; if (i == n) { if (n == 64) { unlockSh(); return; } strncpy(SH->errNames[n], s.c_str(), 159); SH->nerr++; } SH->errCnt[i]++; unlockSh(); }
static u32 reachId(const std::string &s) { lockSh(); u64 n = SH->nreach, i; for (i = 0; i < n; i++) if (s.compare(0, 63, SH->reachNames[i]) == 0) break; if (i == n) { if (n == 256) { unlockSh(); return 255; } strncpy(SH->reachNames[n], s.c_str(), 63); SH->nreach++; } unlockSh(); return i; }
static std::string locStr(const Instruction *I) { std::string s; if (I && I->getDebugLoc()) { auto &d = I->getDebugLoc(); s = d->getFilename().str() + ":" + std::to_string(d.getLine()); } return s; }
static std::string stackStr() { std::string s; auto &t = S->th[S->cur]; for (int i = t.fr.size() - 1; i >= 0; i--) { auto &fr = t.fr[i]; u32 pc = fr.pc; if (i < (int)t.fr.size() - 1 && pc > 0) pc--; s += (s.empty() ? "" : " <- ") + fr.f->F->getName().str(); std::string l = pc < fr.f->code.size() ? locStr(fr.f->code[pc].src) : ""; if (!l.empty()) { size_t p = l.rfind('/'); s += "@" + (p == std::string::npos ? l : l.substr(p + 1)); } } return s; }
static std::string inputsJson(const Model &m) { std::string s = "["; for (size_t i = 0; i < S->inputs.size(); i++) { auto &in = S->inputs[i]; char b[96]; u64 v = in.var < m.v.size() ? m.v[in.var] & maskw(in.w) : 0; snprintf(b, 96, "%s[%d,%llu,\"", i ? "," : "", in.w, (unsigned long long)v); s += b; s += jesc(names[in.name]) + "\"]"; } return s + "]"; }
static u64 digest(const Model &m) { u64 h = 1469598103934665603ULL; for (auto &o : S->obs) { u64 v = o.e ? evalE(o.e, m) : o.c; for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ULL; } } return h; }
static void appendFile(const std::string &suf, const std::string &line) { int fd = open((optOut + suf).c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { std::string l = line + "\n"; if (write(fd, l.data(), l.size()) < 0) {} close(fd); } }
static void violation(const std::string &kind, const std::string &label, const ModelP &m) {
  SH->viols++; char b[64]; snprintf(b, 64, "%llx", (unsigned long long)digest(*m));
  std::string st = stackStr();
  appendFile(".viol", "{\"kind\":\"" + jesc(kind) + "\",\"label\":\"" + jesc(label) + "\",\"stack\":\"" + jesc(st) + "\",\"nobs\":" + std::to_string(S->obs.size()) + ",\"inputs\":" + inputsJson(*m) + "}");
  if (optVerbose) fprintf(stderr, "VIOL %s %s %s\n", kind.c_str(), label.c_str(), st.c_str());
  if (SH->viols >= optMaxViol) SH->stop = 1;
}
enum EndKind { END_OK, END_ASSUME, END_VIOL, END_ERR };
static void endPath(EndKind k, const std::string &why = "") {
  SH->paths++;
  if (k == END_OK) { u64 n = SH->pathsOk++; for (u32 r : S->reach) SH->reachCnt[r]++;
    bool take = false; u64 got = SH->samples;
    if (got < optSamples) { u64 h = (n + 1) * 0x9e3779b97f4a7c15ULL ^ (optSeed * 0xc2b2ae3d27d4eb4fULL); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; u64 rate = n < 8 ? 1 : n < 100 ? 12 : n < 1000 ? 100 : n < 10000 ? 800 : 6000; take = h % rate == 0; }
    if (take) { SH->samples++; char b[64]; snprintf(b, 64, "%llx", (unsigned long long)digest(*S->model)); appendFile(".samp", "{\"digest\":\"" + std::string(b) + "\",\"nobs\":" + std::to_string(S->obs.size()) + ",\"inputs\":" + inputsJson(*S->model) + "}"); } }
  else if (k == END_ASSUME) SH->pathsAssume++; else if (k == END_VIOL) SH->pathsViol++; else { SH->pathsErr++; bumpErr(why + " | " + stackStr()); if (optVerbose) fprintf(stderr, "ERR %s @ %s\n", why.c_str(), stackStr().c_str()); }
  if (S->ins > SH->maxPathIns) SH->maxPathIns = S->ins;
  throw PathEnd();
}
[[noreturn]] static void viol(const std::string &kind, const std::string &label) { violation(kind, label, S->model); endPath(END_VIOL); abort(); }
[[noreturn]] static void unsupported(const std::string &w) { endPath(END_ERR, "unsupported: " + w); abort(); }

// ---------------------------------------------------------------- state ops
static State *forkState() { State *n = new State(*S); n->mem.r = nullptr; n->mem.share(S->mem); n->depth++; SH->forks++; return n; }
static void push(State *s) { work.push_back(s); }
static void killState(State *s) { s->mem.release(); delete s; }
// feasibility of q; cheap answers first. returns R_*; m = model if SAT
static const char *curKind="";
static Res feasible(Expr *q, ModelP &m) {
  if (isC(q)) { m = S->model; return q->val ? R_SAT : R_UNSAT; }
  if (evalE(q, *S->model)) { m = S->model; g_solver.st.modelHits++; return R_SAT; }
  if (S->isFixed(q)) return R_UNSAT;
  Expr *nq = mkNot(q); for (Expr *p : S->pcs) if (p == nq) return R_UNSAT;
  curKind = "feas"; Res r = g_solver.check(S->pcs, q, S->model, m); if (r == R_UNK) { SH->unkDropped++; if (getenv("SYMX_DUMPUNK")) { fprintf(stderr, "UNK %s\n", exprStr(q, 60).c_str()); for (Expr *p : S->pcs) fprintf(stderr, "  PC %s\n", exprStr(p, 60).c_str()); } } return r;
}
// decide a condition in the current state; may push the other side as a re-executing state
// rewrites an expression using the conditions already decided on this path
static Expr *simpK1(Expr *e, u64 tag, int d);
static Expr *simpK(Expr *e, u64 tag, int d) { if (e->op == E_CONST || e->op == E_VAR || d > 2000) return e; if (e->sTag == tag) return e->sRes; Expr *r = simpK1(e, tag, d); e->sTag = tag; e->sRes = r; return r; }
static Expr *simpK1(Expr *e, u64 tag, int d) {
  if (e->w == 1 && S->known.count(e)) return mkConst(1, evalE(e, *S->model));
  switch (e->op) {
  case E_ITE: { Expr *c = simpK(e->a, tag, d + 1); if (isC(c)) return simpK(c->val ? e->b : e->c, tag, d + 1); Expr *x = simpK(e->b, tag, d + 1), *y = simpK(e->c, tag, d + 1); return c == e->a && x == e->b && y == e->c ? e : mkIte(c, x, y); }
  case E_ZEXT: { Expr *x = simpK(e->a, tag, d + 1); return x == e->a ? e : mkZext(x, e->w); } case E_SEXT: { Expr *x = simpK(e->a, tag, d + 1); return x == e->a ? e : mkSext(x, e->w); }
  case E_EXTRACT: { Expr *x = simpK(e->a, tag, d + 1); return x == e->a ? e : mkExtract(x, e->val, e->w); } case E_CONCAT: return e;
  default: { Expr *x = simpK(e->a, tag, d + 1), *y = e->b ? simpK(e->b, tag, d + 1) : nullptr; return x == e->a && y == e->b ? e : mkE(e->op, e->w, x, y); } } }
static bool decide(Expr *c);
// splits a comparison of values that are selected by conditions into those conditions; returns what is left to decide
static Expr *splitCond(Expr *c) {
  for (int i = 0; i < 64; i++) { c = simpK(c, State::newTag(), 0); if (isC(c)) return c; Expr *k = c; while (k->op == E_XOR && k->w == 1 && isC(k->b)) k = k->a;
    if ((k->op == E_AND || k->op == E_OR) && k->w == 1) { Expr *x = k->a; while (x->op == E_XOR && isC(x->b)) x = x->a; if ((x->op == E_ULT || x->op == E_ULE || x->op == E_EQ) && x->a->w == 64) { decide(x); continue; } return c; }
    if (k->op < E_EQ || k->op > E_SLE || k->a->w == 1) return c;
    Expr *o = nullptr; for (Expr *x : {k->a, k->b}) { if (isC(x)) continue; Expr *y = S->openCond(x); if (!y) { if (!S->isFixed(x)) return c; } else if (!o) o = y; }
    if (!o) return c; decide(o); }
  return c; }
static bool decide(Expr *c) {
  if (isC(c)) return c->val; if (c->depth > 1) { c = splitCond(c); if (isC(c)) return c->val; }
  bool v = evalE(c, *S->model); if (S->isFixed(c)) return v;
  Expr *other = v ? mkNot(c) : c; for (Expr *p : S->pcs) if (p == other) { /*contradiction impossible*/ } else if (p == (v ? c : other)) {}
  Expr *mine = v ? c : mkNot(c); for (Expr *p : S->pcs) if (p == mine) return v;
  curKind = "dec"; SH->branchesSym++; ModelP m; Res r = g_solver.check(S->pcs, other, S->model, m);
  if (r == R_UNSAT) { S->noteKnown(c); return v; } if (r == R_UNK) { SH->unkDropped++; S->addC(mine); return v; }
  State *o = forkState(); o->model = m; o->addC(other); push(o); S->addC(mine); return v;
}
 static std::string whereStr() { std::string s = stackStr(); return std::string(curKind) + " " + s.substr(0, 90); }
static u64 concretize(Val v, unsigned w, const char *why) {
  if (!v.e) return v.c; for (int i = 0; i < 64; i++) { Expr *c = S->openCond(v.e); if (!c) break; decide(c); }
  u64 x = evalE(v.e, *S->model); if (S->isFixed(v.e)) return x;
  Expr *eq = mkE(E_EQ, 1, v.e, mkConst(w, x)); if (isC(eq)) return x; for (Expr *p : S->pcs) if (p == eq) return x;
  curKind = "conc"; ModelP m; Expr *ne = mkNot(eq); Res r = g_solver.check(S->pcs, ne, S->model, m); SH->concretizations++;
  if (r == R_UNSAT) { S->noteKnown(v.e); return x; } if (r == R_UNK) { SH->unkDropped++; S->addC(eq); S->noteKnown(v.e); return x; }
  if (++S->nconc > optMaxForkVals) { endPath(END_ERR, std::string("too many concretizations: ") + why); }
  State *o = forkState(); o->model = m; o->addC(ne); push(o); S->addC(eq); S->noteKnown(v.e); return x;
}
static const u64 RZ = 32;
static u64 heapAlloc(u64 n, u64 align, int c = 0xbe) {
  if (align < 16) align = 16;
  if (n > (1ULL << 31)) return 0; // the modelled system refuses absurd sizes
  u64 a = S->heapNext + RZ; a = (a + align - 1) & ~(align - 1); if (a + n + RZ >= ((u64)ROOTN << (PGB + L1B))) endPath(END_ERR, "heap exhausted");
  S->heapNext = a + n; S->mem.store(a - 16, 8, VC(n)); S->mem.store(a - 8, 8, VC(0xA110CA7EDULL)); if (n) S->mem.block(a, n, c);
  S->live++; S->liveBytes += n; return a;
}
static void heapFree(u64 a) {
  if (!a) return; u64 mg = S->mem.rd(a - 8) && a > HEAP_BASE ? S->mem.load(a - 8, 8).c : 0;
  if (mg == 0xF4EED) viol("memory", "double free"); if (mg != 0xA110CA7EDULL) viol("memory", "free of a pointer that was not allocated");
  u64 n = S->mem.load(a - 16, 8).c; if (n) S->mem.block(a, n, -1); S->mem.store(a - 8, 8, VC(0xF4EED)); S->live--; S->liveBytes -= n;
}
static std::string addrDesc(u64 a) {
  char b[128]; if (a < 4096) { snprintf(b, 128, "null-ish address 0x%llx", (unsigned long long)a); return b; }
  // look back for heap header
  if (a >= HEAP_BASE) for (u64 h = a & ~15ULL; h > a - 70000 && h > HEAP_BASE; h -= 16) { if (!S->mem.rd(h - 8)) continue; u64 mg = S->mem.load(h - 8, 8).c; if (S->mem.load(h - 8, 8).e) continue; if (mg == 0xA110CA7EDULL || mg == 0xF4EED) { u64 n = S->mem.load(h - 16, 8).c; snprintf(b, 128, "offset %llu of a %s block of %llu bytes", (unsigned long long)(a - h), mg == 0xF4EED ? "freed" : "live", (unsigned long long)n); return b; } }
  snprintf(b, 128, "address 0x%llx", (unsigned long long)a); return b;
}
[[noreturn]] static void badAccess(u64 a, u64 n, bool wr) { viol("memory", std::string(wr ? "invalid write" : "invalid read") + " of size " + std::to_string(n) + " at " + addrDesc(a)); }
static inline void chk(u64 a, u64 n, bool wr) { if (n == 0) return; if (!S->mem.valid(a, n)) badAccess(a, n, wr); if (wr && a < constEnd && a >= CONST_BASE) viol("memory", "write to constant data at " + addrDesc(a)); }
// object extents (contiguous valid bytes) around address a
static void extents(u64 a, u64 &lo, u64 &hi) { lo = a; hi = a; u64 lim = 1 << 17; while (lo > 0 && a - lo < lim && S->mem.validByte(lo - 1)) lo--; while (hi - a < lim && S->mem.validByte(hi)) hi++; }
static Expr *mux(Expr *addr, const std::vector<std::pair<u64, Expr *>> &v, size_t l, size_t r) { // [l,r)
  if (r - l == 1) return v[l].second; size_t m = (l + r) / 2; Expr *a = mux(addr, v, l, m), *b = mux(addr, v, m, r); if (a == b) return a;
  return mkIte(mkE(E_ULT, 1, addr, mkConst(64, v[m].first)), a, b);
}
// symbolic address: constrain to one object; returns true if address became concrete (ca), else range [lo,hi] of start addresses with stride
static bool symAddr(Val av, u64 n, bool wr, u64 &ca, u64 &lo, u64 &hi, u64 &stride) {
  for (int i = 0; i < 64; i++) { Expr *c = S->openCond(av.e); if (!c) break; decide(c); }
  u64 x = evalE(av.e, *S->model); if (S->isFixed(av.e)) { ca = x; return true; }
  if (!S->mem.valid(x, n)) { // this model value is a violation; explore the rest separately
    ca = concretize(av, 64, "bad address"); return true; }
  u64 ol, oh; extents(x, ol, oh); // inside: ol <= a <= oh-n
  u64 mx = oh - n; Expr *in = mkAnd1(mkE(E_ULE, 1, mkConst(64, ol), av.e), mkE(E_ULE, 1, av.e, mkConst(64, mx)));
  if (!isC(in)) { ModelP m; Expr *nin = mkNot(in); bool known = false; if (S->isFixed(nin)) known = true;
    if (!known) { curKind = "symaddr"; Res r = g_solver.check(S->pcs, nin, S->model, m); if (r == R_SAT) { State *o = forkState(); o->model = m; o->addC(nin); push(o); S->addC(in); } else if (r == R_UNK) { SH->unkDropped++; S->addC(in); } } }
  lo = std::max(ol, av.e->lo); hi = std::min(mx, av.e->hi);
  unsigned tz = 0; { // residue stride: look at expr = base + scaled index
    Expr *e = av.e; Expr *var = e; u64 base = 0; if (e->op == E_ADD && isC(e->b)) { var = e->a; base = e->b->val; } tz = std::min<unsigned>(var->tz, 12); stride = 1ULL << tz; u64 off = (lo - base) & (stride - 1); if (off) lo += stride - off; }
  if (stride == 1 && n > 1) { }
  return false;
}
static Val doLoad(Val av, unsigned bytes) {
  if (!av.e) { u64 a = av.c; Page *p = S->mem.rd(a); unsigned off = a & (PGS - 1); if (p && off + bytes <= PGS && Mem::pgValid(p, off, bytes)) { if (!p->sym) { u64 v = 0; memcpy(&v, p->data + off, bytes); return VC(v); } return S->mem.load(a, bytes); } chk(a, bytes, false); return S->mem.load(a, bytes); }
  u64 ca, lo, hi, st; if (symAddr(av, bytes, false, ca, lo, hi, st)) return doLoad(VC(ca), bytes);
  u64 cnt = hi >= lo ? (hi - lo) / st + 1 : 0;
  if (cnt == 0 || cnt > optMuxMax) { ca = concretize(av, 64, "load address"); return doLoad(VC(ca), bytes); }
  std::vector<std::pair<u64, Expr *>> v; for (u64 a = lo; a <= hi; a += st) v.push_back({a, toE(S->mem.load(a, bytes), bytes * 8)});
  return toV(mux(av.e, v, 0, v.size()));
}
static void doStore(Val av, unsigned bytes, Val v) {
  u64 a; if (av.e) a = concretize(av, 64, "store address"); else a = av.c;
  Page *p = S->mem.rd(a); unsigned off = a & (PGS - 1);
  if (p && off + bytes <= PGS && Mem::pgValid(p, off, bytes) && !(a < constEnd && a >= CONST_BASE)) { S->mem.store(a, bytes, v); return; }
  chk(a, bytes, true); S->mem.store(a, bytes, v);
}
static std::string readCStr(u64 a) { std::string s; for (int i = 0; i < 4096; i++) { Val b = S->mem.getb(a + i); if (b.e) { s += '?'; continue; } if (!b.c) break; s += (char)b.c; } return s; }

// ---------------------------------------------------------------- binary ops
static inline Val vbin(EOp op, unsigned w, Val a, Val b) { if (!a.e && !b.e) return VC(foldBin(op, w, a.c, b.c)); return toV(mkE(op, w, toE(a, w), toE(b, w))); }
static Val vicmp(unsigned pred, unsigned w, Val a, Val b) {
  EOp op; bool sw = false, neg = false;
  switch (pred) { case CmpInst::ICMP_EQ: op = E_EQ; break; case CmpInst::ICMP_NE: op = E_EQ; neg = true; break; case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_ULE: op = E_ULE; break; case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
    case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SLE: op = E_SLE; break; case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; default: op = E_SLE; sw = true; }
  if (sw) std::swap(a, b); if (!a.e && !b.e) return VC(foldBin(op, w, a.c, b.c) ^ (neg ? 1 : 0));
  Expr *e = mkE(op, 1 == 1 ? w : w, toE(a, w), toE(b, w)); if (neg) e = mkNot(e); return toV(e);
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
#include <cmath>

// ---------------------------------------------------------------- interpreter
static void pushFrame(Thread &t, FInfo *f, i32 dst, const std::vector<Val> &args, u64 va) {
  if (!f->compiled) compile(f); if (t.fr.size() > 600) endPath(END_ERR, "call depth"); f->executed = true; if (cov) { cov[f->bb0] = 1; }
  Frame fr; fr.f = f; fr.pc = 0; fr.rb = t.regs.size(); fr.dst = dst; fr.sp = t.sp; fr.va = va; t.regs.resize(fr.rb + f->nregs, VC(0)); for (size_t i = 0; i < args.size() && i < f->nregs; i++) t.regs[fr.rb + i] = args[i]; t.fr.push_back(fr);
}
static u64 stackAlloc(Thread &t, u64 n, u64 align) { if (align < 16) align = 16; u64 a = (t.sp + 16 + align - 1) & ~(align - 1); u64 base = STACK_BASE + (u64)(&t - &S->th[0]) * STACK_SZ; if (a + n + 16 > base + STACK_SZ) viol("memory", "stack overflow"); t.sp = a + n; if (n) { S->mem.setValid(a, n, true); S->mem.fill(a, n, VC(0xbe)); } return a; }
static State *takeOther(Expr *) { return nullptr; }
static void followEdge(State *s, Thread &t, Frame &fr, const Edge &e) {
  if (!e.moves.empty()) { Val *r = &t.regs[fr.rb]; size_t n = e.moves.size(); if (n == 1) { i32 o = e.moves[0].second; r[e.moves[0].first] = o >= 0 ? r[o] : fr.f->consts[-o - 1]; }
    else { Val tmp[64]; std::vector<Val> big; Val *q = tmp; if (n > 64) { big.resize(n); q = big.data(); } for (size_t i = 0; i < n; i++) { i32 o = e.moves[i].second; q[i] = o >= 0 ? r[o] : fr.f->consts[-o - 1]; } for (size_t i = 0; i < n; i++) r[e.moves[i].first] = q[i]; } }
  fr.pc = e.pc; if (cov) cov[e.bb] = 1;
}
static bool doIntr(Ins &I, std::vector<Val> &A, Val *ret); // returns false if the call instr must not advance (thread switch etc.)
static void syncStats() {
  auto &s = g_solver.st; SH->queries += s.queries; SH->qsat += s.sat; SH->qunsat += s.unsat; SH->qorder += s.order; SH->qosat += s.orderSat; SH->qunk += s.unk; SH->cacheHits += s.cacheHits; SH->usec += s.usec; if (s.maxUsec > SH->maxUsec) SH->maxUsec = s.maxUsec; memset(&s, 0, sizeof s);
}
static double lastFork = 0; static bool isChild = false;
static void maybeSplit() {
  if (optJobs <= 1 || work.size() < 2) return; int a = SH->active; if (a >= optJobs) return; double t = now(); if (t - lastFork < 0.01) return; lastFork = t;
  while (a < optJobs) { if (SH->active.compare_exchange_weak(a, a + 1)) goto ok; } return;
ok: fflush(stdout); fflush(stderr); SH->procs++; syncStats();
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  std::vector<State *> mine, theirs; for (size_t i = 0; i < work.size(); i++) ((i & 1) ? theirs : mine).push_back(work[i]);
  if (p == 0) { isChild = true; for (auto *s : mine) killState(s); work = theirs; lastFork = now(); throw PathEnd(); } else { for (auto *s : theirs) killState(s); work = mine; }
}
static void runState() {
  u64 tick = 0;
  while (true) {
    Thread *t = &S->th[S->cur]; Frame *fr = &t->fr.back(); FInfo *f = fr->f; Val *R = t->regs.data() + fr->rb; const Val *K = f->consts.data();
    u32 pc = fr->pc;
#define OP(x) ((x) >= 0 ? R[x] : K[-(x)-1])
#define OPAT(x, i) ((x) >= 0 ? R[(x) + (i)] : K[-(x)-1 + (i)])
    while (true) { // inner loop within frame
      Ins &I = f->code[pc]; fr->pc = pc;
      if ((++tick & 0xfff) == 0) { S->ins += 0x1000; SH->insns += 0x1000; if (SH->stop || now() > tDeadline) { SH->pathsDropped++; throw PathEnd(); }
        if (S->insLimit && S->ins > S->insLimit) viol("hang", S->limitMsg); if (S->ins > optMaxIns) endPath(END_ERR, "instruction limit"); }
      switch (I.op) {
      case I_BIN: { Val a = OP(I.a), b = OP(I.b); EOp o = (EOp)I.sub;
        if (o == E_UDIV || o == E_SDIV || o == E_UREM || o == E_SREM) { if (!b.e) { if (b.c == 0) viol("arith", "division by zero"); } else if (decide(mkE(E_EQ, 1, b.e, mkConst(I.w, 0)))) viol("arith", "division by zero"); 
          if (!a.e && !b.e && (o == E_SDIV || o == E_SREM) && sextw(b.c, I.w) == -1 && a.c == (1ULL << (I.w - 1))) viol("arith", "signed division overflow"); }
        R[I.dst] = vbin(o, I.w, a, b); pc++; break; }
      case I_ICMP: R[I.dst] = vicmp(I.sub, I.w, OP(I.a), OP(I.b)); pc++; break;
      case I_ZEXT: { Val a = OP(I.a); R[I.dst] = a.e ? toV(mkZext(a.e, I.w)) : a; pc++; break; }
      case I_SEXT: { Val a = OP(I.a); R[I.dst] = a.e ? toV(mkSext(a.e, I.w)) : VC((u64)sextw(a.c, I.w2) & maskw(I.w)); pc++; break; }
      case I_TRUNC: { Val a = OP(I.a); R[I.dst] = a.e ? toV(mkExtract(a.e, 0, I.w)) : VC(a.c & maskw(I.w)); pc++; break; }
      case I_MOV: for (unsigned i = 0; i < I.nslots; i++) R[I.dst + i] = OPAT(I.a, i); pc++; break;
      case I_SELECT: { Val c = OP(I.c); bool v; if (!c.e) v = c.c; else if (I.w2) { v = decide(c.e); } else { Val a = OP(I.a), b = OP(I.b); R[I.dst] = toV(mkIte(c.e, toE(a, I.w), toE(b, I.w))); pc++; break; }
        for (unsigned i = 0; i < I.nslots; i++) R[I.dst + i] = v ? OPAT(I.a, i) : OPAT(I.b, i); pc++; break; }
      case I_LOAD: { Val a = OP(I.a);
        if (I.fields) { u64 ad = concretize(a, 64, "agg load"); for (size_t i = 0; i < I.fields->size(); i++) { auto &fl = (*I.fields)[i]; R[I.dst + i] = doLoad(VC(ad + fl.first), (fl.second + 7) / 8); } }
        else { Val v = doLoad(a, I.imm); if (I.w < I.imm * 8) v = v.e ? toV(mkExtract(v.e, 0, I.w)) : VC(v.c & maskw(I.w)); R[I.dst] = v; } pc++; break; }
      case I_STORE: { Val a = OP(I.a);
        if (I.fields) { u64 ad = concretize(a, 64, "agg store"); for (size_t i = 0; i < I.fields->size(); i++) { auto &fl = (*I.fields)[i]; Val v = OPAT(I.b, i); if (v.e && v.e->w % 8) v = toV(mkZext(v.e, (v.e->w + 7) / 8 * 8)); doStore(VC(ad + fl.first), (fl.second + 7) / 8, v); } }
        else { Val v = OP(I.b); if (v.e && I.w < I.imm * 8) v = toV(mkZext(v.e, I.imm * 8)); doStore(a, I.imm, v); } pc++; break; }
      case I_GEP: { Val p = OP(I.a); Val r = vbin(E_ADD, 64, p, VC(I.imm)); for (auto &g : *I.gep) { Val x = OP(g.op); if (g.w < 64) x = x.e ? toV(mkSext(x.e, 64)) : VC((u64)sextw(x.c, g.w)); else if (g.w > 64) unsupported("gep idx"); r = vbin(E_ADD, 64, r, vbin(E_MUL, 64, x, VC((u64)g.scale))); } R[I.dst] = r; pc++; break; }
      case I_ALLOCA: { Val n = OP(I.a); u64 k = concretize(n, I.w2, "alloca"); u64 a = stackAlloc(*t, k * I.imm, I.b); R[I.dst] = VC(a); pc++; break; }
      case I_INSERT: { u32 n = slotsOf(I.src->getType()); for (u32 i = 0; i < n; i++) { Val v = (i >= I.imm && i < I.imm + (u32)I.c) ? OPAT(I.b, i - I.imm) : OPAT(I.a, i); R[I.dst + i] = v; } pc++; break; }
      case I_BR: followEdge(S, *t, *fr, (*I.edges)[0]); pc = fr->pc; break;
      case I_CBR: { Val c = OP(I.a); bool v; if (!c.e) v = c.c; else { Expr *e = c.e; if (e->depth > 1) e = splitCond(e); v = evalE(e, *S->model); if (!S->isFixed(e)) { Expr *mine = v ? e : mkNot(e), *other = v ? mkNot(e) : e; bool known = false; for (Expr *p : S->pcs) if (p == mine) { known = true; break; }
            if (!known) { curKind = "cbr"; SH->branchesSym++; ModelP m; Res r = g_solver.check(S->pcs, other, S->model, m);
              if (r == R_SAT) { State *o = forkState(); o->model = m; o->addC(other); Thread &ot = o->th[o->cur]; followEdge(o, ot, ot.fr.back(), (*I.edges)[v ? 1 : 0]); push(o); S->addC(mine); maybeSplit(); }
              else if (r == R_UNK) { SH->unkDropped++; S->addC(mine); } else S->noteKnown(e); } } }
        followEdge(S, *t, *fr, (*I.edges)[v ? 0 : 1]); pc = fr->pc; break; }
      case I_SWITCH: { Val c = OP(I.a); u32 e = 0; 
        if (c.e) { // decide case by case, by the model value first
          u64 mv = evalE(c.e, *S->model); bool isCase = false; u32 tgt = 0; for (auto &k : *I.cases) if (k.first == mv) { isCase = true; tgt = k.second; }
          Expr *cond = nullptr; if (isCase) { // group all cases with the same target block? keep simple: per value
            cond = mkE(E_EQ, 1, c.e, mkConst(I.w, mv)); }
          else { cond = mkConst(1, 1); for (auto &k : *I.cases) cond = mkAnd1(cond, mkNot(mkE(E_EQ, 1, c.e, mkConst(I.w, k.first)))); }
          bool d = decide(cond); (void)d; e = tgt; maybeSplit(); }
        else for (auto &k : *I.cases) if (k.first == c.c) { e = k.second; break; }
        followEdge(S, *t, *fr, (*I.edges)[e]); pc = fr->pc; break; }
      case I_RET: { Val rv[16]; for (unsigned i = 0; i < I.nslots && i < 16; i++) rv[i] = OPAT(I.a, i); u64 sp0 = fr->sp; if (t->sp > sp0) S->mem.setValid(sp0, t->sp - sp0, false); t->sp = sp0; i32 dst = fr->dst; u32 rb = fr->rb; t->fr.pop_back(); t->regs.resize(rb);
        if (t->fr.empty()) { if (S->cur == 0) { S->ins += tick & 0xfff; endPath(END_OK); } endPath(END_ERR, "thread entry returned"); }
        fr = &t->fr.back(); if (dst >= 0) for (unsigned i = 0; i < I.nslots; i++) t->regs[fr->rb + dst + i] = rv[i]; fr->pc++; goto outer; }
      case I_CALL: case I_CALLI: { FInfo *cf = I.fn;
        if (I.op == I_CALLI) { Val p = OP(I.a); u64 a = concretize(p, 64, "function pointer"); u64 i = (a - FN_BASE) / 16; if (a < FN_BASE || i >= fnByIdx.size() || (a & 15)) viol("memory", "call through a bad function pointer: " + addrDesc(a)); cf = fnByIdx[i]; }
        std::vector<Val> args; u32 np = I.imm; bool isIn = cf && cf->intr >= 0;
        if (!isIn && (!cf || cf->F->isDeclaration())) { std::string nm = cf ? cf->F->getName().str() : "?"; unsupported("external function " + nm); }
        if (isIn) { for (auto &g : *I.args) for (unsigned i = 0; i < g.slots; i++) args.push_back(OPAT(g.op, i)); Ins J = I; J.sub = cf->intr; std::string nm = cf->F->getName().str(); J.msg = &nm; Val ret[4] = {}; bool adv = doIntr(J, args, ret); t = &S->th[S->cur]; if (!adv) goto outer; fr = &t->fr.back(); R = t->regs.data() + fr->rb; if (I.dst >= 0) R[I.dst] = ret[0]; pc++; break; }
        u64 va = 0; u64 sp0 = t->sp; u32 k = 0; np = cf->F->arg_size(); std::vector<std::pair<Val, u16>> extra;
        for (auto &g : *I.args) { if (k < np) { if (g.byval) { u64 src = concretize(OP(g.op), 64, "byval"); u64 d = stackAlloc(*t, g.byval, 16); chk(src, g.byval, false); S->mem.copy(d, src, g.byval); args.push_back(VC(d)); } else { for (unsigned i = 0; i < g.slots; i++) args.push_back(OPAT(g.op, i)); if (!g.slots) args.push_back(VC(0)); } } else for (unsigned i = 0; i < g.slots; i++) extra.push_back({OPAT(g.op, i), g.w}); k++; }
        if (cf->F->isVarArg()) { va = stackAlloc(*t, extra.size() * 8 + 8, 16); for (size_t i = 0; i < extra.size(); i++) { Val v = extra[i].first; if (v.e) v = toV(mkZext(v.e, 64)); S->mem.store(va + 8 * i, 8, v); } }
        pushFrame(*t, cf, I.dst, args, va); t->fr.back().sp = sp0; goto outer; }
      case I_INTR: { std::vector<Val> args; for (auto &g : *I.args) for (unsigned i = 0; i < g.slots; i++) args.push_back(OPAT(g.op, i)); Val ret[4] = {}; bool adv = doIntr(I, args, ret); t = &S->th[S->cur]; if (!adv) goto outer; fr = &t->fr.back(); R = t->regs.data() + fr->rb; if (I.dst >= 0) for (unsigned i = 0; i < I.nslots && i < 4; i++) R[I.dst + i] = ret[i]; pc++; break; }
      case I_UNREACH: viol("unreachable", "reached code marked unreachable");
      case I_FBIN: { u64 x = concretize(OP(I.a), I.w, "fp"), y = concretize(OP(I.b), I.w, "fp"); double a = asD(x, I.w), b = asD(y, I.w), r; switch (I.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); } R[I.dst] = VC(fromD(r, I.w)); pc++; break; }
      case I_FNEG: { u64 x = concretize(OP(I.a), I.w, "fp"); R[I.dst] = VC(fromD(-asD(x, I.w), I.w)); pc++; break; }
      case I_FCMP: { u64 x = concretize(OP(I.a), I.w, "fp"), y = concretize(OP(I.b), I.w, "fp"); double a = asD(x, I.w), b = asD(y, I.w); bool un = std::isnan(a) || std::isnan(b), r = false; switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } R[I.dst] = VC(r); pc++; break; }
      case I_FCVT: { u64 x = concretize(OP(I.a), I.w2, "fp conversion"); u64 r = 0; switch (I.sub) { case Instruction::SIToFP: r = fromD((double)sextw(x, I.w2), I.w); break; case Instruction::UIToFP: r = fromD((double)x, I.w); break; case Instruction::FPToSI: r = (u64)(i64)asD(x, I.w2) & maskw(I.w); break; case Instruction::FPToUI: r = (u64)asD(x, I.w2) & maskw(I.w); break; default: r = fromD(asD(x, I.w2), I.w); } R[I.dst] = VC(r); pc++; break; }
      case I_CMPXCHG: { u64 a = concretize(OP(I.a), 64, "cmpxchg"); unsigned n = (I.w + 7) / 8; chk(a, n, true); Val o = S->mem.load(a, n); Val e = OP(I.b); bool eq; if (!o.e && !e.e) eq = o.c == e.c; else eq = decide(mkE(E_EQ, 1, toE(o, I.w), toE(e, I.w))); Val nv = OP(I.c); R[I.dst] = o; R[I.dst + 1] = VC(eq); if (eq) S->mem.store(a, n, nv); pc++; break; }
      case I_RMW: { u64 a = concretize(OP(I.a), 64, "rmw"); unsigned n = (I.w + 7) / 8; chk(a, n, true); Val o = S->mem.load(a, n), v = OP(I.b), r; switch (I.sub) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = vbin(E_ADD, I.w, o, v); break; case AtomicRMWInst::Sub: r = vbin(E_SUB, I.w, o, v); break; case AtomicRMWInst::And: r = vbin(E_AND, I.w, o, v); break; case AtomicRMWInst::Or: r = vbin(E_OR, I.w, o, v); break; case AtomicRMWInst::Xor: r = vbin(E_XOR, I.w, o, v); break; default: unsupported("atomicrmw op"); } S->mem.store(a, n, r); R[I.dst] = o; pc++; break; }
      case I_BAD: default: { std::string s; raw_string_ostream os(s); os << *I.src; unsupported("instruction " + s.substr(0, 80)); }
      }
    }
  outer:;
  }
}
static Expr *boolOf(Val v, unsigned w) { return v.e ? (w == 1 ? v.e : mkNot(mkE(E_EQ, 1, v.e, mkConst(w, 0)))) : mkConst(1, v.c != 0); }
static bool doIntr(Ins &I, std::vector<Val> &A, Val *ret) {
  unsigned w = I.w;
  auto conc = [&](size_t i, const char *why) -> u64 { if (!A[i].e) return A[i].c; u64 r = concretize(A[i], A[i].e->w, why); return r; };
  switch (I.sub) {
  case X_MALLOC: { u64 n = conc(0, "malloc size"); u64 a = heapAlloc(n, 16); ret[0] = VC(a); return true; }
  case X_CALLOC: { u64 n = conc(0, "calloc"), m = conc(1, "calloc"); if (m && n > (1ULL << 40) / m) { ret[0] = VC(0); return true; } u64 a = heapAlloc(n * m, 16, 0); ret[0] = VC(a); return true; }
  case X_REALLOC: { u64 p = conc(0, "realloc"), n = conc(1, "realloc"); if (!p) { u64 a = heapAlloc(n, 16); ret[0] = VC(a); return true; } if (S->mem.load(p - 8, 8).c != 0xA110CA7EDULL) viol("memory", "realloc of a bad pointer"); u64 o = S->mem.load(p - 16, 8).c; if (n == 0) { heapFree(p); ret[0] = VC(0); return true; } u64 a = heapAlloc(n, 16); if (a) { S->mem.copy(a, p, std::min(o, n)); heapFree(p); } ret[0] = VC(a); return true; }
  case X_FREE: heapFree(conc(0, "free")); return true;
  case X_MEMALIGN: { u64 al = conc(0, "align"), n = conc(1, "memalign"); u64 a = heapAlloc(n, al); ret[0] = VC(a); return true; }
  case X_POSIX_MEMALIGN: { u64 p = conc(0, "p"), al = conc(1, "align"), n = conc(2, "n"); chk(p, 8, true); u64 a = heapAlloc(n, al); if (a) { S->mem.store(p, 8, VC(a)); } ret[0] = VC(a ? 0 : 12); return true; }
  case X_MEMCPY: case X_MEMMOVE: { u64 n = conc(2, "memcpy length"), d = conc(0, "memcpy dst"), s = conc(1, "memcpy src"); if (n) { chk(s, n, false); chk(d, n, true); S->mem.copy(d, s, n); } ret[0] = VC(d); return true; }
  case X_MEMSET: { u64 n = conc(2, "memset length"), d = conc(0, "memset dst"); Val v = A[1]; if (v.e) v = toV(mkExtract(v.e, 0, 8)); else v.c &= 0xff; if (n) { chk(d, n, true); S->mem.fill(d, n, v); } ret[0] = VC(d); return true; }
  case X_MEMCMP: { u64 n = conc(2, "memcmp length"), a = conc(0, "memcmp"), b = conc(1, "memcmp"); if (n == 0) { ret[0] = VC(0); return true; } chk(a, n, false); chk(b, n, false); bool sym = false; for (u64 i = 0; i < n && !sym; i++) if (S->mem.getb(a + i).e || S->mem.getb(b + i).e) sym = true;
      if (!sym) { for (u64 i = 0; i < n; i++) { u64 x = S->mem.getb(a + i).c, y = S->mem.getb(b + i).c; if (x != y) { ret[0] = VC(x < y ? 0xffffffffULL : 1); return true; } } ret[0] = VC(0); return true; }
      Expr *all = mkConst(1, 1), *ch = nullptr; std::vector<std::pair<Expr *, Expr *>> ps; for (u64 i = 0; i < n; i++) { Expr *x = toE(S->mem.getb(a + i), 8), *y = toE(S->mem.getb(b + i), 8); Expr *eq = mkE(E_EQ, 1, x, y); if (isC(eq) && eq->val) continue; ps.push_back({x, y}); all = mkAnd1(all, eq); if (isC(eq)) break; }
      if (ps.empty()) { ret[0] = VC(0); return true; }
      for (size_t i = ps.size(); i-- > 0;) { Expr *lt = mkE(E_ULT, 1, ps[i].first, ps[i].second); Expr *d = mkIte(lt, mkConst(32, 0xffffffff), mkConst(32, 1)); if (!ch) ch = d; else ch = mkIte(mkE(E_EQ, 1, ps[i].first, ps[i].second), ch, d); }
      ret[0] = toV(mkIte(all, mkConst(32, 0), ch)); return true; }
  case X_ABORT: viol("abort", "abort() called"); 
  case X_EXIT: { u64 c = conc(0, "exit"); S->obs.push_back(VC(0xE817 + c)); endPath(END_OK); return true; }
  case X_ASSERTFAIL: { std::string m = readCStr(A[0].c); viol("assert", "assertion in code failed: " + m); }
  case X_SYMVAL: { unsigned wd = conc(0, "w"); std::string nm = readCStr(A[1].c); u32 v = getVar(S->inputs.size(), wd); S->inputs.push_back({v, (u8)wd, nameId(nm)}); Expr *e = mkVar(wd, v); ret[0] = toV(mkZext(e, 64)); return true; }
  case X_SYMBYTES: { u64 p = conc(0, "p"), n = conc(1, "n"); std::string nm = readCStr(A[2].c); chk(p, n, true); for (u64 i = 0; i < n; i++) { u32 v = getVar(S->inputs.size(), 8); S->inputs.push_back({v, 8, nameId(nm)}); S->mem.setb(p + i, Val{mkVar(8, v), 0}); } return true; }
  case X_DIGITS: { // sym__digits(char *t, u64 v, int n): t[0..n) = decimal digits of v (most significant first), requires v < 10^n; exact definition by fresh digits
    u64 p = conc(0, "p"), n = conc(2, "n"); chk(p, n, true); Expr *v = A[1].e ? A[1].e : mkConst(64, A[1].c); u64 mv = evalE(v, *S->model); ModelP m = newModel(S->model); if (v->op != E_CONST && n > 1) S->fams.push_back({(u32)S->inputs.size(), (u32)n, v}); Expr *acc = mkConst(64, 0); std::vector<u64> dv(n); for (u64 i = n; i-- > 0;) { dv[i] = '0' + mv % 10; mv /= 10; }
    std::vector<Expr *> cs;
    for (u64 i = 0; i < n; i++) { u32 id = getVar(S->inputs.size(), 8); S->inputs.push_back({id, 8, nameId("!digit")}); if (m->v.size() <= id) m->v.resize(id + 1, 0); m->v[id] = dv[i]; Expr *c = mkVar(8, id); S->mem.setb(p + i, Val{c, 0});
      cs.push_back(mkE(E_ULE, 1, mkConst(8, '0'), c)); cs.push_back(mkE(E_ULE, 1, c, mkConst(8, '9')));
      acc = mkE(E_ADD, 64, mkE(E_MUL, 64, acc, mkConst(64, 10)), mkZext(mkE(E_SUB, 32, mkZext(c, 32), mkConst(32, '0')), 64)); }
    if (n > 1 && conc(3, "top")) cs.push_back(mkNot(mkE(E_EQ, 1, mkVar(8, getVar(S->inputs.size() - n, 8)), mkConst(8, '0')))); cs.push_back(mkE(E_EQ, 1, acc, v)); S->model = m; for (Expr *c : cs) if (!isC(c)) { if (!evalE(c, *m)) endPath(END_ERR, "digit definition"); S->addC(c); } return true; }
  case X_UNDIGITS: { // number of bytes at p that are exactly the digits an earlier sym__digits produced (0: none); *out = the value they denote
    u64 p = conc(0, "p"), q = conc(1, "out"); ret[0] = VC(0); if (!S->mem.valid(p, 1)) return true; Val b0 = S->mem.getb(p); if (!b0.e || b0.e->op != E_VAR) return true;
    for (auto &f : S->fams) { if (b0.e != mkVar(8, getVar(f.first, 8))) continue; bool ok = true; for (u32 i = 1; ok && i < f.n; i++) { if (!S->mem.valid(p + i, 1)) { ok = false; break; } Val b = S->mem.getb(p + i); ok = b.e == mkVar(8, getVar(f.first + i, 8)); }
      if (ok) { chk(q, 8, true); for (int k = 0; k < 8; k++) S->mem.setb(q + k, toV(mkExtract(f.v, 8 * k, 8))); ret[0] = VC(f.n); return true; } }
    return true; }
  case X_ASSUME: { SH->assumes++; Expr *c = boolOf(A[0], A[0].e ? A[0].e->w : 32); if (isC(c)) { if (!c->val) endPath(END_ASSUME); return true; } ModelP m; Res r = feasible(c, m); if (r == R_UNK) endPath(END_ERR, "solver unknown in assume"); if (r == R_UNSAT) endPath(END_ASSUME); S->model = m; S->addC(c); return true; }
  case X_ASSERT: { SH->asserts++; Expr *c = boolOf(A[0], A[0].e ? A[0].e->w : 32); if (isC(c)) { if (!c->val) { viol("property", readCStr(A[1].c)); } return true; } SH->assertsSym++; ModelP m; Res r = feasible(mkNot(c), m); if (r == R_SAT) { violation("property", readCStr(A[1].c), m); Res r2 = feasible(c, m); if (r2 != R_SAT) endPath(END_VIOL); S->model = m; S->addC(c); } else if (r == R_UNK) { bumpErr("solver unknown in assert " + readCStr(A[1].c)); S->addC(c); } return true; }
  case X_FAIL: viol("property", readCStr(A[0].c));
  case X_REACH: S->reach.push_back(reachId(readCStr(A[0].c))); return true;
  case X_OBSERVE: S->obs.push_back(A[0].e ? toV(mkZext(A[0].e, 64)) : A[0]); if (S->obs.size() > 5000) S->obs.pop_back(); return true;
  case X_CONC: { ret[0] = VC(conc(0, "sym_conc")); return true; }
  case X_NATIVE: ret[0] = VC(0); return true;
  case X_ISSYM: ret[0] = VC(A[0].e != nullptr); return true;
  case X_VALIDMEM: { u64 p = conc(0, "p"), n = conc(1, "n"); ret[0] = VC(S->mem.valid(p, n)); return true; }
  case X_POISON: { u64 p = conc(0, "p"), n = conc(1, "n"); S->mem.setValid(p, n, false); return true; }
  case X_UNPOISON: { u64 p = conc(0, "p"), n = conc(1, "n"); S->mem.setValid(p, n, true); return true; }
  case X_INSLIMIT: { u64 n = conc(0, "n"); S->insLimit = n ? S->ins + n : 0; S->limitMsg = n ? readCStr(A[1].c) : ""; return true; }
  case X_THNEW: { u64 fn = conc(0, "fn"); u64 i = (fn - FN_BASE) / 16; if (fn < FN_BASE || i >= fnByIdx.size()) viol("memory", "thread entry is a bad function pointer"); Val arg = A[1]; int id = S->th.size(); if (STACK_BASE + (u64)(id + 1) * STACK_SZ > HEAP_BASE) unsupported("too many threads"); S->th.emplace_back(); Thread &t = S->th.back(); t.sp = STACK_BASE + (u64)id * STACK_SZ; pushFrame(t, fnByIdx[i], -1, {arg}, 0); ret[0] = VC(id); 
      return true; }
  case X_THSWITCH: { u64 id = conc(0, "thread"); if (id >= S->th.size()) unsupported("bad thread id"); Thread &c = S->th[S->cur]; c.fr.back().pc++; S->cur = id; return false; }
  case X_THSELF: ret[0] = VC(S->cur); return true;
  case X_END: endPath(END_OK); return true;
  case X_HEAPLIVE: ret[0] = VC(conc(0, "k") ? S->liveBytes : S->live); return true;
  case X_PRINT: if (optVerbose) fprintf(stderr, "PRINT %s\n", readCStr(conc(0, "p")).c_str()); return true;
  case X_PRINTV: if (optVerbose) { std::string s = A[1].e ? exprStr(A[1].e, 12) + " model=" + std::to_string(evalE(A[1].e, *S->model)) : std::to_string((i64)A[1].c); fprintf(stderr, "PRINT %s = %s\n", readCStr(A[0].c).c_str(), s.c_str()); } return true;
  case X_VASTART: { u64 l = conc(0, "va"); Frame &fr = S->th[S->cur].fr.back(); chk(l, 24, true); S->mem.store(l, 4, VC(48)); S->mem.store(l + 4, 4, VC(304)); S->mem.store(l + 8, 8, VC(fr.va)); S->mem.store(l + 16, 8, VC(0)); return true; }
  case X_VACOPY: { u64 d = conc(0, "va"), s = conc(1, "va"); S->mem.copy(d, s, 24); return true; }
  case X_BSWAP: { if (!A[0].e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((A[0].c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); ret[0] = VC(r); } else { Expr *e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(A[0].e, 8 * i, 8); e = e ? mkConcat(e, b) : b; } ret[0] = toV(e); } return true; }
  case X_CTPOP: { if (!A[0].e) ret[0] = VC(__builtin_popcountll(A[0].c)); else { Expr *s = mkConst(w, 0); for (unsigned i = 0; i < w; i++) s = mkE(E_ADD, w, s, mkZext(mkExtract(A[0].e, i, 1), w)); ret[0] = toV(s); } return true; }
  case X_CTLZ: { if (!A[0].e) ret[0] = VC(A[0].c ? __builtin_clzll(A[0].c) - (64 - w) : w); else { Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(A[0].e, i, 1), mkConst(w, w - 1 - i), r); ret[0] = toV(r); } return true; }
  case X_CTTZ: { if (!A[0].e) ret[0] = VC(A[0].c ? __builtin_ctzll(A[0].c) : w); else { Expr *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(A[0].e, i, 1), mkConst(w, i), r); ret[0] = toV(r); } return true; }
  case X_FSHL: case X_FSHR: { u64 s = conc(2, "funnel shift") % w; if (I.sub == X_FSHR) { if (s == 0) { ret[0] = A[1]; return true; } s = w - s; } if (s == 0) { ret[0] = A[0]; return true; } ret[0] = vbin(E_OR, w, vbin(E_SHL, w, A[0], VC(s)), vbin(E_LSHR, w, A[1], VC(w - s))); return true; }
  case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: { EOp o = I.sub == X_UMIN || I.sub == X_UMAX ? E_ULT : E_SLT; bool mn = I.sub == X_UMIN || I.sub == X_SMIN; if (!A[0].e && !A[1].e) { bool lt = foldBin(o, w, A[0].c, A[1].c); ret[0] = lt == mn ? A[0] : A[1]; } else { Expr *a = toE(A[0], w), *b = toE(A[1], w); Expr *c = mkE(o, w, a, b); ret[0] = toV(mn ? mkIte(c, a, b) : mkIte(c, b, a)); } return true; }
  case X_ABS: { Expr *a = toE(A[0], w); ret[0] = toV(mkIte(mkE(E_SLT, w, a, mkConst(w, 0)), mkE(E_SUB, w, mkConst(w, 0), a), a)); return true; }
  case X_USUBSAT: { Expr *a = toE(A[0], w), *b = toE(A[1], w); ret[0] = toV(mkIte(mkE(E_ULT, w, a, b), mkConst(w, 0), mkE(E_SUB, w, a, b))); return true; }
  case X_UADDSAT: { Expr *a = toE(A[0], w), *b = toE(A[1], w); Expr *s = mkE(E_ADD, w, a, b); ret[0] = toV(mkIte(mkE(E_ULT, w, s, a), mkConst(w, ~0ULL), s)); return true; }
  case X_SADDO: case X_UADDO: case X_SSUBO: case X_USUBO: case X_SMULO: case X_UMULO: { unsigned ww = I.w2; Expr *a = toE(A[0], ww), *b = toE(A[1], ww); Expr *r, *o;
      switch (I.sub) { case X_UADDO: r = mkE(E_ADD, ww, a, b); o = mkE(E_ULT, ww, r, a); break; case X_USUBO: r = mkE(E_SUB, ww, a, b); o = mkE(E_ULT, ww, a, b); break;
        case X_SADDO: { r = mkE(E_ADD, ww, a, b); Expr *sa = mkExtract(a, ww - 1, 1), *sb = mkExtract(b, ww - 1, 1), *sr = mkExtract(r, ww - 1, 1); o = mkAnd1(mkE(E_EQ, 1, sa, sb), mkNot(mkE(E_EQ, 1, sa, sr))); break; }
        case X_SSUBO: { r = mkE(E_SUB, ww, a, b); Expr *sa = mkExtract(a, ww - 1, 1), *sb = mkExtract(b, ww - 1, 1), *sr = mkExtract(r, ww - 1, 1); o = mkAnd1(mkNot(mkE(E_EQ, 1, sa, sb)), mkNot(mkE(E_EQ, 1, sa, sr))); break; }
        default: { if (ww > 32 && (!isC(a) || !isC(b))) { if (I.sub == X_UMULO) { r = mkE(E_MUL, ww, a, b); Expr *z = mkE(E_EQ, ww, a, mkConst(ww, 0)); o = mkAnd1(mkNot(z), mkNot(mkE(E_EQ, ww, mkE(E_UDIV, ww, r, mkIte(z, mkConst(ww, 1), a)), b))); break; } unsupported("wide smul.with.overflow"); }
          if (ww > 32) { unsigned __int128 p = I.sub == X_UMULO ? (unsigned __int128)a->val * b->val : (unsigned __int128)((__int128)(i64)a->val * (i64)b->val); r = mkConst(ww, (u64)p); o = mkConst(1, I.sub == X_UMULO ? (p >> 64) != 0 : (__int128)p != (__int128)(i64)(u64)p); break; }
          Expr *x = I.sub == X_UMULO ? mkZext(a, 2 * ww) : mkSext(a, 2 * ww), *y = I.sub == X_UMULO ? mkZext(b, 2 * ww) : mkSext(b, 2 * ww); Expr *p = mkE(E_MUL, 2 * ww, x, y); r = mkExtract(p, 0, ww); o = mkNot(mkE(E_EQ, 2 * ww, p, I.sub == X_UMULO ? mkZext(r, 2 * ww) : mkSext(r, 2 * ww))); } }
      ret[0] = toV(r); ret[1] = toV(o); return true; }
  case X_EXPECT: ret[0] = A[0]; return true;
  case X_OBJSIZE: ret[0] = VC(~0ULL); return true;
  case X_ISCONST: ret[0] = VC(0); return true;
  case X_STACKSAVE: ret[0] = VC(S->th[S->cur].sp); return true;
  case X_STACKRESTORE: { Thread &t = S->th[S->cur]; u64 p = conc(0, "sp"); if (p < t.sp) { S->mem.setValid(p, t.sp - p, false); t.sp = p; } return true; }
  case X_TLS: ret[0] = A[0]; return true;
  case X_FABS: { u64 x = conc(0, "fp"); ret[0] = VC(fromD(fabs(asD(x, w)), w)); return true; }
  case X_FMATH: { const std::string &n = *I.msg; double a = asD(conc(0, "fp"), w), r; if (n.find("fmuladd") != std::string::npos) r = a * asD(conc(1, "fp"), w) + asD(conc(2, "fp"), w); else if (n.find("floor") != std::string::npos) r = floor(a); else if (n.find("ceil") != std::string::npos) r = ceil(a); else if (n.find("sqrt") != std::string::npos) r = sqrt(a); else if (n.find("log10") != std::string::npos) r = log10(a); else if (n.find("log") != std::string::npos) r = log(a); else r = exp(a); ret[0] = VC(fromD(r, w)); return true; }
  }
  unsupported("intrinsic " + *I.msg); return true;
}
// ---------------------------------------------------------------- module setup
static void initBytes(u64 a, const Constant *C) {
  Type *T = C->getType(); u64 sz = DL->getTypeAllocSize(T);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) { if (cd->getElementType()->isFloatingPointTy()) S->mem.store(a + i * es, es, VC(cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue())); else S->mem.store(a + i * es, es, VC(cd->getElementAsInteger(i))); } return; }
  if (auto *s = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(a + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *r = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(r->getType()->getElementType()); for (unsigned i = 0; i < r->getNumOperands(); i++) initBytes(a + i * es, r->getOperand(i)); return; }
  bool ok = true; u64 v = constVal(C, ok); if (!ok) { errs() << "symx: cannot evaluate constant " << *C << "\n"; } if (sz > 8) { errs() << "symx: wide constant " << *C << "\n"; sz = 8; } S->mem.store(a, sz, VC(v));
}
static void writeResult(const char *status) {
  std::string o = "{"; auto num = [&](const char *k, u64 v) { o += "\"" + std::string(k) + "\":" + std::to_string(v) + ","; };
  num("paths", SH->paths); num("paths_ok", SH->pathsOk); num("paths_assume_pruned", SH->pathsAssume); num("paths_viol", SH->pathsViol); num("paths_err", SH->pathsErr); num("paths_dropped", SH->pathsDropped); num("forks", SH->forks); num("instructions", SH->insns); num("queries", SH->queries); num("sat", SH->qsat); num("unsat", SH->qunsat); num("order_unsat", SH->qorder); num("order_sat", SH->qosat); num("unknown", SH->qunk); num("cache_hits", SH->cacheHits); num("solver_usec", SH->usec); num("max_query_usec", SH->maxUsec); num("asserts", SH->asserts); num("asserts_symbolic", SH->assertsSym); num("assumes", SH->assumes); num("sym_branches", SH->branchesSym); num("max_path_ins", SH->maxPathIns); num("concretizations", SH->concretizations); num("violations", SH->viols); num("procs", SH->procs); num("unknown_dropped", SH->unkDropped);
  o += "\"reach\":{"; for (u64 i = 0; i < SH->nreach; i++) o += (i ? "," : "") + std::string("\"") + jesc(SH->reachNames[i]) + "\":" + std::to_string((u64)SH->reachCnt[i]); o += "},";
  o += "\"errors\":{"; for (u64 i = 0; i < SH->nerr; i++) o += (i ? "," : "") + std::string("\"") + jesc(SH->errNames[i]) + "\":" + std::to_string((u64)SH->errCnt[i]); o += "},";
  o += "\"functions\":["; bool first = true; std::string cf;
  for (auto *f : fnByIdx) if (f->isRepo && f->nbb) { u32 c = 0; for (u32 i = 0; i < f->nbb; i++) c += cov[f->bb0 + i]; if (c) { o += (first ? "" : ",") + std::string("[\"") + jesc(f->F->getName().str()) + "\"," + std::to_string(c) + "," + std::to_string(f->nbb) + "]"; first = false; } }
  o += "],"; o += "\"complete\":" + std::string(SH->pathsDropped == 0 && SH->pathsErr == 0 && SH->unkDropped == 0 && !SH->stop ? "true" : "false") + ",";
  o += "\"status\":\"" + std::string(status) + "\",\"wall\":" + std::to_string(now() - tStart) + "}"; FILE *fp = fopen((optOut + ".json").c_str(), "w"); fputs(o.c_str(), fp); fclose(fp);
  if (!optDumpCov.empty()) { FILE *c = fopen(optDumpCov.c_str(), "w"); for (auto *f : fnByIdx) if (f->isRepo && f->nbb) { u32 i = 0; for (auto &B : *f->F) { std::set<std::string> ls; for (auto &I : B) { auto l = locStr(&I); if (!l.empty() && !isa<PHINode>(I)) ls.insert(l); } for (auto &l : ls) fprintf(c, "%d %s %s\n", cov[f->bb0 + i], l.c_str(), f->F->getName().str().c_str()); i++; } } fclose(c); }
}
int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (900ULL << 20)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ULL << 30) : std::min<rlim_t>(rl.rlim_max, 1ULL << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("SYMX_REEXEC")) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  std::vector<std::string> files; u64 rlimit = 6000000; bool noopt = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-time") optTime = atof(nx().c_str()); else if (a == "-jobs") optJobs = atoi(nx().c_str()); else if (a == "-out") optOut = nx(); else if (a == "-entry") optEntry = nx(); else if (a == "-repo") optRepo = nx(); else if (a == "-maxviol") optMaxViol = atoll(nx().c_str()); else if (a == "-samples") optSamples = atoll(nx().c_str()); else if (a == "-v") optVerbose = true; else if (a == "-seed") optSeed = atoll(nx().c_str()); else if (a == "-rlimit") rlimit = atoll(nx().c_str()); else if (a == "-maxins") optMaxIns = atoll(nx().c_str()); else if (a == "-noopt") noopt = true; else if (a == "-cov") optDumpCov = nx(); else if (a == "-mux") optMuxMax = atoll(nx().c_str()); else if (a == "-bfs") optBfs = true; else files.push_back(a); }
  tStart = now(); SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  unlink((optOut + ".viol").c_str()); unlink((optOut + ".samp").c_str()); unlink((optOut + ".json").c_str());
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod;
  for (auto &f : files) { auto m = parseIRFile(f, err, ctx); if (!m) { err.print("symx", errs()); return 3; } if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) { errs() << "link error " << f << "\n"; return 3; } }
  if (!mod) return 3; M = mod.get(); DL = &M->getDataLayout();
  if (!noopt) { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); ModulePassManager MPM; const char *pl = getenv("SYMX_PASSES"); if (auto e = PB.parsePassPipeline(MPM, pl ? pl : "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)")) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 3; } MPM.run(*M, MAM); }
  for (auto &F : *M) { if (F.isIntrinsic()) continue; FInfo *f = new FInfo; f->F = &F; f->addr = FN_BASE + 16 * fnByIdx.size(); fnByIdx.push_back(f); fns[&F] = f; f->vararg = F.isVarArg();
    auto it = intrTab.find(F.getName().str()); if (it != intrTab.end()) f->intr = it->second;
    if (auto *sp = F.getSubprogram()) { std::string p = sp->getFilename().str(); if (p[0] != '/') p = sp->getDirectory().str() + "/" + p; f->isRepo = p.compare(0, optRepo.size(), optRepo) == 0; }
    f->bb0 = covN; f->nbb = F.size(); covN += f->nbb ? f->nbb : 1; }
  cov = (u8 *)mmap(nullptr, covN + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_solver.init(rlimit); g_where = whereStr;
  S = new State; S->mem.init(); S->model = newModel(nullptr);
  u64 ca = CONST_BASE, ga = GLOB_BASE; std::string undef;
  for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); u64 &p = G.isConstant() ? ca : ga; p = (p + 32 + al - 1) & ~(al - 1); gvAddr[&G] = p; p += sz; if (!G.hasInitializer()) undef += " " + G.getName().str(); }
  constEnd = ca + 16;
  for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 a = gvAddr[&G], sz = DL->getTypeAllocSize(G.getValueType()); if (!sz) continue; S->mem.setValid(a, sz, true); S->mem.fill(a, sz, VC(0)); if (G.hasInitializer()) initBytes(a, G.getInitializer()); }
  if (!undef.empty()) fprintf(stderr, "symx: undefined globals (zero):%s\n", undef.c_str());
  { std::string ud; for (auto *f : fnByIdx) if (f->F->isDeclaration() && f->intr < 0 && !f->F->use_empty()) ud += " " + f->F->getName().str(); if (!ud.empty() && optVerbose) fprintf(stderr, "symx: undefined functions:%s\n", ud.c_str()); }
  Function *E = M->getFunction(optEntry); if (!E) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  S->th.emplace_back(); S->th[0].sp = STACK_BASE;
  { std::vector<Val> args; for (unsigned i = 0; i < E->arg_size(); i++) args.push_back(VC(0)); pushFrame(S->th[0], fnInfo(E), -1, args, 0); }
  tDeadline = now() + optTime; SH->active = 1; work.push_back(S);
  while (!work.empty()) {
    if (SH->stop || now() > tDeadline) { SH->pathsDropped += work.size(); break; }
    S = work.back(); work.pop_back();
    try { maybeSplit(); runState(); } catch (PathEnd &) {}
    killState(S); S = nullptr;
  }
  syncStats(); SH->active--;
  // reap children
  int st; while (true) { pid_t p = wait(&st); if (p < 0) break; if (WIFSIGNALED(st)) { bumpErr("worker killed by signal"); SH->pathsErr++; SH->active--; } }
  if (isChild) _exit(0);
  writeResult(SH->viols ? "violation" : "done");
  if (optVerbose) fprintf(stderr, "paths %llu ok %llu err %llu dropped %llu viol %llu order %llu queries %llu unsat %llu unk %llu solver %.2fs wall %.2fs ins %lluM forks %llu procs %llu\n", (unsigned long long)SH->paths, (unsigned long long)SH->pathsOk, (unsigned long long)SH->pathsErr, (unsigned long long)SH->pathsDropped, (unsigned long long)SH->viols, (unsigned long long)SH->qorder, (unsigned long long)SH->queries, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, SH->usec / 1e6, now() - tStart, (unsigned long long)SH->insns / 1000000, (unsigned long long)SH->forks, (unsigned long long)SH->procs);
  fflush(stdout); fflush(stderr); _exit(0);
}
