#include <thread>
// Symbolic executor for LLVM IR.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/InstIterator.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <random>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>

using namespace llvm;

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<Val> pool; // constant pool
static std::map<const Constant *, int32_t> poolIdx;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static std::map<uint64_t, Ref> constMem; // read-only globals
static std::unordered_map<const Function *, std::unique_ptr<Func>> funcs;
static std::map<std::string, int64_t> cfg;
static std::string libPrefix = "/repo/src";

// options
static double maxTime = 600; static uint64_t maxPaths = 1000000, maxSteps = 200000000, maxTotal = ~0ull; static unsigned maxViol = 12;
static bool verbose = false; static std::string outFile; static std::string vecDir; static unsigned nSamples = 4; static unsigned searchSeed = 0;
static std::string entryName = "main";

// statistics
static uint64_t nPaths = 0, nForks = 0, nSteps = 0, nBranchSym = 0, nAssumeKill = 0, nIncomplete = 0, nStates = 1, nConcretised = 0, nChecks = 0, nChecksSymbolic = 0, nHuge = 0, nIdentity = 0;
static std::map<std::string, uint64_t> covers, incompleteWhy;
static std::set<const Inst *> unknownSites;
struct Viol { std::string kind, msg, where; std::vector<std::string> trace; std::vector<std::pair<std::string, uint64_t>> in; std::vector<std::string> free; std::vector<unsigned> w; };
static std::vector<Viol> viols; static std::map<std::string, int> violKeys;
static std::vector<std::vector<std::pair<std::string, uint64_t>>> samples; 
static std::vector<std::unique_ptr<State>> work;
static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct PathEnd { int kind; }; // 0 done, 1 killed, 2 violation

static bool laneList(Type *T, uint64_t off, std::vector<Lane> &out) {
  if (T->isVoidTy()) return true;
  if (auto *IT = dyn_cast<IntegerType>(T)) {
    unsigned w = IT->getBitWidth();
    if (w <= 64) { out.push_back({(uint16_t)w, (uint32_t)off}); return true; }
    if (w == 128) { out.push_back({64, (uint32_t)off}); out.push_back({64, (uint32_t)off + 8}); return true; }
    out.push_back({(uint16_t)w, (uint32_t)off}); return false;
  }
  if (T->isPointerTy()) { out.push_back({64, (uint32_t)off}); return true; }
  if (T->isFloatTy()) { out.push_back({32, (uint32_t)off}); return true; }
  if (T->isDoubleTy()) { out.push_back({64, (uint32_t)off}); return true; }
  if (auto *ST = dyn_cast<StructType>(T)) {
    const StructLayout *SL = DL->getStructLayout(ST); bool ok = true;
    for (unsigned i = 0; i < ST->getNumElements(); i++) ok &= laneList(ST->getElementType(i), off + SL->getElementOffset(i), out);
    return ok;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t sz = DL->getTypeAllocSize(AT->getElementType()); bool ok = true;
    for (uint64_t i = 0; i < AT->getNumElements(); i++) ok &= laneList(AT->getElementType(), off + i * sz, out);
    return ok;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    uint64_t sz = DL->getTypeStoreSize(VT->getElementType()); bool ok = true;
    for (unsigned i = 0; i < VT->getNumElements(); i++) ok &= laneList(VT->getElementType(), off + i * sz, out);
    return ok;
  }
  out.push_back({80, (uint32_t)off});
  return false;
}
static unsigned nLanes(Type *T) { std::vector<Lane> l; laneList(T, 0, l); return (unsigned)l.size(); }
static unsigned scalarW(Type *T) { T = T->getScalarType(); if (T->isPointerTy()) return 64; if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() > 255 ? 255 : I->getBitWidth(); return 80; }

// ---- constants ---------------------------------------------------------
static void constLanes(const Constant *C, std::vector<Val> &out);
static uint64_t constAddr(const Constant *C) { std::vector<Val> v; constLanes(C, v); return v.at(0).c; }
static void constLanes(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() == 128) { out.push_back(V(CI->getValue().extractBitsAsZExtValue(64, 0))); out.push_back(V(CI->getValue().extractBitsAsZExtValue(64, 64))); return; }
    out.push_back(V(CI->getBitWidth() <= 64 ? CI->getZExtValue() : 0)); return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    if (T->isFloatTy() || T->isDoubleTy()) out.push_back(V(CF->getValueAPF().bitcastToAPInt().getZExtValue())); else out.push_back(V(0));
    return;
  }
  if (isa<ConstantPointerNull>(C)) { out.push_back(V(0)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { unsigned n = nLanes(T); for (unsigned i = 0; i < n; i++) out.push_back(V(0)); return; }
  if (auto *GA = dyn_cast<GlobalAlias>(C)) { constLanes(GA->getAliasee(), out); return; }
  if (auto *GV = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(GV); if (it == gaddr.end()) { errs() << "no address for " << GV->getName() << "\n"; abort(); } out.push_back(V(it->second)); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) constLanes(CA->getOperand(i), out); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constLanes(CD->getElementAsConstant(i), out); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      uint64_t b = constAddr(CE->getOperand(0));
      if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; abort(); }
      out.push_back(V(b + (uint64_t)off.getSExtValue())); return;
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: constLanes(CE->getOperand(0), out); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: out.push_back(V(constAddr(CE->getOperand(0)) & maskw(scalarW(T)))); return;
    case Instruction::Sub: out.push_back(V((constAddr(CE->getOperand(0)) - constAddr(CE->getOperand(1))) & maskw(scalarW(T)))); return;
    case Instruction::Add: out.push_back(V((constAddr(CE->getOperand(0)) + constAddr(CE->getOperand(1))) & maskw(scalarW(T)))); return;
    case Instruction::ICmp: {
      uint64_t a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1)); bool r = false;
      switch (cast<ConstantExpr>(CE)->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: errs() << "icmp const\n"; abort(); }
      out.push_back(V(r)); return;
    }
    default: errs() << "constexpr " << *CE << "\n"; abort();
    }
  }
  errs() << "const? " << *C << "\n"; abort();
}
static int32_t constOp(const Constant *C) {
  auto it = poolIdx.find(C); if (it != poolIdx.end()) return it->second;
  std::vector<Val> v; constLanes(C, v);
  int32_t idx = (int32_t)pool.size();
  for (auto &x : v) pool.push_back(x);
  if (v.empty()) pool.push_back(V(0));
  return poolIdx[C] = ~idx;
}
static void initBytes(const Constant *C, uint64_t off, MemObj &o) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { StringRef r = CD->getRawDataValues(); memcpy(&o.b[off], r.data(), r.size()); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < CA->getNumOperands(); i++) initBytes(CA->getOperand(i), off + SL->getElementOffset(i), o); }
    else { Type *ET = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<VectorType>(T)->getElementType(); uint64_t s = DL->getTypeAllocSize(ET); for (unsigned i = 0; i < CA->getNumOperands(); i++) initBytes(CA->getOperand(i), off + i * s, o); }
    return;
  }
  if (T->isX86_FP80Ty()) { auto v = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); memcpy(&o.b[off], v.getRawData(), 10); return; }
  std::vector<Lane> l; laneList(T, off, l);
  std::vector<Val> v; constLanes(C, v);
  for (size_t i = 0; i < v.size(); i++) memcpy(&o.b[l[i].off], &v[i].c, (l[i].w + 7) / 8);
}

// ---- function compilation ---------------------------------------------
int builtinId(const std::string &n);
enum { OP_BUILTIN_INTRINSIC = 1000 };

static std::string locOf(const Inst *i) {
  if (!i || !i->I) return "?";
  std::string s;
  if (auto L = i->I->getDebugLoc()) {
    DILocation *d = L.get();
    s = (d->getFilename() + ":" + Twine(d->getLine())).str();
  } else s = "?";
  s += std::string(" in ") + i->I->getFunction()->getName().str();
  return s;
}

static Func *getFunc(Function *F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second.get();
  auto up = std::make_unique<Func>(); Func *f = up.get();
  f->F = F; f->name = F->getName().str();
  funcs[F] = std::move(up);
  if (auto *SP = F->getSubprogram()) { std::string fn = SP->getFilename().str(), d = SP->getDirectory().str(); if (!fn.empty() && fn[0] != '/') fn = d + "/" + fn; f->lib = fn.compare(0, libPrefix.size(), libPrefix) == 0; }
  std::unordered_map<const Value *, int32_t> reg;
  uint32_t n = 0;
  for (auto &A : F->args()) { unsigned l = nLanes(A.getType()); reg[&A] = n; f->argReg.push_back(n); f->argLanes.push_back(l); n += l; }
  std::unordered_map<const BasicBlock *, uint32_t> bidx; uint32_t bi = 0;
  for (auto &BB : *F) { bidx[&BB] = bi++; for (auto &I : BB) if (!I.getType()->isVoidTy()) { reg[&I] = n; n += nLanes(I.getType()); } }
  f->nregs = n;
  auto op = [&](const Value *v) -> int32_t {
    if (auto *C = dyn_cast<Constant>(v)) return constOp(C);
    auto i = reg.find(v); if (i == reg.end()) { return constOp(UndefValue::get(Type::getInt64Ty(LC))); } return i->second;
  };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> Edge {
    Edge e; e.target = bidx[to];
    for (auto &P : to->phis()) {
      Value *in = P.getIncomingValueForBlock(from); int32_t s = op(in), d = reg[&P]; unsigned l = nLanes(P.getType());
      for (unsigned k = 0; k < l; k++) e.copies.push_back({d + (int32_t)k, s >= 0 ? s + (int32_t)k : ~(~s + (int32_t)k)});
    }
    return e;
  };
  for (auto &BB : *F) {
    f->blockStart.push_back((uint32_t)f->code.size());
    for (auto &I : BB) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst x; x.I = &I; x.op = (uint16_t)I.getOpcode();
      if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; x.nl = (uint16_t)nLanes(I.getType()); x.w = (uint8_t)scalarW(I.getType()); } else x.nl = 0;
      switch (I.getOpcode()) {
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.ops.push_back(op(A.getArraySize())); x.w2 = (uint8_t)Log2(A.getAlign()); break; }
      case Instruction::Load: laneList(I.getType(), 0, x.lanes); x.ops.push_back(op(I.getOperand(0))); x.imm = DL->getTypeStoreSize(I.getType()); break;
      case Instruction::Store: laneList(I.getOperand(0)->getType(), 0, x.lanes); x.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; x.imm = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
      case Instruction::GetElementPtr: {
        auto *G = cast<GEPOperator>(&I); x.ops.push_back(op(G->getPointerOperand())); int64_t coff = 0;
        if (G->getType()->isVectorTy()) { x.op = 9999; break; }
        for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (StructType *ST = gi.getStructTypeOrNull()) coff += (int64_t)DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
          else { int64_t s = (int64_t)DL->getTypeAllocSize(gi.getIndexedType()); if (auto *CI = dyn_cast<ConstantInt>(idx)) coff += CI->getSExtValue() * s; else { x.gep.push_back({op(idx), s}); x.gepw.push_back((uint8_t)scalarW(idx->getType())); } }
        }
        x.imm = (uint64_t)coff; break;
      }
      case Instruction::ICmp: case Instruction::FCmp: x.pred = (uint8_t)cast<CmpInst>(I).getPredicate(); x.w2 = (uint8_t)scalarW(I.getOperand(0)->getType()); x.ops = {op(I.getOperand(0)), op(I.getOperand(1))};
        if (I.getOperand(0)->getType()->isIntegerTy(128)) x.w2 = 128; break;
      case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { x.ops.push_back(op(B.getCondition())); x.edges.push_back(edge(&BB, B.getSuccessor(0))); x.edges.push_back(edge(&BB, B.getSuccessor(1))); } else x.edges.push_back(edge(&BB, B.getSuccessor(0))); break; }
      case Instruction::Switch: { auto &S = cast<SwitchInst>(I); x.ops.push_back(op(S.getCondition())); x.w2 = (uint8_t)scalarW(S.getCondition()->getType()); x.edges.push_back(edge(&BB, S.getDefaultDest())); for (auto &c : S.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&BB, c.getCaseSuccessor())); } break; }
      case Instruction::Ret: if (I.getNumOperands()) { x.ops.push_back(op(I.getOperand(0))); x.nl = (uint16_t)nLanes(I.getOperand(0)->getType()); } break;
      case Instruction::ExtractValue: {
        auto &EV = cast<ExtractValueInst>(I); Type *T = EV.getAggregateOperand()->getType(); unsigned o = 0;
        for (unsigned idx : EV.indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < idx; k++) o += nLanes(ST->getElementType(k)); T = ST->getElementType(idx); } else { Type *ET = cast<ArrayType>(T)->getElementType(); o += idx * nLanes(ET); T = ET; } }
        x.ops.push_back(op(EV.getAggregateOperand())); x.imm = o; break;
      }
      case Instruction::InsertValue: {
        auto &IV = cast<InsertValueInst>(I); Type *T = IV.getType(); unsigned o = 0;
        for (unsigned idx : IV.indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < idx; k++) o += nLanes(ST->getElementType(k)); T = ST->getElementType(idx); } else { Type *ET = cast<ArrayType>(T)->getElementType(); o += idx * nLanes(ET); T = ET; } }
        x.ops = {op(IV.getAggregateOperand()), op(IV.getInsertedValueOperand())}; x.imm = o; x.w2 = (uint8_t)nLanes(T); break;
      }
      case Instruction::ExtractElement: x.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; x.imm = nLanes(I.getOperand(0)->getType()); break;
      case Instruction::InsertElement: x.ops = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; break;
      case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); x.ops = {op(S.getOperand(0)), op(S.getOperand(1))}; x.imm = nLanes(S.getOperand(0)->getType()); for (int m : S.getShuffleMask()) x.clauses.push_back(m); break; }
      case Instruction::LandingPad: {
        auto &L = cast<LandingPadInst>(I); x.cleanup = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) { x.clauseKind.push_back(L.isCatch(i) ? 1 : 2); x.clauses.push_back(L.isCatch(i) ? op(L.getClause(i)) : 0); }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &CB = cast<CallBase>(I);
        Value *cv = CB.getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
        x.callee = dyn_cast<Function>(cv);
        if (isa<InlineAsm>(cv)) { x.builtin = -3; }
        for (unsigned i = 0; i < CB.arg_size(); i++) {
          Value *a = CB.getArgOperand(i);
          if (a->getType()->isMetadataTy()) { x.ops.push_back(constOp(ConstantInt::get(Type::getInt64Ty(LC), 0))); x.argLanes.push_back(1); x.argByval.push_back(0); continue; }
          x.ops.push_back(op(a)); x.argLanes.push_back((uint16_t)nLanes(a->getType()));
          x.argByval.push_back(CB.isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(CB.getParamByValType(i)) : 0);
        }
        if (x.callee && x.callee->isIntrinsic()) { x.builtin = OP_BUILTIN_INTRINSIC; x.imm = x.callee->getIntrinsicID(); if (CB.arg_size()) x.w2 = (uint8_t)scalarW(CB.getArgOperand(0)->getType()); }
        else if (x.callee) { int b = builtinId(x.callee->getName().str()); if (b >= 0) x.builtin = b; else if (x.callee->isDeclaration()) x.builtin = -2; }
        else if (x.builtin != -3) { x.builtin = -4; x.ops.push_back(op(CB.getCalledOperand())); }
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { x.edges.push_back(edge(&BB, IV->getNormalDest())); x.edges.push_back(edge(&BB, IV->getUnwindDest())); }
        break;
      }
      case Instruction::Select: x.ops = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; x.imm = nLanes(I.getOperand(0)->getType()); laneList(I.getType(), 0, x.lanes); break;
      case Instruction::AtomicRMW: x.pred = (uint8_t)cast<AtomicRMWInst>(I).getOperation(); x.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
      case Instruction::AtomicCmpXchg: x.ops = {op(I.getOperand(0)), op(I.getOperand(1)), op(I.getOperand(2))}; x.w = (uint8_t)scalarW(I.getOperand(1)->getType()); break;
      default:
        for (auto &o : I.operands()) { if (isa<BasicBlock>(o)) continue; x.ops.push_back(op(o)); }
        if (I.getNumOperands()) { x.w2 = (uint8_t)scalarW(I.getOperand(0)->getType()); if (I.getOperand(0)->getType()->isIntegerTy(128)) x.w2 = 128; }
        if (isa<BitCastInst>(I)) { laneList(I.getType(), 0, x.lanes); x.imm = nLanes(I.getOperand(0)->getType()); }
      }
      if (I.getType()->isIntegerTy(128)) x.w = 128;
      f->code.push_back(std::move(x));
    }
  }
  return f;
}

// ---- state helpers ------------------------------------------------------
static inline Val &R(State &s, int32_t r) { return s.regs[s.stack.back().base + r]; }
static inline const Val &OPV(State &s, int32_t o) { return o >= 0 ? s.regs[s.stack.back().base + o] : pool[~o]; }
static inline const Val &OPL(State &s, int32_t o, unsigned lane) { return o >= 0 ? s.regs[s.stack.back().base + o + lane] : pool[~o + lane]; }
static inline int32_t lop(int32_t o, int lane) { return o >= 0 ? o + lane : ~(~o + lane); }

static const Inst *curInst(State &s) { if (s.stack.empty()) return nullptr; auto &f = s.stack.back(); return &f.f->code[f.pc]; }

static void addC(State &s, E c) {
  if (c->isC()) return;
  if (c->kind == K_AND && c->w == 1) { addC(s, c->a[0]); addC(s, c->a[1]); return; }
  if (s.csIds.insert(c->id).second) s.cs.push_back(c);
}
static std::vector<std::pair<std::string, uint64_t>> inputsOf(State &s, const Model &m) {
  std::vector<std::pair<std::string, uint64_t>> r;
  for (auto &i : s.inputs) r.push_back({i.first, i.second.e ? evalExpr(i.second.e, m) : i.second.c});
  return r;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  const Inst *ci = curInst(s);
  // the innermost frame inside the code under test, else innermost
  std::string where = locOf(ci);
  std::vector<std::string> tr;
  for (size_t i = s.stack.size(); i-- > 0;) { auto &f = s.stack[i]; tr.push_back(locOf(&f.f->code[f.pc])); if (tr.size() > 24) break; }
  for (size_t i = s.stack.size(); i-- > 0;) { auto &f = s.stack[i]; if (f.f->lib) { where = locOf(&f.f->code[f.pc]); break; } }
  std::string key = kind + "|" + msg + "|" + where;
  if (violKeys[key]++ >= 3) return;
  Viol v; v.kind = kind; v.msg = msg; v.where = where; v.trace = tr; v.in = inputsOf(s, m);
  // inputs the path says nothing about: a replay may give them any value
  std::set<uint32_t> bound; for (E c : s.cs) if (c->vars) bound.insert(c->vars->begin(), c->vars->end());
  for (auto &i : s.inputs) if (i.second.e && i.second.e->vars) { bool f = true; for (uint32_t x : *i.second.e->vars) if (bound.count(x)) f = false; if (f) v.free.push_back(i.first); }
  viols.push_back(v);
  if (verbose) { fprintf(stderr, "[symex] VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), where.c_str()); for (auto &t : tr) fprintf(stderr, "    %s\n", t.c_str()); for (auto &i : v.in) fprintf(stderr, "    %s = 0x%llx\n", i.first.c_str(), (unsigned long long)i.second); }
}
[[noreturn]] static void incomplete(State &s, const std::string &why) {
  nIncomplete++; incompleteWhy[why + " @ " + locOf(curInst(s))]++;
  if (verbose) { fprintf(stderr, "[symex] INCOMPLETE %s at %s\n", why.c_str(), locOf(curInst(s)).c_str()); for (size_t i = s.stack.size(); i-- > 0;) fprintf(stderr, "    %s\n", locOf(&s.stack[i].f->code[s.stack[i].pc]).c_str()); }
  throw PathEnd{1};
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) { report(s, kind, msg, *s.model); throw PathEnd{2}; }

static std::map<std::string, uint64_t> forkSites;
static State *forkState(State &s) {
  nForks++; nStates++; if (verbose) { std::string w = locOf(curInst(s)); for (int i = 1; i < 4 && i < (int)s.stack.size(); i++) { size_t k = s.stack.size() - 1 - (size_t)i; w += " <- " + locOf(&s.stack[k].f->code[s.stack[k].pc]); } forkSites[w]++; }
  auto n = std::make_unique<State>(s);
  n->lastObj = nullptr; n->lastBase = 1; n->lastEnd = 0;
  s.lastObj = nullptr; s.lastBase = 1; s.lastEnd = 0; // refs are now shared
  n->id = nStates;
  State *p = n.get(); work.push_back(std::move(n)); return p;
}
static SatRes ask(State &s, E c, Model *m) { return solveWith(s.cs, c, *s.model, m); }

// Make e concrete in s, forking a state for the other values (which re-executes the current instruction).
static uint64_t concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  E e = v.e; uint64_t x = evalExpr(e, *s.model);
  E eq = mkEq(e, mkConst(x, w));
  Model m;
  SatRes r = ask(s, mkNot(eq), &m);
  if (r == R_UNKNOWN) { nIncomplete++; incompleteWhy["solver timeout (concretise)"]++; }
  if (r == R_SAT) { nConcretised++; State *o = forkState(s); addC(*o, mkNot(eq)); o->model = std::make_shared<Model>(std::move(m)); }
  addC(s, eq);
  return x;
}
// Decide a condition, forking the other outcome at the current instruction (re-executed).
static bool decide(State &s, E c) {
  if (c->isC()) return c->val;
  bool v = evalExpr(c, *s.model);
  E cc = v ? c : mkNot(c);
  Model m; SatRes r = ask(s, mkNot(cc), &m);
  if (r == R_UNKNOWN) { nIncomplete++; incompleteWhy["solver timeout (decide)"]++; }
  if (r == R_SAT) { State *o = forkState(s); addC(*o, mkNot(cc)); o->model = std::make_shared<Model>(std::move(m)); }
  addC(s, cc); return v;
}

static uint64_t allocObj(State &s, uint64_t size, ObjKind k, unsigned alignLog, bool zero, uint8_t fam) {
  uint64_t al = 1ull << std::max(4u, alignLog);
  uint64_t a = (s.heapNext + al - 1) & ~(al - 1);
  s.heapNext = a + size + 48;
  auto o = std::make_shared<MemObj>();
  o->base = a; o->size = size; o->kind = k; o->fam = fam; o->site = curInst(s);
  if (zero) o->lazyZero = true; else o->lazyUninit = true;
  s.mem[a] = std::move(o);
  if (k == OB_HEAP) { s.liveHeap++; s.liveHeapBytes += size; }
  return a;
}
static MemObj *findObj(State &s, uint64_t a) {
  if (a >= s.lastBase && a < s.lastEnd) return s.lastObj;
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) {
    --it; MemObj *o = it->second.get();
    if (a < o->base + o->size || (a == o->base)) { s.lastBase = o->base; s.lastEnd = o->base + o->size; s.lastObj = o; return o; }
  }
  auto c = constMem.upper_bound(a);
  if (c != constMem.begin()) { --c; MemObj *o = c->second.get(); if (a < o->base + o->size) return o; }
  return nullptr;
}
static MemObj *findObjW(State &s, uint64_t a) {
  MemObj *o = findObj(s, a);
  if (!o || o->ro) return o;
  auto it = s.mem.find(o->base);
  if (it->second.use_count() > 1) { it->second = std::make_shared<MemObj>(*it->second); o = it->second.get(); s.lastBase = o->base; s.lastEnd = o->base + o->size; s.lastObj = o; }
  return o;
}
static std::string describe(State &s, uint64_t a, uint64_t n) {
  std::ostringstream o;
  auto it = s.mem.upper_bound(a);
  if (a < 4096) { o << "null pointer access"; return o.str(); }
  if (it != s.mem.begin()) { --it; MemObj *ob = it->second.get(); if (a < ob->base + ob->size + 48) { o << "access of " << n << " bytes at offset " << (a - ob->base) << " of a " << ob->size << "-byte " << (ob->kind == OB_HEAP ? "heap" : ob->kind == OB_STACK ? "stack" : "global") << " object"; return o.str(); } }
  o << "access to invalid or freed memory"; return o.str();
}
static void raceAccess(State &s, uint64_t a, uint64_t n, bool write, MemObj *o);

static void raceAccess(State &s, uint64_t a, uint64_t n, bool write, MemObj *o);
static void hbAccess(State &s, uint64_t a, uint64_t n, bool write, MemObj *o);
static MemObj *checkedR(State &s, uint64_t a, uint64_t n) {
  MemObj *o = findObj(s, a);
  if (!o || a + n > o->base + o->size) fail(s, "memory", "invalid read: " + describe(s, a, n));
  if (s.race) raceAccess(s, a, n, false, o);
  if (s.conc) hbAccess(s, a, n, false, o);
  return o;
}
static MemObj *checkedW(State &s, uint64_t a, uint64_t n) {
  MemObj *o = findObjW(s, a);
  if (!o || a + n > o->base + o->size) fail(s, "memory", "invalid write: " + describe(s, a, n));
  if (o->ro) fail(s, "memory", "write to read-only memory");
  o->materialise();
  if (s.race) raceAccess(s, a, n, true, o);
  if (s.conc) hbAccess(s, a, n, true, o);
  return o;
}
static E freshUninit(State &s) { static uint64_t k = 0; (void)s; return mkVar("uninit" + std::to_string(k++), 8, false); }

static Val loadBytes(State &s, MemObj *o, uint64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  bool anySym = false;
  if (o->lazyUninit || !o->un.empty()) {
    bool any = o->lazyUninit;
    if (!any) for (unsigned i = 0; i < nb; i++) if (o->un[off + i]) { any = true; break; }
    if (any) {
      o = findObjW(s, o->base); o->materialise();
      if (o->sym.empty()) o->sym.assign(o->size, nullptr);
      for (unsigned i = 0; i < nb; i++) if (o->un[off + i]) { o->sym[off + i] = freshUninit(s); o->un[off + i] = 0; }
    }
  } else if (o->lazyZero) return V(0);
  if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { anySym = true; break; }
  if (!anySym) { uint64_t v = 0; memcpy(&v, &o->b[off], nb); return V(v & maskw(w)); }
  E r = nullptr;
  for (unsigned i = 0; i < nb; i++) { E x = o->sym[off + i] ? o->sym[off + i] : mkConst(o->b[off + i], 8); r = r ? mkConcat(x, r) : x; }
  if (r->w != w) r = mkExtract(r, 0, w);
  return VE(r);
}
static void storeBytes(State &, MemObj *o, uint64_t off, const Val &v, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (!o->un.empty()) memset(&o->un[off], 0, nb);
  if (!v.e) { memcpy(&o->b[off], &v.c, nb); if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr; return; }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  E e = v.e; if (e->w != nb * 8) e = mkZExt(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) { E x = mkExtract(e, i * 8, 8); if (x->isC()) { o->b[off + i] = (uint8_t)x->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = x; }
}

static Val loadVal(State &s, const Val &p, unsigned w);
static Val loadSymAddr(State &s, E addr, unsigned w) {
  unsigned nb = (w + 7) / 8;
  uint64_t a = evalExpr(addr, *s.model);
  // enumerate up to 16 values
  std::vector<uint64_t> vals{a}; E excl = mkNot(mkEq(addr, mkConst(a, 64))); bool all = false;
  MemObj *o = findObj(s, a);
  if (!o || a + nb > o->base + o->size) { fail(s, "memory", "invalid read: " + describe(s, a, nb)); }
  for (int k = 0; k < 24; k++) {
    Model m; SatRes r = ask(s, excl, &m);
    if (r == R_UNSAT) { all = true; break; }
    if (r == R_UNKNOWN) incomplete(s, "solver timeout (address)");
    uint64_t x = evalExpr(addr, m);
    MemObj *ox = findObj(s, x);
    if (!ox || x + nb > ox->base + ox->size) { report(s, "memory", "invalid read: " + describe(s, x, nb), m); // keep exploring the valid part
      E inb = mkAnd(mkBin(K_ULE, mkConst(o->base, 64), addr), mkBin(K_ULE, addr, mkConst(o->base + o->size - nb, 64)));
      addC(s, inb); return loadSymAddr(s, addr, w); }
    vals.push_back(x); excl = mkAnd(excl, mkNot(mkEq(addr, mkConst(x, 64))));
  }
  if (all) {
    Val r = loadVal(s, V(vals[0]), w); E e = toE(r, w);
    for (size_t i = 1; i < vals.size(); i++) e = mkIte(mkEq(addr, mkConst(vals[i], 64)), toE(loadVal(s, V(vals[i]), w), w), e);
    return VE(e);
  }
  // large table: all addresses must stay inside one object
  E oob = mkNot(mkAnd(mkBin(K_ULE, mkConst(o->base, 64), addr), mkBin(K_ULE, addr, mkConst(o->base + o->size - nb, 64))));
  Model m; SatRes r = ask(s, oob, &m);
  if (r == R_UNKNOWN) incomplete(s, "solver timeout (bounds)");
  if (r == R_SAT) { uint64_t x = evalExpr(addr, m); MemObj *ox = findObj(s, x); if (!ox || x + nb > ox->base + ox->size) report(s, "memory", "invalid read: " + describe(s, x, nb), m); else { State *f = forkState(s); addC(*f, oob); f->model = std::make_shared<Model>(std::move(m)); } addC(s, mkNot(oob)); }
  E off = mkBin(K_SUB, addr, mkConst(o->base, 64));
  unsigned tz = std::min(3u, knownTrailingZeros(off)); uint64_t stride = 1ull << tz;
  if (o->size / stride > 70000) incomplete(s, "symbolic index into a large object");
  unsigned bits = 1; while ((1ull << bits) < o->size) bits++;
  E idx = mkExtract(off, tz, bits > tz ? bits - tz : 1);
  std::vector<E> leaf; uint64_t n = 1ull << idx->w;
  for (uint64_t i = 0; i < n; i++) { uint64_t oo = i * stride; leaf.push_back(oo + nb <= o->size ? toE(loadBytes(s, findObj(s, o->base), oo, w), w) : mkConst(0, w)); }
  for (unsigned bit = 0; bit < idx->w; bit++) { std::vector<E> nx; E b = mkExtract(idx, bit, 1); for (size_t i = 0; i + 1 < leaf.size(); i += 2) nx.push_back(mkIte(b, leaf[i + 1], leaf[i])); leaf.swap(nx); }
  return VE(leaf[0]);
}
static Val loadVal(State &s, const Val &p, unsigned w) {
  if (w > 64) incomplete(s, "wide load");
  if (p.e) return loadSymAddr(s, p.e, w);
  unsigned nb = (w + 7) / 8;
  MemObj *o = checkedR(s, p.c, nb);
  return loadBytes(s, o, p.c - o->base, w);
}
static void storeVal(State &s, const Val &p, const Val &v, unsigned w) {
  if (w > 64) incomplete(s, "wide store");
  uint64_t a = concretize(s, p, 64);
  MemObj *o = checkedW(s, a, (w + 7) / 8);
  storeBytes(s, o, a - o->base, v, w);
}
static void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  MemObj *so = checkedR(s, src, n); (void)so;
  MemObj *dob = checkedW(s, d, n);
  so = findObj(s, src); // may have been cloned if same object
  uint64_t so_ = src - so->base, do_ = d - dob->base;
  if (so->lazyUninit) { // destination becomes uninitialised
    if (dob->un.empty()) dob->un.assign(dob->size, 0);
    memset(&dob->un[do_], 1, n); if (!dob->sym.empty()) for (uint64_t i = 0; i < n; i++) dob->sym[do_ + i] = nullptr;
    return;
  }
  if (so->lazyZero) { memset(&dob->b[do_], 0, n); if (!dob->un.empty()) memset(&dob->un[do_], 0, n); if (!dob->sym.empty()) for (uint64_t i = 0; i < n; i++) dob->sym[do_ + i] = nullptr; return; }
  if (!so->un.empty() && so->sym.empty() ) {
    if (dob->un.empty()) dob->un.assign(dob->size, 0);
    memmove(&dob->un[do_], &so->un[so_], n);
  } else if (!so->un.empty()) {
    if (dob->un.empty()) dob->un.assign(dob->size, 0);
    memmove(&dob->un[do_], &so->un[so_], n);
  } else if (!dob->un.empty()) memset(&dob->un[do_], 0, n);
  memmove(&dob->b[do_], &so->b[so_], n);
  if (!so->sym.empty()) { if (dob->sym.empty()) dob->sym.assign(dob->size, nullptr); memmove(&dob->sym[do_], &so->sym[so_], n * sizeof(E)); }
  else if (!dob->sym.empty()) for (uint64_t i = 0; i < n; i++) dob->sym[do_ + i] = nullptr;
}
static std::string readStr(State &s, uint64_t p) {
  std::string r;
  for (;;) { Val v = loadVal(s, V(p++), 8); uint64_t c = v.e ? evalExpr(v.e, *s.model) : v.c; if (!c) break; r.push_back((char)c); if (r.size() > 4096) break; }
  return r;
}
static void freeObj(State &s, uint64_t p, int fam) {
  if (!p) return;
  auto it = s.mem.find(p);
  if (it == s.mem.end()) fail(s, "memory", "free of a pointer that is not the start of a live heap object (double free or invalid free)");
  if (it->second->kind != OB_HEAP && it->second->kind != OB_EXC) fail(s, "memory", "free of a non-heap object");
  if (fam >= 0 && it->second->kind == OB_HEAP && it->second->fam != fam) fail(s, "memory", "allocation/deallocation mismatch (malloc/new/new[] vs free/delete/delete[])");
  if (it->second->kind == OB_HEAP) { s.liveHeap--; s.liveHeapBytes -= it->second->size; }
  if (s.race) raceAccess(s, p, it->second->size, true, it->second.get());
  if (s.conc) { hbAccess(s, p, it->second->size, true, it->second.get()); s.shadow.erase(p); }
  s.mem.erase(it); s.lastObj = nullptr; s.lastBase = 1; s.lastEnd = 0;
}

// ---- lockset race tracking ---------------------------------------------
static std::vector<std::set<uint64_t>> locksets{{}};
static int locksetId(const std::set<uint64_t> &l) { for (size_t i = 0; i < locksets.size(); i++) if (locksets[i] == l) return (int)i; locksets.push_back(l); return (int)locksets.size() - 1; }
static void raceAccess(State &s, uint64_t a, uint64_t n, bool write, MemObj *o) {
  if (s.thread == 0 || o->kind == OB_STACK || o->kind == OB_EXC || o->ro) return;
  // only memory shared through the code under test: skip accesses made by the harness itself
  const Frame &top = s.stack.back(); (void)top;
  std::set<uint64_t> held; for (auto &l : s.locks) if (l.second == s.thread) held.insert(l.first);
  uint8_t bit = (uint8_t)(1 << s.thread);
  for (uint64_t k = a & ~7ull; k < a + n; k += 8) {
    RaceInfo &r = s.raceMap[k];
    if (!r.rd && !r.wr) r.first = curInst(s);
    (write ? r.wr : r.rd) |= bit;
    if (r.lockset < 0) r.lockset = locksetId(held);
    else { std::set<uint64_t> x; for (uint64_t l : locksets[r.lockset]) if (held.count(l)) x.insert(l); r.lockset = locksetId(x); }
    uint8_t all = r.rd | r.wr;
    if (r.wr && (all & (all - 1)) && locksets[r.lockset].empty()) {
      std::string first = locOf(r.first);
      report(s, "race", "shared data accessed by two threads without a common lock", *s.model);
      s.race = false; return;
    }
  }
}

// ---- interleaved threads: happens-before race detection ------------------
static std::set<const GlobalVariable *> libGlobals; // globals of the code under test
static void hbAccess(State &s, uint64_t a, uint64_t n, bool write, MemObj *o) {
  if (s.quiet || s.noRace || o->ro || o->kind == OB_STACK || o->kind == OB_EXC || !n) return;
  if (o->kind == OB_GLOBAL && !libGlobals.count(o->gv)) return;
  auto &sh = s.shadow[o->base];
  if (!sh) sh = std::make_shared<std::vector<Sh>>(o->size);
  else if (sh.use_count() > 1) sh = std::make_shared<std::vector<Sh>>(*sh);
  const VC &me = s.vc[(size_t)s.cur];
  for (uint64_t k = a - o->base; k < a - o->base + n; k++) {
    Sh &x = (*sh)[k];
    for (int t = 0; t < (int)s.thr.size(); t++) {
      if (t == s.cur) continue;
      if (x.w[t] > me[(size_t)t] || (write && x.r[t] > me[(size_t)t])) {
        report(s, "race", "two threads access the same memory without synchronisation, one of them writing", *s.model); s.noRace = true; return;
      }
    }
    (write ? x.w : x.r)[s.cur] = (uint16_t)me[(size_t)s.cur];
  }
}
static void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void hbAcquire(State &s, uint64_t m) { if (s.conc) { auto it = s.sync.find(m); if (it != s.sync.end()) vcJoin(s.vc[(size_t)s.cur], it->second); } }
static void hbRelease(State &s, uint64_t m) { if (s.conc) { vcJoin(s.sync[m], s.vc[(size_t)s.cur]); s.vc[(size_t)s.cur][(size_t)s.cur]++; } }

// ---- exceptions ---------------------------------------------------------
static uint64_t siVt, vmiVt, clsVt;
static uint64_t ld64(State &s, uint64_t a) { return concretize(s, loadVal(s, V(a), 64), 64); }
static bool typeMatches(State &s, uint64_t thrown, uint64_t want, int depth = 0) {
  if (thrown == want) return true;
  if (depth > 8) return false;
  // compare by name
  MemObj *to = findObj(s, thrown); MemObj *wo = findObj(s, want);
  if (!to || !wo || to->size < 16 || wo->size < 16) return false;
  if (ld64(s, thrown + 8) == ld64(s, want + 8)) return true;
  if (!depth && readStr(s, ld64(s, thrown + 8)) == readStr(s, ld64(s, want + 8))) return true;
  uint64_t vt = ld64(s, thrown);
  if (siVt && vt == siVt + 16) return typeMatches(s, ld64(s, thrown + 16), want, depth + 1);
  if (vmiVt && vt == vmiVt + 16) { uint64_t n = ld64(s, thrown + 16) >> 32; for (uint64_t i = 0; i < n; i++) if (typeMatches(s, ld64(s, thrown + 24 + 16 * i), want, depth + 1)) return true; }
  return false;
}
static bool upcastTo(State &s, uint64_t obj, uint64_t type, uint64_t want, uint64_t &out, int depth = 0) {
  if (type == want || ld64(s, type + 8) == ld64(s, want + 8)) { out = obj; return true; }
  if (depth > 8) return false;
  uint64_t vt = ld64(s, type);
  if (siVt && vt == siVt + 16) return upcastTo(s, obj, ld64(s, type + 16), want, out, depth + 1);
  if (vmiVt && vt == vmiVt + 16) {
    uint64_t n = ld64(s, type + 16) >> 32;
    for (uint64_t i = 0; i < n; i++) { uint64_t fl = ld64(s, type + 32 + 16 * i); int64_t off = (int64_t)fl >> 8; uint64_t sub = obj + off; if (fl & 1) { uint64_t vp = ld64(s, obj); sub = obj + ld64(s, vp + off); } if (upcastTo(s, sub, ld64(s, type + 24 + 16 * i), want, out, depth + 1)) return true; }
  }
  return false;
}
static void popFrame(State &s) {
  Frame &f = s.stack.back();
  for (uint64_t a : f.allocas) s.mem.erase(a);
  if (!f.allocas.empty()) { s.lastObj = nullptr; s.lastBase = 1; s.lastEnd = 0; }
  s.regs.resize(f.base);
  s.stack.pop_back();
}
static void takeEdge(State &s, const Edge &e) {
  Frame &f = s.stack.back();
  if (e.copies.size() == 1) { Val v = OPV(s, e.copies[0].src); R(s, e.copies[0].dst) = v; }
  else if (!e.copies.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &c : e.copies) tmp.push_back(OPV(s, c.src));
    for (size_t i = 0; i < e.copies.size(); i++) R(s, e.copies[i].dst) = tmp[i];
  }
  f.pc = f.f->blockStart[e.target];
}
static uint64_t typeIdFor(uint64_t ti) { static std::map<uint64_t, uint64_t> ids; auto it = ids.find(ti); if (it != ids.end()) return it->second; uint64_t k = ids.size() + 1; return ids[ti] = k; }
// Unwind with s.excObj/excType starting from the frame on top, whose current instruction raised.
static void unwind(State &s) {
  while (!s.stack.empty()) {
    Frame &f = s.stack.back();
    const Inst &ci = f.f->code[f.pc];
    if (ci.op == Instruction::Invoke) {
      const Edge &e = ci.edges[1];
      uint32_t t = f.f->blockStart[e.target];
      const Inst &lp = f.f->code[t];
      uint64_t sel = 0; bool enter = lp.cleanup;
      for (size_t i = 0; i < lp.clauses.size(); i++) {
        if (lp.clauseKind[i] == 1) { uint64_t ti = OPV(s, lp.clauses[i]).c; if (ti == 0 || typeMatches(s, s.excType, ti)) { sel = ti == 0 ? typeIdFor(0) : typeIdFor(ti); enter = true; break; } }
      }
      if (enter) {
        takeEdge(s, e);
        R(s, lp.dst) = V(s.excObj); R(s, lp.dst + 1) = V(sel);
        s.stack.back().pc++; // past landingpad
        return;
      }
    }
    if (s.stack.size() == 1) fail(s, "exception", "uncaught C++ exception");
    popFrame(s);
  }
}

// ---- builtins -------------------------------------------------------------
enum {
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_NEWNT, B_NEWANT, B_NEWAL, B_DELAL, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_RETHROW, B_CXA_BEGIN, B_CXA_END, B_CXA_GETPTR, B_ATEXIT, B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_DYNCAST,
  B_ABORT, B_EXIT, B_ASSERT, B_TERMINATE, B_PUREVIRT,
  B_SX_INPUT, B_SX_CHOICE, B_SX_ASSUME, B_SX_CHECK, B_SX_COVER, B_SX_ISSYM, B_SX_EXPRID, B_SX_ALIVE, B_SX_PICK, B_SX_FKEY, B_SX_UF, B_SX_LIVE, B_SX_UNSUP, B_SX_NOTE, B_SX_CFG, B_SX_THREAD, B_SX_RACE, B_SX_HELD, B_SX_PRINT, B_SX_FMT, B_SX_PARSE, B_SX_DECIDE, B_SX_UNINIT, B_SX_FEAS,
  B_LOCK, B_UNLOCK, B_TRYLOCK, B_RET0, B_MATH1, B_MATH2, B_SX_IMPOSSIBLE, B_MINVALID, B_IALLOC, B_IFREE, B_SX_SPAWN, B_SX_JOIN
};
static const std::map<std::string, int> &btab() {
  static const std::map<std::string, int> t = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELA},
    {"_ZnwmRKSt9nothrow_t", B_NEWNT}, {"_ZnamRKSt9nothrow_t", B_NEWANT}, {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZdlPvSt11align_val_t", B_DELAL}, {"_ZdlPvmSt11align_val_t", B_DELAL},
    {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZdaPvRKSt9nothrow_t", B_DELA},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"__memcpy_chk", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
    {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_rethrow", B_CXA_RETHROW},
    {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_get_exception_ptr", B_CXA_GETPTR},
    {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_ABORT}, {"__dynamic_cast", B_DYNCAST},
    {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREVIRT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERT}, {"__cxa_bad_cast", B_TERMINATE}, {"__cxa_throw_bad_array_new_length", B_TERMINATE}, {"__cxa_bad_typeid", B_TERMINATE},
    {"__sx_input", B_SX_INPUT}, {"__sx_choice", B_SX_CHOICE}, {"__sx_assume", B_SX_ASSUME}, {"__sx_check", B_SX_CHECK}, {"__sx_cover", B_SX_COVER}, {"__sx_is_symbolic", B_SX_ISSYM}, {"__sx_exprid", B_SX_EXPRID}, {"__sx_alive", B_SX_ALIVE}, {"__sx_pick", B_SX_PICK}, {"__sx_fkey", B_SX_FKEY},
    {"__sx_uf", B_SX_UF}, {"__sx_live", B_SX_LIVE}, {"__sx_unsupported", B_SX_UNSUP}, {"__sx_note", B_SX_NOTE}, {"__sx_cfg", B_SX_CFG}, {"__sx_thread", B_SX_THREAD}, {"__sx_race", B_SX_RACE}, {"__sx_held", B_SX_HELD}, {"__sx_print", B_SX_PRINT},
    {"__sx_format", B_SX_FMT}, {"__sx_parse", B_SX_PARSE}, {"__sx_decide", B_SX_DECIDE}, {"__sx_uninit", B_SX_UNINIT}, {"__sx_feasible", B_SX_FEAS}, {"__sx_valid", B_MINVALID}, {"__sx_ialloc", B_IALLOC}, {"__sx_ifree", B_IFREE}, {"__sx_spawn", B_SX_SPAWN}, {"__sx_join_all", B_SX_JOIN}, {"pthread_spin_lock", B_LOCK}, {"pthread_spin_unlock", B_UNLOCK}, {"pthread_spin_init", B_RET0}, {"pthread_spin_destroy", B_RET0},
    {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_mutex_trylock", B_TRYLOCK},
    {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0}, {"fflush", B_RET0}, {"printf", B_RET0}, {"fprintf", B_RET0}, {"puts", B_RET0}, {"putchar", B_RET0}, {"fputs", B_RET0}, {"fwrite", B_RET0}, {"fputc", B_RET0}, {"pthread_mutexattr_init", B_RET0}, {"pthread_mutexattr_settype", B_RET0}, {"pthread_mutexattr_destroy", B_RET0}, {"__pthread_key_create", B_RET0},
    {"sqrt", B_MATH1}, {"sqrtf", B_MATH1}, {"floor", B_MATH1}, {"floorf", B_MATH1}, {"ceil", B_MATH1}, {"ceilf", B_MATH1}, {"trunc", B_MATH1}, {"sin", B_MATH1}, {"sinf", B_MATH1}, {"cos", B_MATH1}, {"cosf", B_MATH1}, {"tan", B_MATH1}, {"asin", B_MATH1}, {"acos", B_MATH1}, {"atan", B_MATH1}, {"asinf", B_MATH1}, {"acosf", B_MATH1}, {"atanf", B_MATH1}, {"exp", B_MATH1}, {"log", B_MATH1}, {"log2", B_MATH1}, {"round", B_MATH1}, {"fabs", B_MATH1}, {"fabsf", B_MATH1},
    {"atan2", B_MATH2}, {"atan2f", B_MATH2}, {"pow", B_MATH2}, {"powf", B_MATH2}, {"fmod", B_MATH2}, {"fmodf", B_MATH2},
  };
  return t;
}
static std::vector<std::string> bnames;
int builtinId(const std::string &n) { auto it = btab().find(n); return it == btab().end() ? -1 : it->second; }

static uint64_t doMath1(const std::string &n, uint64_t a, unsigned w) {
  double x = w == 32 ? bits2f(a) : bits2d(a), r;
  std::string b = n; if (w == 32 && b.back() == 'f') b.pop_back();
  if (b == "sqrt") r = w == 32 ? sqrtf((float)x) : sqrt(x); else if (b == "floor") r = floor(x); else if (b == "ceil") r = ceil(x); else if (b == "trunc") r = trunc(x);
  else if (b == "sin") r = w == 32 ? sinf((float)x) : sin(x); else if (b == "cos") r = w == 32 ? cosf((float)x) : cos(x); else if (b == "tan") r = tan(x); else if (b == "asin") r = asin(x); else if (b == "acos") r = acos(x); else if (b == "atan") r = atan(x); else if (b == "exp") r = exp(x); else if (b == "log") r = log(x); else if (b == "log2") r = log2(x); else if (b == "round") r = round(x); else r = fabs(x);
  return w == 32 ? f2bits((float)r) : d2bits(r);
}
static std::map<std::string, E> ufTable;
static E ufApp(const std::string &name, const std::vector<E> &args, unsigned w) {
  std::string k = name; for (E a : args) k += "," + std::to_string(a->id);
  auto it = ufTable.find(k); if (it != ufTable.end()) return it->second;
  return ufTable[k] = mkVar("uf_" + name, w, false);
}
static void setRet(State &s, const Inst &x, const Val &v) { if (x.dst >= 0) R(s, x.dst) = v; }
static void advance(State &s, const Inst &x) { if (x.op == Instruction::Invoke) takeEdge(s, x.edges[0]); else s.stack.back().pc++; }
[[noreturn]] static void kill(State &) { throw PathEnd{1}; }

static Val newInput(State &s, const std::string &name, unsigned w) {
  int k = s.nameCount[name]++;
  std::string full = name + (k ? "#" + std::to_string(k) : "");
  static std::map<std::string, E> known; // same variable for the same name on every path
  E &e = known[full + ":" + std::to_string(w)];
  if (!e) e = mkVar(full, w, true);
  s.inputs.push_back({full, VE(e)});
  return VE(e);
}

static void callFunc(State &s, Function *F, const Inst &x, bool hasRet);

static void doCheck(State &s, const Val &cond, const std::string &msg) {
  nChecks++;
  if (!cond.e) { if (!(cond.c & 1)) fail(s, "assert", msg); return; }
  nChecksSymbolic++;
  E c = cond.e; if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w)));
  if (c->isC()) { if (!c->val) fail(s, "assert", msg); return; }
  if (evalExpr(c, *s.model) == 0) { report(s, "assert", msg, *s.model); }
  else { Model m; SatRes r = ask(s, mkNot(c), &m); if (r == R_SAT) { report(s, "assert", msg, m); } else if (r == R_UNKNOWN) { nIncomplete++; incompleteWhy["solver timeout (check: " + msg + ")"]++; } }
  // continue on the side where it holds
  Model m2; SatRes r2 = ask(s, c, &m2);
  if (r2 != R_SAT) throw PathEnd{2};
  s.model = std::make_shared<Model>(std::move(m2)); addC(s, c);
}

// ---- interleaved threads: scheduling -------------------------------------
static void switchTo(State &s, int t) {
  if (t == s.cur) return;
  Thread &a = s.thr[(size_t)s.cur], &b = s.thr[(size_t)t];
  a.regs = std::move(s.regs); a.stack = std::move(s.stack); a.caught = std::move(s.caught); a.excObj = s.excObj; a.excType = s.excType;
  s.regs = std::move(b.regs); s.stack = std::move(b.stack); s.caught = std::move(b.caught); s.excObj = b.excObj; s.excType = b.excType;
  s.cur = t;
}
static bool lockHeld(State &s, uint64_t m) { return s.locks.count(m) || s.guards.count(m); }
// Give control to any thread that can go on: the choice is an input of the run.
static void reschedule(State &s) {
  std::vector<int> run; bool all = true;
  for (int t = 1; t < (int)s.thr.size(); t++) { if (s.thr[(size_t)t].done) continue; all = false; if (!s.thr[(size_t)t].waits || !lockHeld(s, s.thr[(size_t)t].waits)) run.push_back(t); }
  if (all) {
    for (size_t t = 1; t < s.thr.size(); t++) vcJoin(s.vc[0], s.vc[t]);
    switchTo(s, 0); s.conc = false; s.shadow.clear(); s.sync.clear(); s.thr.clear(); s.vc.clear();
    if (!s.locks.empty()) fail(s, "lock", "a thread ended while holding a mutex");
    advance(s, s.stack.back().f->code[s.stack.back().pc]); return;
  }
  if (run.empty()) fail(s, "deadlock", "no thread can go on (deadlock)");
  auto go = [](State &q, int t) { switchTo(q, t); q.chosen = q.thr[(size_t)t].waits != 0; };
  if (run.size() > 1) {
    Val v = newInput(s, "sched", 32);
    for (size_t i = run.size(); i-- > 0;) {
      E eq = mkEq(v.e, mkConst(i, 32)); Model m; SatRes r = ask(s, eq, &m);
      if (r == R_UNSAT) continue; if (r == R_UNKNOWN) { nIncomplete++; continue; }
      State *o = i ? forkState(s) : &s; addC(*o, eq); o->model = std::make_shared<Model>(std::move(m)); go(*o, run[i]);
    }
  } else go(s, run[0]);
}
// true: another thread may run first, the instruction is executed again when it is this thread's turn
static bool schedPoint(State &s, uint64_t m) {
  if (!s.conc) return false;
  if (s.chosen) { s.chosen = false; s.thr[(size_t)s.cur].waits = 0; return false; }
  s.thr[(size_t)s.cur].waits = m; reschedule(s); return true;
}

static bool doBuiltin(State &s, const Inst &x) { // returns true if pc already handled
  auto A = [&](unsigned i) -> const Val & { return OPV(s, x.ops[i]); };
  auto C = [&](unsigned i, unsigned w = 64) { return concretize(s, OPV(s, x.ops[i]), w); };
  auto sizeOf = [&](unsigned i) -> uint64_t {
    const Val &v = A(i); if (!v.e) return v.c;
    // huge sizes are out of scope for symbolic requests
    E big = mkBin(K_ULT, mkConst(1ull << 28, 64), v.e);
    if (decide(s, big)) { nHuge++; kill(s); }
    return concretize(s, v, 64);
  };
  auto alloc = [&](uint64_t n, int fam, bool zero) -> uint64_t { if (n > (1ull << 31)) { nHuge++; kill(s); } return allocObj(s, n, OB_HEAP, 4, zero, (uint8_t)fam); };
  switch (x.builtin) {
  case B_MALLOC: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 0, false))); break; }
  case B_CALLOC: { uint64_t a = sizeOf(0), b = sizeOf(1); setRet(s, x, V(alloc(a * b, 0, true))); break; }
  case B_REALLOC: {
    uint64_t p = C(0), n = sizeOf(1);
    if (!p) { setRet(s, x, V(alloc(n, 0, false))); break; }
    auto it = s.mem.find(p); if (it == s.mem.end() || it->second->kind != OB_HEAP) fail(s, "memory", "realloc of an invalid pointer");
    uint64_t q = alloc(n, 0, false); uint64_t cp = std::min(n, it->second->size); copyMem(s, q, p, cp); freeObj(s, p, 0); setRet(s, x, V(q)); break;
  }
  case B_FREE: { uint64_t p = C(0); freeObj(s, p, 0); break; }
  case B_NEW: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 1, false))); break; }
  case B_NEWA: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 2, false))); break; }
  case B_NEWNT: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 1, false))); break; }
  case B_NEWANT: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 2, false))); break; }
  case B_NEWAL: { uint64_t n = sizeOf(0); setRet(s, x, V(alloc(n, 1, false))); break; }
  case B_DEL: case B_DELAL: { uint64_t p = C(0); freeObj(s, p, 1); break; }
  case B_DELA: { uint64_t p = C(0); freeObj(s, p, 2); break; }
  case B_MEMCPY: { uint64_t d = C(0), q = C(1), n = C(2); copyMem(s, d, q, n); setRet(s, x, V(d)); break; }
  case B_MEMSET: { uint64_t d = C(0), n = C(2); Val v = A(1); if (v.e) v = VE(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) { MemObj *o = checkedW(s, d, n); for (uint64_t i = 0; i < n; i++) storeBytes(s, o, d - o->base + i, v, 8); } setRet(s, x, V(d)); break; }
  case B_MEMCMP: case B_BCMP: {
    uint64_t p = C(0), q = C(1), n = C(2);
    E r = nullptr; // build from the end
    if (!n) { setRet(s, x, V(0)); break; }
    std::vector<std::pair<Val, Val>> bs;
    for (uint64_t i = 0; i < n; i++) { Val a = loadVal(s, V(p + i), 8), b = loadVal(s, V(q + i), 8); bs.push_back({a, b}); if (!a.e && !b.e && a.c != b.c) break; }
    r = mkConst(0, 32);
    for (size_t i = bs.size(); i-- > 0;) { E a = toE(bs[i].first, 8), b = toE(bs[i].second, 8); if (a == b) continue; E d = x.builtin == B_BCMP ? mkConst(1, 32) : mkIte(mkBin(K_ULT, a, b), mkConst(~0ull, 32), mkConst(1, 32)); r = mkIte(mkEq(a, b), r, d); }
    setRet(s, x, VE(r)); break;
  }
  case B_CXA_ALLOC: setRet(s, x, V(allocObj(s, C(0), OB_EXC, 4, false, 0))); break;
  case B_CXA_FREE: freeObj(s, C(0), -1); break;
  case B_CXA_THROW: s.excObj = C(0); s.excType = C(1); s.excTypes[s.excObj] = s.excType; unwind(s); return true;
  case B_CXA_RETHROW: if (s.caught.empty()) fail(s, "exception", "rethrow without exception"); s.excObj = s.caught.back().first; s.excType = s.caught.back().second; unwind(s); return true;
  case B_CXA_BEGIN: { uint64_t p = C(0); s.caught.push_back({p, s.excTypes.count(p) ? s.excTypes[p] : s.excType}); setRet(s, x, V(p)); break; }
  case B_CXA_END: if (!s.caught.empty()) s.caught.pop_back(); break;
  case B_CXA_GETPTR: setRet(s, x, V(C(0))); break;
  case B_ATEXIT: setRet(s, x, V(0)); break;
  case B_GUARD_ACQ: { if (schedPoint(s, C(0))) return true; if (s.conc) { s.quiet = true; hbAcquire(s, C(0)); } Val v = loadVal(s, V(C(0)), 8); uint64_t b = concretize(s, v, 8); setRet(s, x, V(b ? 0 : 1)); if (s.conc && !b) s.guards[C(0)] = s.cur; break; }
  case B_GUARD_REL: s.quiet = true; storeVal(s, V(C(0)), V(1), 8); s.guards.erase(C(0)); hbRelease(s, C(0)); break;
  case B_GUARD_ABORT: s.guards.erase(C(0)); hbRelease(s, C(0)); break;
  case B_DYNCAST: {
    uint64_t p = C(0), dst = C(2); if (!p) { setRet(s, x, V(0)); break; }
    uint64_t vp = ld64(s, p); int64_t ott = (int64_t)ld64(s, vp - 16); uint64_t ti = ld64(s, vp - 8); uint64_t out = 0;
    setRet(s, x, V(upcastTo(s, p + ott, ti, dst, out) ? out : 0)); break;
  }
  case B_ABORT: fail(s, "abort", "abort() called");
  case B_TERMINATE: fail(s, "exception", "std::terminate or fatal C++ runtime error");
  case B_PUREVIRT: fail(s, "abort", "pure virtual call");
  case B_EXIT: throw PathEnd{0};
  case B_ASSERT: fail(s, "abort", "assertion failed in the code: " + (A(0).e ? std::string("?") : readStr(s, A(0).c)));
  case B_SX_INPUT: { std::string n = readStr(s, C(0)); unsigned w = (unsigned)C(1, 32); Val v = newInput(s, n, w); if (v.e && w < 64) v = VE(mkZExt(v.e, 64)); setRet(s, x, v); break; }
  case B_SX_CHOICE: {
    std::string n = readStr(s, C(0)); int64_t k = sextw(C(1, 32), 32);
    if (k <= 1) { int q = s.nameCount[n]++; s.inputs.push_back({n + (q ? "#" + std::to_string(q) : ""), V(0)}); setRet(s, x, V(0)); break; }
    Val v = newInput(s, n, 32);
    E bound = mkBin(K_ULT, v.e, mkConst((uint64_t)k, 32));
    // choose value 0..k-1: fork every feasible one
    int64_t first = -1; Model fm; std::vector<std::pair<int64_t, Model>> rest;
    for (int64_t i = 0; i < k; i++) { Model m; SatRes r = ask(s, mkAnd(bound, mkEq(v.e, mkConst((uint64_t)i, 32))), &m); if (r == R_UNSAT) continue; if (r == R_UNKNOWN) { nIncomplete++; continue; } if (first < 0) { first = i; fm = std::move(m); } else rest.push_back({i, std::move(m)}); }
    if (first < 0) kill(s);
    for (size_t i = rest.size(); i-- > 0;) { State *o = forkState(s); addC(*o, mkEq(v.e, mkConst((uint64_t)rest[i].first, 32))); o->model = std::make_shared<Model>(std::move(rest[i].second)); if (x.dst >= 0) o->regs[o->stack.back().base + x.dst] = V((uint64_t)rest[i].first); advance(*o, x); }
    addC(s, mkEq(v.e, mkConst((uint64_t)first, 32))); s.model = std::make_shared<Model>(std::move(fm)); setRet(s, x, V((uint64_t)first)); break;
  }
  case B_SX_ASSUME: {
    Val v = A(0); if (!v.e) { if (!v.c) { nAssumeKill++; kill(s); } break; }
    E c = mkNot(mkEq(v.e, mkConst(0, v.e->w))); if (c->isC()) { if (!c->val) { nAssumeKill++; kill(s); } break; }
    Model m; SatRes r = ask(s, c, &m); if (r == R_UNSAT) { nAssumeKill++; kill(s); } if (r == R_UNKNOWN) incomplete(s, "solver timeout (assume)");
    addC(s, c); s.model = std::make_shared<Model>(std::move(m)); break;
  }
  case B_SX_CHECK: { Val v = A(0); if (v.e) v = VE(mkNot(mkEq(v.e, mkConst(0, v.e->w)))); else v.c = v.c != 0; std::string msg = readStr(s, C(1)); doCheck(s, v, msg); break; }
  case B_SX_COVER: covers[readStr(s, C(0))]++; break;
  case B_SX_ISSYM: setRet(s, x, V(A(0).e != nullptr)); break;
  case B_SX_EXPRID: { Val v = A(0); setRet(s, x, V(v.e ? 1ull << 63 | v.e->id : v.c)); break; } // equal for syntactically equal terms
  case B_SX_ALIVE: { MemObj *o = findObj(s, C(0)); setRet(s, x, V(o != nullptr)); break; }
  case B_SX_FKEY: { Val k = A(0); if (!k.e) { uint32_t v = (uint32_t)k.c; setRet(s, x, V(v >= 0x80000000u ? v ^ 0x80000000u : ((0x80000000u - v) | 0x80000000u))); } else setRet(s, x, VE(mkFKey(k.e))); break; }
  case B_SX_PICK: setRet(s, x, V(concretize(s, A(0), 64))); break;
  case B_SX_DECIDE: { Val v = A(0); if (!v.e) { setRet(s, x, V(v.c != 0)); break; } bool b = decide(s, mkNot(mkEq(v.e, mkConst(0, v.e->w)))); setRet(s, x, V(b)); break; }
  case B_SX_FEAS: { Val v = A(0); if (!v.e) { setRet(s, x, V(v.c != 0)); break; } Model m; SatRes r = ask(s, mkNot(mkEq(v.e, mkConst(0, v.e->w))), &m); setRet(s, x, V(r != R_UNSAT)); break; }
  case B_SX_UF: { // (name, bits, a, b)
    std::string n = readStr(s, C(0)); unsigned w = (unsigned)C(1, 32); E r = ufApp(n, {toE(A(2), 64), toE(A(3), 64)}, w); if (w < 64) r = mkZExt(r, 64); setRet(s, x, VE(r)); break; }
  case B_SX_UNINIT: { unsigned w = (unsigned)C(0, 32); static uint64_t k = 0; E r = mkVar("fresh" + std::to_string(k++), w, false); if (w < 64) r = mkZExt(r, 64); setRet(s, x, VE(r)); break; }
  case B_SX_LIVE: setRet(s, x, V(s.liveHeap)); break;
  case B_SX_UNSUP: incomplete(s, "model: " + readStr(s, C(0)));
  case B_SX_NOTE: if (verbose) fprintf(stderr, "[note] %s\n", readStr(s, C(0)).c_str()); break;
  case B_SX_PRINT: if (verbose) { Val v = A(1); fprintf(stderr, "[print] %s = %s\n", readStr(s, C(0)).c_str(), v.e ? show(v.e).c_str() : std::to_string((long long)v.c).c_str()); } break;
  case B_SX_CFG: { std::string n = readStr(s, C(0)); auto it = cfg.find(n); setRet(s, x, V((uint64_t)(it == cfg.end() ? sextw(C(1, 32), 32) : it->second) & 0xffffffffull)); break; }
  case B_SX_THREAD: s.thread = (int)C(0, 32); break;
  case B_SX_RACE: s.race = C(0, 32) != 0; if (!s.race) s.raceMap.clear(); break;
  case B_SX_HELD: setRet(s, x, V(s.locks.size())); break;
  case B_IALLOC: setRet(s, x, V(allocObj(s, C(0), OB_EXC, 4, true, 0))); break;
  case B_IFREE: { uint64_t p = C(0); if (p) freeObj(s, p, -1); break; }
  case B_MINVALID: { uint64_t p = C(0), n = C(1); MemObj *o = findObj(s, p); setRet(s, x, V(o && p + n <= o->base + o->size)); break; }
  case B_SX_FMT: { // int __sx_format(char* buf, int cap, int kind, uint64 bits, int precision, int fmtflags)
    uint64_t buf = C(0), cap = C(1, 32); int kind = (int)C(2, 32); uint64_t bits = C(3); int prec = (int)C(4, 32); int ff = (int)C(5, 32);
    char tmp[512]; int n = 0;
    if (kind == 0) n = snprintf(tmp, 512, (ff & 8) ? ((ff & 16) ? "%llX" : "%llx") : (ff & 32) ? "%llo" : "%lld", (long long)bits);
    else if (kind == 1) n = snprintf(tmp, 512, (ff & 8) ? "%llx" : (ff & 32) ? "%llo" : "%llu", (unsigned long long)bits);
    else { double d = bits2d(bits); const char *f = (ff & 3) == 1 ? "%.*f" : (ff & 3) == 2 ? "%.*e" : "%.*g"; n = snprintf(tmp, 512, f, prec, d); }
    if (n > (int)cap - 1) n = (int)cap - 1;
    MemObj *o = checkedW(s, buf, n + 1); for (int i = 0; i <= n; i++) storeBytes(s, o, buf - o->base + i, V((uint8_t)(i < n ? tmp[i] : 0)), 8);
    setRet(s, x, V((uint64_t)n)); break;
  }
  case B_SX_PARSE: { // uint64 __sx_parse(const char* s, int kind)   kind 0 float32, 1 double (returns bits)
    std::string t = readStr(s, C(0)); int kind = (int)C(1, 32);
    setRet(s, x, V(kind == 0 ? f2bits(strtof(t.c_str(), nullptr)) : d2bits(strtod(t.c_str(), nullptr)))); break;
  }
  case B_LOCK: {
    uint64_t m = C(0); if (s.conc && s.locks.count(m) && s.locks[m] == s.cur) fail(s, "deadlock", "lock of a mutex that is already held");
    if (schedPoint(s, m)) return true;
    if (s.locks.count(m)) fail(s, "deadlock", "lock of a mutex that is already held"); s.locks[m] = s.conc ? s.cur : s.thread; hbAcquire(s, m); setRet(s, x, V(0)); break; }
  case B_UNLOCK: { uint64_t m = C(0); if (!s.locks.count(m)) fail(s, "lock", "unlock of a mutex that is not held"); if (s.conc && s.locks[m] != s.cur) fail(s, "lock", "unlock of a mutex that another thread holds"); s.locks.erase(m); hbRelease(s, m); setRet(s, x, V(0)); break; }
  case B_TRYLOCK: { uint64_t m = C(0); if (schedPoint(s, 1)) return true; if (s.locks.count(m)) setRet(s, x, V(16)); else { s.locks[m] = s.conc ? s.cur : s.thread; hbAcquire(s, m); setRet(s, x, V(0)); } break; }
  case B_SX_SPAWN: {
    auto it = faddr.find(C(0)); if (it == faddr.end() || s.conc || s.thr.size() >= MAXT) incomplete(s, "spawn");
    if (s.thr.empty()) { s.thr.resize(1); s.vc.assign(1, VC(MAXT, 0)); s.vc[0][0] = 1; }
    Func *f = getFunc(it->second); f->calls++;
    Thread t; t.regs.resize(f->nregs, Val{0, nullptr}); if (!f->argReg.empty()) t.regs[f->argReg[0]] = V(C(1));
    Frame fr; fr.f = f; fr.pc = 0; fr.base = 0; fr.retDst = -1; fr.retLanes = 0; t.stack.push_back(fr);
    VC v = s.vc[0]; v[s.thr.size()] = 1; s.vc.push_back(v); s.thr.push_back(std::move(t)); break; }
  case B_SX_JOIN: if (s.thr.size() < 2) break; s.vc[0][0]++; s.conc = true; s.chosen = false; reschedule(s); return true;
  case B_RET0: for (unsigned i = 0; i < x.nl; i++) R(s, x.dst + i) = V(0); break;
  case B_MATH1: {
    Val a = A(0); std::string n = x.callee->getName().str(); unsigned w = x.w;
    if (!a.e) { setRet(s, x, V(doMath1(n, a.c, w))); break; }
    if (n.substr(0, 4) == "sqrt") setRet(s, x, VE(mkUn(K_FSQRT, a.e, w)));
    else if (n.substr(0, 5) == "floor") setRet(s, x, VE(mkUn(K_FFLOOR, a.e, w)));
    else if (n.substr(0, 4) == "ceil") setRet(s, x, VE(mkUn(K_FCEIL, a.e, w)));
    else if (n.substr(0, 4) == "fabs") setRet(s, x, VE(mkBin(K_AND, a.e, mkConst(maskw(w - 1), w))));
    else setRet(s, x, VE(ufApp(n, {a.e}, w)));
    break;
  }
  case B_MATH2: {
    Val a = A(0), b = A(1); std::string n = x.callee->getName().str(); unsigned w = x.w;
    if (!a.e && !b.e) { double p = w == 32 ? bits2f(a.c) : bits2d(a.c), q = w == 32 ? bits2f(b.c) : bits2d(b.c); double r = n.substr(0, 5) == "atan2" ? (w == 32 ? atan2f((float)p, (float)q) : atan2(p, q)) : n.substr(0, 3) == "pow" ? (w == 32 ? powf((float)p, (float)q) : pow(p, q)) : fmod(p, q); setRet(s, x, V(w == 32 ? f2bits((float)r) : d2bits(r))); }
    else setRet(s, x, VE(ufApp(n, {toE(a, w), toE(b, w)}, w)));
    break;
  }
  default: incomplete(s, "builtin " + std::to_string(x.builtin));
  }
  return false;
}

static Val bin(State &s, unsigned op, const Val &a, const Val &b, unsigned w) {
  Kind k;
  switch (op) {
  case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
  case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
  case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
  case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
  case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break; case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break; case Instruction::FRem: k = K_FREM; break;
  default: incomplete(s, "binary opcode");
  }
  if (k >= K_UDIV && k <= K_SREM) {
    if (!b.e) { if (!b.c) fail(s, "arith", "integer division by zero"); }
    else { E z = mkEq(b.e, mkConst(0, w)); Model m; if (!z->isC() || z->val) { SatRes r = ask(s, z, &m); if (r == R_SAT) { report(s, "arith", "integer division by zero", m); Model m2; if (ask(s, mkNot(z), &m2) != R_SAT) throw PathEnd{2}; s.model = std::make_shared<Model>(std::move(m2)); } addC(s, mkNot(z)); } }
  }
  if (!a.e && !b.e) return V(foldBin(k, a.c, b.c, w));
  return VE(mkBin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  Kind k; bool sw = false, neg = false;
  switch (p) {
  case CmpInst::ICMP_EQ: k = K_EQ; break; case CmpInst::ICMP_NE: k = K_EQ; neg = true; break;
  case CmpInst::ICMP_ULT: k = K_ULT; break; case CmpInst::ICMP_ULE: k = K_ULE; break; case CmpInst::ICMP_UGT: k = K_ULT; sw = true; break; case CmpInst::ICMP_UGE: k = K_ULE; sw = true; break;
  case CmpInst::ICMP_SLT: k = K_SLT; break; case CmpInst::ICMP_SLE: k = K_SLE; break; case CmpInst::ICMP_SGT: k = K_SLT; sw = true; break; default: k = K_SLE; sw = true; break;
  }
  const Val &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) return V(foldBin(k, x.c, y.c, w) ^ (neg ? 1 : 0));
  E r = mkBin(k, toE(x, w), toE(y, w)); return VE(neg ? mkNot(r) : r);
}
static Val fcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  E x = toE(a, w), y = toE(b, w);
  if (p == CmpInst::FCMP_FALSE) return V(0); if (p == CmpInst::FCMP_TRUE) return V(1);
  auto un = [&] { return mkBin(K_FUNO, x, y); };
  E r = nullptr;
  switch (p) {
  case CmpInst::FCMP_OEQ: r = mkBin(K_FOEQ, x, y); break;
  case CmpInst::FCMP_OLT: r = mkBin(K_FOLT, x, y); break;
  case CmpInst::FCMP_OLE: r = mkBin(K_FOLE, x, y); break;
  case CmpInst::FCMP_OGT: r = mkBin(K_FOLT, y, x); break;
  case CmpInst::FCMP_OGE: r = mkBin(K_FOLE, y, x); break;
  case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un()), mkNot(mkBin(K_FOEQ, x, y))); break;
  case CmpInst::FCMP_ORD: r = mkNot(un()); break;
  case CmpInst::FCMP_UNO: r = un(); break;
  case CmpInst::FCMP_UEQ: r = mkOr(un(), mkBin(K_FOEQ, x, y)); break;
  case CmpInst::FCMP_UNE: r = mkNot(mkBin(K_FOEQ, x, y)); break;
  case CmpInst::FCMP_ULT: r = mkNot(mkBin(K_FOLE, y, x)); break;
  case CmpInst::FCMP_ULE: r = mkNot(mkBin(K_FOLT, y, x)); break;
  case CmpInst::FCMP_UGT: r = mkNot(mkBin(K_FOLE, x, y)); break;
  default: r = mkNot(mkBin(K_FOLT, x, y)); break; // UGE
  }
  return VE(r);
}
static Val castv(State &s, unsigned op, const Val &a, unsigned wf, unsigned wt) {
  switch (op) {
  case Instruction::Trunc: if (!a.e) return V(a.c & maskw(wt)); return VE(mkExtract(a.e, 0, wt));
  case Instruction::ZExt: if (!a.e) return a; return VE(mkZExt(a.e, wt));
  case Instruction::SExt: if (!a.e) return V((uint64_t)sextw(a.c, wf) & maskw(wt)); return VE(mkSExt(a.e, wt));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (!a.e) return V(a.c & maskw(wt)); if (wt < wf) return VE(mkExtract(a.e, 0, wt)); return VE(mkZExt(a.e, wt));
  case Instruction::FPExt: return VE(mkUn(K_FPEXT, toE(a, wf), wt));
  case Instruction::FPTrunc: return VE(mkUn(K_FPTRUNC, toE(a, wf), wt));
  case Instruction::SIToFP: return VE(mkUn(K_SITOFP, toE(a, wf), wt));
  case Instruction::UIToFP: return VE(mkUn(K_UITOFP, toE(a, wf), wt));
  case Instruction::FPToSI: return VE(mkUn(K_FPTOSI, toE(a, wf), wt));
  case Instruction::FPToUI: return VE(mkUn(K_FPTOUI, toE(a, wf), wt));
  default: incomplete(s, "cast");
  }
}
static bool doIntrinsic(State &s, const Inst &x) {
  auto A = [&](unsigned i) -> const Val & { return OPV(s, x.ops[i]); };
  auto perLane = [&](auto fn) { for (unsigned l = 0; l < x.nl; l++) { Val r = fn(l); R(s, x.dst + l) = r; } };
  auto sel = [&](unsigned pred, unsigned l) { Val a = OPL(s, x.ops[0], l), b = OPL(s, x.ops[1], l); Val c = icmp(pred, a, b, x.w); if (!c.e) return c.c ? a : b; return VE(mkIte(c.e, toE(a, x.w), toE(b, x.w))); };
  switch ((Intrinsic::ID)x.imm) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = concretize(s, A(0), 64), q = concretize(s, A(1), 64); const Val &nv = A(2); uint64_t n = concretize(s, nv, nv.e ? nv.e->w : 64); copyMem(s, d, q, n); break; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t d = concretize(s, A(0), 64); const Val &nv = A(2); uint64_t n = concretize(s, nv, nv.e ? nv.e->w : 64); Val v = A(1); if (n) { MemObj *o = checkedW(s, d, n); if (!v.e) { uint64_t off = d - o->base; memset(&o->b[off], (int)v.c, n); if (!o->un.empty()) memset(&o->un[off], 0, n); if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i] = nullptr; } else for (uint64_t i = 0; i < n; i++) storeBytes(s, o, d - o->base + i, v, 8); } break; }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend: break;
  case Intrinsic::vastart: { uint64_t p = concretize(s, A(0), 64), va = s.stack.back().va; storeVal(s, V(p), V(48), 32); storeVal(s, V(p + 4), V(304), 32); storeVal(s, V(p + 8), V(va), 64); storeVal(s, V(p + 16), V(0), 64); break; }
  case Intrinsic::stacksave: setRet(s, x, V(0)); break;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: { Val a = A(0); setRet(s, x, a); break; }
  case Intrinsic::is_constant: setRet(s, x, V(0)); break;
  case Intrinsic::objectsize: setRet(s, x, V(A(1).c ? 0 : maskw(x.w))); break;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(s, "abort", "trap");
  case Intrinsic::eh_typeid_for: setRet(s, x, V(typeIdFor(A(0).c))); break;
  case Intrinsic::umax: perLane([&](unsigned l) { return sel(CmpInst::ICMP_UGT, l); }); break;
  case Intrinsic::umin: perLane([&](unsigned l) { return sel(CmpInst::ICMP_ULT, l); }); break;
  case Intrinsic::smax: perLane([&](unsigned l) { return sel(CmpInst::ICMP_SGT, l); }); break;
  case Intrinsic::smin: perLane([&](unsigned l) { return sel(CmpInst::ICMP_SLT, l); }); break;
  case Intrinsic::abs: perLane([&](unsigned l) { Val a = OPL(s, x.ops[0], l); E e = toE(a, x.w); return VE(mkIte(mkBin(K_SLT, e, mkConst(0, x.w)), mkBin(K_SUB, mkConst(0, x.w), e), e)); }); break;
  case Intrinsic::bswap: perLane([&](unsigned l) { Val a = OPL(s, x.ops[0], l); E e = toE(a, x.w), r = nullptr; for (unsigned i = 0; i < x.w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } return VE(r); }); break;
  case Intrinsic::bitreverse: perLane([&](unsigned l) { Val a = OPL(s, x.ops[0], l); E e = toE(a, x.w), r = nullptr; for (unsigned i = 0; i < x.w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return VE(r); }); break;
  case Intrinsic::ctpop: perLane([&](unsigned l) { E e = toE(OPL(s, x.ops[0], l), x.w), r = mkConst(0, x.w); for (unsigned i = 0; i < x.w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(e, i, 1), x.w)); return VE(r); }); break;
  case Intrinsic::ctlz: perLane([&](unsigned l) { E e = toE(OPL(s, x.ops[0], l), x.w), r = mkConst(x.w, x.w); for (unsigned i = 0; i < x.w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(x.w - 1 - i, x.w), r); return VE(r); }); break;
  case Intrinsic::cttz: perLane([&](unsigned l) { E e = toE(OPL(s, x.ops[0], l), x.w), r = mkConst(x.w, x.w); for (unsigned i = x.w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, x.w), r); return VE(r); }); break;
  case Intrinsic::fshl: case Intrinsic::fshr: perLane([&](unsigned l) {
    E a = toE(OPL(s, x.ops[0], l), x.w), b = toE(OPL(s, x.ops[1], l), x.w), c = mkBin(K_UREM, toE(OPL(s, x.ops[2], l), x.w), mkConst(x.w, x.w));
    E inv = mkBin(K_SUB, mkConst(x.w, x.w), c); E z = mkEq(c, mkConst(0, x.w));
    if (x.imm == Intrinsic::fshl) return VE(mkIte(z, a, mkOr(mkBin(K_SHL, a, c), mkBin(K_LSHR, b, inv))));
    return VE(mkIte(z, b, mkOr(mkBin(K_SHL, a, inv), mkBin(K_LSHR, b, c)))); }); break;
  case Intrinsic::uadd_sat: perLane([&](unsigned l) { E a = toE(OPL(s, x.ops[0], l), x.w), b = toE(OPL(s, x.ops[1], l), x.w), r = mkBin(K_ADD, a, b); return VE(mkIte(mkBin(K_ULT, r, a), mkConst(~0ull, x.w), r)); }); break;
  case Intrinsic::usub_sat: perLane([&](unsigned l) { E a = toE(OPL(s, x.ops[0], l), x.w), b = toE(OPL(s, x.ops[1], l), x.w); return VE(mkIte(mkBin(K_ULT, a, b), mkConst(0, x.w), mkBin(K_SUB, a, b))); }); break;
  case Intrinsic::uadd_with_overflow: { unsigned w = x.w2; E a = toE(A(0), w), b = toE(A(1), w), r = mkBin(K_ADD, a, b); R(s, x.dst) = VE(r); R(s, x.dst + 1) = VE(mkBin(K_ULT, r, a)); break; }
  case Intrinsic::usub_with_overflow: { unsigned w = x.w2; E a = toE(A(0), w), b = toE(A(1), w); R(s, x.dst) = VE(mkBin(K_SUB, a, b)); R(s, x.dst + 1) = VE(mkBin(K_ULT, a, b)); break; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned w = x.w2; E a = toE(A(0), w), b = toE(A(1), w); bool add = x.imm == Intrinsic::sadd_with_overflow;
    E r = mkBin(add ? K_ADD : K_SUB, a, b); E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
    R(s, x.dst) = VE(r); R(s, x.dst + 1) = VE(mkAnd(add ? mkEq(sa, sb) : mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr)))); break; }
  case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned w = x.w2; Val a = A(0), b = A(1);
    if (!a.e && !b.e) { bool sg = x.imm == Intrinsic::smul_with_overflow; unsigned __int128 p = sg ? (unsigned __int128)((__int128)sextw(a.c, w) * sextw(b.c, w)) : (unsigned __int128)a.c * b.c; uint64_t lo = (uint64_t)p & maskw(w); bool ov = sg ? ((__int128)p != (__int128)sextw(lo, w)) : (p >> w) != 0; R(s, x.dst) = V(lo); R(s, x.dst + 1) = V(ov); break; }
    // symbolic: one side must be constant; overflow iff other > max/const (unsigned)
    if (a.e && b.e) { uint64_t bv = concretize(s, b, w); b = V(bv); }
    if (!a.e) std::swap(a, b);
    E e = a.e; E r = mkBin(K_MUL, e, mkConst(b.c, w)); R(s, x.dst) = VE(r);
    if (x.imm == Intrinsic::umul_with_overflow) R(s, x.dst + 1) = b.c ? VE(mkBin(K_ULT, mkConst(maskw(w) / b.c, w), e)) : V(0);
    else if (w <= 32) { E p = mkBin(K_MUL, mkSExt(e, 2 * w), mkConst((uint64_t)sextw(b.c, w), 2 * w)); R(s, x.dst + 1) = VE(mkNot(mkEq(p, mkSExt(r, 2 * w)))); }
    else incomplete(s, "smul overflow");
    break; }
  case Intrinsic::fabs: perLane([&](unsigned l) { return VE(mkBin(K_AND, toE(OPL(s, x.ops[0], l), x.w), mkConst(maskw(x.w - 1), x.w))); }); break;
  case Intrinsic::sqrt: perLane([&](unsigned l) { return VE(mkUn(K_FSQRT, toE(OPL(s, x.ops[0], l), x.w), x.w)); }); break;
  case Intrinsic::floor: perLane([&](unsigned l) { return VE(mkUn(K_FFLOOR, toE(OPL(s, x.ops[0], l), x.w), x.w)); }); break;
  case Intrinsic::ceil: perLane([&](unsigned l) { return VE(mkUn(K_FCEIL, toE(OPL(s, x.ops[0], l), x.w), x.w)); }); break;
  case Intrinsic::trunc: perLane([&](unsigned l) { return VE(mkUn(K_FTRUNC, toE(OPL(s, x.ops[0], l), x.w), x.w)); }); break;
  case Intrinsic::copysign: perLane([&](unsigned l) { unsigned w = x.w; return VE(mkOr(mkBin(K_AND, toE(OPL(s, x.ops[0], l), w), mkConst(maskw(w - 1), w)), mkBin(K_AND, toE(OPL(s, x.ops[1], l), w), mkConst(1ull << (w - 1), w)))); }); break;
  case Intrinsic::fmuladd: case Intrinsic::fma: perLane([&](unsigned l) { Val m = bin(s, Instruction::FMul, OPL(s, x.ops[0], l), OPL(s, x.ops[1], l), x.w); return bin(s, Instruction::FAdd, m, OPL(s, x.ops[2], l), x.w); }); break;
  case Intrinsic::minnum: case Intrinsic::maxnum: perLane([&](unsigned l) { Val a = OPL(s, x.ops[0], l), b = OPL(s, x.ops[1], l); E ea = toE(a, x.w), eb = toE(b, x.w); E c = x.imm == Intrinsic::minnum ? mkBin(K_FOLE, ea, eb) : mkBin(K_FOLE, eb, ea); return VE(mkIte(mkOr(c, mkBin(K_FUNO, eb, eb)), ea, eb)); }); break;
  case Intrinsic::vector_reduce_add: { Val r = V(0); unsigned n = nLanes(cast<CallBase>(x.I)->getArgOperand(0)->getType()); for (unsigned l = 0; l < n; l++) r = bin(s, Instruction::Add, r, OPL(s, x.ops[0], l), x.w); setRet(s, x, r); break; }
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { unsigned n = nLanes(cast<CallBase>(x.I)->getArgOperand(0)->getType()); Val r = OPL(s, x.ops[0], 0); for (unsigned l = 1; l < n; l++) r = bin(s, x.imm == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And, r, OPL(s, x.ops[0], l), x.w); setRet(s, x, r); break; }
  case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: { std::string n = x.imm == Intrinsic::sin ? "sin" : x.imm == Intrinsic::cos ? "cos" : x.imm == Intrinsic::exp ? "exp" : "log"; Val a = A(0); if (!a.e) setRet(s, x, V(doMath1(x.w == 32 ? n + "f" : n, a.c, x.w))); else setRet(s, x, VE(ufApp(x.w == 32 ? n + "f" : n, {a.e}, x.w))); break; }
  case Intrinsic::pow: { Val a = A(0), b = A(1); if (!a.e && !b.e) setRet(s, x, x.w == 32 ? V(f2bits(powf(bits2f(a.c), bits2f(b.c)))) : V(d2bits(pow(bits2d(a.c), bits2d(b.c))))); else setRet(s, x, VE(ufApp("pow", {toE(a, x.w), toE(b, x.w)}, x.w))); break; }
  case Intrinsic::is_fpclass: { // test bits
    uint64_t mask = A(1).c; unsigned w = x.w2; E e = toE(A(0), w); E nan = mkBin(K_FUNO, e, e); E r = mkConst(0, 1);
    unsigned eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52; E ex = mkExtract(e, mb, eb), mn = mkExtract(e, 0, mb), sg = mkExtract(e, w - 1, 1);
    E inf = mkAnd(mkEq(ex, mkConst(~0ull, eb)), mkEq(mn, mkConst(0, mb))), ze = mkAnd(mkEq(ex, mkConst(0, eb)), mkEq(mn, mkConst(0, mb)));
    E sub = mkAnd(mkEq(ex, mkConst(0, eb)), mkNot(mkEq(mn, mkConst(0, mb)))); E nor = mkAnd(mkNot(mkEq(ex, mkConst(0, eb))), mkNot(mkEq(ex, mkConst(~0ull, eb))));
    if (mask & 3) r = mkOr(r, nan);
    if (mask & 4) r = mkOr(r, mkAnd(inf, sg)); if (mask & 8) r = mkOr(r, mkAnd(nor, sg)); if (mask & 16) r = mkOr(r, mkAnd(sub, sg)); if (mask & 32) r = mkOr(r, mkAnd(ze, sg));
    if (mask & 64) r = mkOr(r, mkAnd(ze, mkNot(sg))); if (mask & 128) r = mkOr(r, mkAnd(sub, mkNot(sg))); if (mask & 256) r = mkOr(r, mkAnd(nor, mkNot(sg))); if (mask & 512) r = mkOr(r, mkAnd(inf, mkNot(sg)));
    setRet(s, x, VE(r)); break; }
  default: incomplete(s, "intrinsic " + x.callee->getName().str());
  }
  return false;
}

static void callFunc(State &s, Function *F, const Inst &x, bool) {
  Func *f = getFunc(F); f->calls++;
  if (s.stack.size() > 2000) fail(s, "memory", "stack overflow (unbounded recursion)");
  uint32_t nb = (uint32_t)s.regs.size();
  size_t nargs = f->argReg.size();
  s.regs.resize(nb + f->nregs, Val{0, nullptr});
  uint32_t cb = s.stack.back().base;
  auto opv = [&](int32_t o) -> const Val & { return o >= 0 ? s.regs[cb + o] : pool[~o]; };
  std::vector<uint64_t> byv;
  for (size_t i = 0; i < nargs && i < x.argLanes.size(); i++) {
    for (unsigned l = 0; l < f->argLanes[i] && l < x.argLanes[i]; l++) s.regs[nb + f->argReg[i] + l] = opv(lop(x.ops[i], (int)l));
    if (x.argByval[i]) { uint64_t c = allocObj(s, x.argByval[i], OB_STACK, 4, false, 0); uint64_t src = opv(x.ops[i]).c; copyMem(s, c, src, x.argByval[i]); s.regs[nb + f->argReg[i]] = V(c); byv.push_back(c); }
  }
  uint64_t va = 0;
  if (F->isVarArg() && x.argLanes.size() > nargs) { // the other arguments, laid out as on the stack
    va = allocObj(s, 8 * (x.argLanes.size() - nargs), OB_STACK, 4, true, 0); byv.push_back(va);
    for (size_t i = nargs; i < x.argLanes.size(); i++) { if (x.argLanes[i] != 1) incomplete(s, "variable argument of several parts"); Val v = opv(x.ops[i]); storeVal(s, V(va + 8 * (i - nargs)), v, v.e ? v.e->w : 64); }
  }
  Frame fr; fr.f = f; fr.pc = 0; fr.base = nb; fr.retDst = x.dst; fr.retLanes = x.nl; fr.allocas = std::move(byv); fr.va = va;
  s.stack.push_back(std::move(fr));
}

static void branchTo(State &s, const Inst &x, E cond) {
  // two-way fork
  nBranchSym++;
  bool v = evalExpr(cond, *s.model);
  E c = v ? cond : mkNot(cond);
  Model m; SatRes r = ask(s, mkNot(c), &m);
  if (r == R_SAT) { State *o = forkState(s); addC(*o, mkNot(c)); o->model = std::make_shared<Model>(std::move(m)); o->branches++; takeEdge(*o, x.edges[v ? 1 : 0]); }
  else if (r == R_UNKNOWN) { nIncomplete++; incompleteWhy["solver timeout (branch) @ " + locOf(&x)]++; }
  if (r == R_SAT || r == R_UNKNOWN) addC(s, c); // when UNSAT the constraint is implied
  s.branches++;
  takeEdge(s, x.edges[v ? 0 : 1]);
}

static bool step(State &s) { // returns false when the path is finished
  Frame &f = s.stack.back();
  const Inst &x = f.f->code[f.pc];
  x.hit = true; s.quiet = false;
  s.steps++; nSteps++;
  switch (x.op) {
  case Instruction::Alloca: {
    const Val &nv = OPV(s, x.ops[0]); uint64_t n = concretize(s, nv, nv.e ? nv.e->w : 64);
    uint64_t a = allocObj(s, x.imm * n, OB_STACK, x.w2, false, 0); s.stack.back().allocas.push_back(a); R(s, x.dst) = V(a); s.stack.back().pc++; break; }
  case Instruction::Load: {
    Val p = OPV(s, x.ops[0]);
    if (s.conc && cast<LoadInst>(x.I)->isAtomic()) { s.quiet = true; hbAcquire(s, concretize(s, p, 64)); }
    if (x.lanes.size() == 1) { Val v = loadVal(s, p, x.lanes[0].w); R(s, x.dst) = v; }
    else {
      uint64_t a = concretize(s, p, 64); checkedR(s, a, x.imm);
      for (size_t i = 0; i < x.lanes.size(); i++) { Val v = loadVal(s, V(a + x.lanes[i].off), x.lanes[i].w); R(s, x.dst + (int)i) = v; }
    }
    s.stack.back().pc++; break; }
  case Instruction::Store: {
    Val p = OPV(s, x.ops[1]);
    uint64_t a = concretize(s, p, 64);
    if (s.conc && cast<StoreInst>(x.I)->isAtomic()) { s.quiet = true; hbRelease(s, a); }
    if (x.lanes.size() != 1) checkedW(s, a, x.imm);
    for (size_t i = 0; i < x.lanes.size(); i++) storeVal(s, V(a + x.lanes[i].off), OPL(s, x.ops[0], (unsigned)i), x.lanes[i].w);
    s.stack.back().pc++; break; }
  case Instruction::GetElementPtr: {
    Val b = OPV(s, x.ops[0]);
    if (!b.e) b.c += x.imm; else if (x.imm) b = VE(mkBin(K_ADD, b.e, mkConst(x.imm, 64)));
    for (size_t i = 0; i < x.gep.size(); i++) {
      const Val &iv = OPV(s, x.gep[i].first); unsigned w = x.gepw[i];
      if (!iv.e && !b.e) b.c += (uint64_t)(sextw(iv.c, w) * x.gep[i].second);
      else { E ie = mkSExt(toE(iv, w), 64); E t = mkBin(K_ADD, toE(b, 64), mkBin(K_MUL, ie, mkConst((uint64_t)x.gep[i].second, 64))); b = VE(t); }
    }
    R(s, x.dst) = b; f.pc++; break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    if (x.w == 128) {
      Val al = OPL(s, x.ops[0], 0), ah = OPL(s, x.ops[0], 1), bl = OPL(s, x.ops[1], 0), bh = OPL(s, x.ops[1], 1);
      if (x.op == Instruction::Or || x.op == Instruction::And || x.op == Instruction::Xor) { Val l = bin(s, x.op, al, bl, 64), h = bin(s, x.op, ah, bh, 64); R(s, x.dst) = l; R(s, x.dst + 1) = h; }
      else if (!bl.e && x.op == Instruction::Shl && bl.c >= 64) { R(s, x.dst + 1) = bin(s, Instruction::Shl, al, V(bl.c - 64), 64); R(s, x.dst) = V(0); }
      else if (!bl.e && x.op == Instruction::LShr && bl.c >= 64) { Val h = ah; R(s, x.dst) = bin(s, Instruction::LShr, h, V(bl.c - 64), 64); R(s, x.dst + 1) = V(0); }
      else if (!al.e && !ah.e && !bl.e && !bh.e) {
        unsigned __int128 a = ((unsigned __int128)ah.c << 64) | al.c, b = ((unsigned __int128)bh.c << 64) | bl.c, r = 0;
        switch (x.op) { case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break; case Instruction::UDiv: if (!b) fail(s, "arith", "integer division by zero"); r = a / b; break; case Instruction::URem: if (!b) fail(s, "arith", "integer division by zero"); r = a % b; break; case Instruction::Shl: r = a << (unsigned)b; break; case Instruction::LShr: r = a >> (unsigned)b; break; default: incomplete(s, "i128 op"); }
        R(s, x.dst) = V((uint64_t)r); R(s, x.dst + 1) = V((uint64_t)(r >> 64));
      } else incomplete(s, "symbolic i128 arithmetic");
      f.pc++; break;
    }
    if (x.nl == 1) { Val r = bin(s, x.op, OPV(s, x.ops[0]), OPV(s, x.ops[1]), x.w); R(s, x.dst) = r; }
    else for (unsigned l = 0; l < x.nl; l++) { Val r = bin(s, x.op, OPL(s, x.ops[0], l), OPL(s, x.ops[1], l), x.w); R(s, x.dst + (int)l) = r; }
    f.pc++; break;
  case Instruction::FNeg: for (unsigned l = 0; l < x.nl; l++) { Val r = bin(s, Instruction::Xor, OPL(s, x.ops[0], l), V(1ull << (x.w - 1)), x.w); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::ICmp:
    if (x.w2 == 128) { Val lo = icmp(CmpInst::ICMP_EQ, OPL(s, x.ops[0], 0), OPL(s, x.ops[1], 0), 64), hi = icmp(CmpInst::ICMP_EQ, OPL(s, x.ops[0], 1), OPL(s, x.ops[1], 1), 64); Val r;
      if (x.pred == CmpInst::ICMP_EQ) r = bin(s, Instruction::And, lo, hi, 1); else if (x.pred == CmpInst::ICMP_NE) r = bin(s, Instruction::Xor, bin(s, Instruction::And, lo, hi, 1), V(1), 1);
      else { Val a = icmp(x.pred, OPL(s, x.ops[0], 0), OPL(s, x.ops[1], 0), 64), b = icmp(x.pred, OPL(s, x.ops[0], 1), OPL(s, x.ops[1], 1), 64); r = hi.e ? VE(mkIte(hi.e, toE(a, 1), toE(b, 1))) : hi.c ? a : b; }
      R(s, x.dst) = r; f.pc++; break; }
    for (unsigned l = 0; l < x.nl; l++) { Val ca = OPL(s, x.ops[0], l), cb = OPL(s, x.ops[1], l); Val r = icmp(x.pred, ca, cb, x.w2); if (!r.e && (ca.e || cb.e)) nIdentity++; R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::FCmp: for (unsigned l = 0; l < x.nl; l++) { Val r = fcmp(x.pred, OPL(s, x.ops[0], l), OPL(s, x.ops[1], l), x.w2); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
    if (x.w == 128 || x.w2 == 128) {
      if (x.op == Instruction::Trunc) { Val a = OPL(s, x.ops[0], 0); R(s, x.dst) = castv(s, Instruction::Trunc, a, 64, x.w); }
      else if (x.op == Instruction::ZExt) { Val a = castv(s, Instruction::ZExt, OPV(s, x.ops[0]), x.w2, 64); R(s, x.dst) = a; R(s, x.dst + 1) = V(0); }
      else if (x.op == Instruction::SExt) { Val a = castv(s, Instruction::SExt, OPV(s, x.ops[0]), x.w2, 64); R(s, x.dst) = a; R(s, x.dst + 1) = bin(s, Instruction::AShr, a, V(63), 64); }
      else incomplete(s, "i128 cast");
      f.pc++; break;
    }
    if (x.w > 64 || x.w2 > 64) incomplete(s, "wide float cast");
    for (unsigned l = 0; l < x.nl; l++) { Val r = castv(s, x.op, OPL(s, x.ops[0], l), x.w2, x.w); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::BitCast: {
    if (x.nl == x.imm) { for (unsigned l = 0; l < x.nl; l++) { Val r = OPL(s, x.ops[0], l); R(s, x.dst + (int)l) = r; } }
    else if (x.nl < x.imm && x.nl == 1) { E r = nullptr; for (unsigned l = 0; l < x.imm; l++) { E e = toE(OPL(s, x.ops[0], l), x.w2); r = r ? mkConcat(e, r) : e; } R(s, x.dst) = VE(r); }
    else if (x.imm == 1) { Val a = OPV(s, x.ops[0]); E e = toE(a, x.w * x.nl); for (unsigned l = 0; l < x.nl; l++) R(s, x.dst + (int)l) = VE(mkExtract(e, l * x.w, x.w)); }
    else if (x.imm > x.nl) { unsigned k = (unsigned)x.imm / x.nl; std::vector<Val> o; for (unsigned j = 0; j < x.nl; j++) { E r = nullptr; for (unsigned l = 0; l < k; l++) { E e = toE(OPL(s, x.ops[0], j * k + l), x.w2); r = r ? mkConcat(e, r) : e; } o.push_back(VE(r)); } for (unsigned j = 0; j < x.nl; j++) R(s, x.dst + (int)j) = o[j]; }
    else { unsigned k = x.nl / (unsigned)x.imm; std::vector<Val> o; for (unsigned j = 0; j < x.imm; j++) { E e = toE(OPL(s, x.ops[0], j), x.w2); for (unsigned l = 0; l < k; l++) o.push_back(VE(mkExtract(e, l * x.w, x.w))); } for (unsigned j = 0; j < x.nl; j++) R(s, x.dst + (int)j) = o[j]; }
    f.pc++; break; }
  case Instruction::Freeze: for (unsigned l = 0; l < x.nl; l++) { Val r = OPL(s, x.ops[0], l); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::Select: {
    for (unsigned l = 0; l < x.nl; l++) {
      Val c = OPL(s, x.ops[0], x.imm == 1 ? 0 : l); Val a = OPL(s, x.ops[1], l), b = OPL(s, x.ops[2], l);
      if (!c.e) R(s, x.dst + (int)l) = c.c ? a : b; else { unsigned w = x.lanes[l].w; 
        R(s, x.dst + (int)l) = VE(mkIte(c.e, toE(a, w), toE(b, w))); }
    }
    f.pc++; break; }
  case Instruction::Br:
    if (x.ops.empty()) { takeEdge(s, x.edges[0]); break; }
    { Val c = OPV(s, x.ops[0]); if (!c.e) takeEdge(s, x.edges[c.c ? 0 : 1]); else branchTo(s, x, c.e); }
    break;
  case Instruction::Switch: {
    Val c = OPV(s, x.ops[0]);
    if (!c.e) { size_t k = 0; for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == c.c) { k = i + 1; break; } takeEdge(s, x.edges[k]); break; }
    // decide case by case (re-executing forks): is it case i ?
    nBranchSym++;
    uint64_t v = evalExpr(c.e, *s.model); size_t k = 0; for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == v) { k = i + 1; break; }
    E cond; if (k) cond = mkEq(c.e, mkConst(x.cases[k - 1], x.w2)); else { cond = mkConst(1, 1); for (uint64_t cv : x.cases) cond = mkAnd(cond, mkNot(mkEq(c.e, mkConst(cv, x.w2)))); }
    bool d = decide(s, cond); (void)d;
    takeEdge(s, x.edges[k]); break; }
  case Instruction::Ret: {
    static std::vector<Val> rv; rv.clear();
    for (unsigned l = 0; l < x.nl; l++) rv.push_back(OPL(s, x.ops[0], l));
    int32_t d = f.retDst; unsigned rl = f.retLanes;
    if (s.stack.size() == 1) {
      if (s.conc && s.cur) { for (uint64_t a : f.allocas) s.mem.erase(a); s.lastObj = nullptr; s.lastBase = 1; s.lastEnd = 0; s.thr[(size_t)s.cur].done = true; reschedule(s); return true; }
      return false;
    }
    popFrame(s);
    for (unsigned l = 0; l < rl && l < rv.size(); l++) R(s, d + (int)l) = rv[l];
    Frame &c = s.stack.back(); const Inst &ci = c.f->code[c.pc];
    advance(s, ci); break; }
  case Instruction::ExtractValue: for (unsigned l = 0; l < x.nl; l++) { Val r = OPL(s, x.ops[0], (unsigned)x.imm + l); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::InsertValue: for (unsigned l = 0; l < x.nl; l++) { Val r = (l >= x.imm && l < x.imm + x.w2) ? OPL(s, x.ops[1], l - (unsigned)x.imm) : OPL(s, x.ops[0], l); R(s, x.dst + (int)l) = r; } f.pc++; break;
  case Instruction::ExtractElement: { const Val &iv = OPV(s, x.ops[1]); uint64_t i = concretize(s, iv, iv.e ? iv.e->w : 64); Val r = OPL(s, x.ops[0], (unsigned)i); R(s, x.dst) = r; s.stack.back().pc++; break; }
  case Instruction::InsertElement: { const Val &iv = OPV(s, x.ops[2]); uint64_t i = concretize(s, iv, iv.e ? iv.e->w : 64); for (unsigned l = 0; l < x.nl; l++) { Val r = l == i ? OPV(s, x.ops[1]) : OPL(s, x.ops[0], l); R(s, x.dst + (int)l) = r; } s.stack.back().pc++; break; }
  case Instruction::ShuffleVector: { std::vector<Val> o; for (int m : x.clauses) o.push_back(m < 0 ? V(0) : (uint64_t)m < x.imm ? OPL(s, x.ops[0], (unsigned)m) : OPL(s, x.ops[1], (unsigned)(m - (int)x.imm))); for (unsigned l = 0; l < x.nl; l++) R(s, x.dst + (int)l) = o[l]; f.pc++; break; }
  case Instruction::Call: case Instruction::Invoke: {
    if (x.builtin == OP_BUILTIN_INTRINSIC) { doIntrinsic(s, x); advance(s, x); break; }
    if (x.builtin >= 0) { if (!doBuiltin(s, x)) advance(s, x); break; }
    if (x.builtin == -2) incomplete(s, "call to unmodelled external function " + x.callee->getName().str());
    if (x.builtin == -3) { for (unsigned l = 0; l < x.nl; l++) R(s, x.dst + (int)l) = V(0); advance(s, x); break; } // inline asm: ignored (barriers)
    if (x.builtin == -4) {
      uint64_t a = concretize(s, OPV(s, x.ops.back()), 64);
      auto it = faddr.find(a); if (it == faddr.end()) fail(s, "memory", "call through an invalid function pointer");
      Function *F = it->second;
      int b = builtinId(F->getName().str());
      if (b >= 0) { static std::map<std::pair<const Inst *, Function *>, Inst> cache; auto &y = cache[{&x, F}]; if (!y.I) { y = x; y.builtin = b; y.callee = F; } if (!doBuiltin(s, y)) advance(s, x); break; }
      if (F->isDeclaration()) incomplete(s, "call to unmodelled external function " + F->getName().str());
      callFunc(s, F, x, true); break;
    }
    callFunc(s, x.callee, x, true); break; }
  case Instruction::Resume: s.excObj = concretize(s, OPL(s, x.ops[0], 0), 64); s.excType = s.excTypes[s.excObj]; 
    if (s.stack.size() == 1) fail(s, "exception", "uncaught C++ exception");
    popFrame(s); unwind(s); break;
  case Instruction::Unreachable: fail(s, "abort", "control reached an unreachable instruction (undefined behaviour)");
  case Instruction::Fence: f.pc++; break;
  case Instruction::AtomicRMW: {
    Val p = OPV(s, x.ops[0]); uint64_t a = concretize(s, p, 64); if (s.conc) { s.quiet = true; hbAcquire(s, a); hbRelease(s, a); } Val old = loadVal(s, V(a), x.w), v = OPV(s, x.ops[1]), nw;
    switch (x.pred) { case AtomicRMWInst::Add: nw = bin(s, Instruction::Add, old, v, x.w); break; case AtomicRMWInst::Sub: nw = bin(s, Instruction::Sub, old, v, x.w); break; case AtomicRMWInst::Xchg: nw = v; break; case AtomicRMWInst::And: nw = bin(s, Instruction::And, old, v, x.w); break; case AtomicRMWInst::Or: nw = bin(s, Instruction::Or, old, v, x.w); break; default: incomplete(s, "atomicrmw"); }
    storeVal(s, V(a), nw, x.w); R(s, x.dst) = old; s.stack.back().pc++; break; }
  case Instruction::AtomicCmpXchg: {
    uint64_t a = concretize(s, OPV(s, x.ops[0]), 64); if (s.conc) { s.quiet = true; hbAcquire(s, a); hbRelease(s, a); } Val old = loadVal(s, V(a), x.w); Val eq = icmp(CmpInst::ICMP_EQ, old, OPV(s, x.ops[1]), x.w);
    Val n = OPV(s, x.ops[2]); Val st = eq.e ? VE(mkIte(eq.e, toE(n, x.w), toE(old, x.w))) : eq.c ? n : old; storeVal(s, V(a), st, x.w); R(s, x.dst) = old; R(s, x.dst + 1) = eq; s.stack.back().pc++; break; }
  default: incomplete(s, std::string("instruction ") + (x.I ? x.I->getOpcodeName() : "?"));
  }
  return true;
}

static void finishPath(State &s) {
  nPaths++;
  // reservoir-less sampling: keep first few and then every 2^k-th path
  bool take = samples.size() < nSamples / 2 || ((nPaths & (nPaths - 1)) == 0);
  if (take) { samples.push_back(inputsOf(s, *s.model)); if (samples.size() > nSamples) samples.erase(samples.begin() + nSamples / 2); }
}

static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
static void jins(std::ostream &o, const std::vector<std::pair<std::string, uint64_t>> &in) { o << "["; bool f = true; for (auto &i : in) { if (!f) o << ","; f = false; o << "[" << jstr(i.first) << "," << i.second << "]"; } o << "]"; }

static int realMain(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--max-time") maxTime = atof(nx().c_str()); else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--solver-ms") gSolverTimeoutMs = (unsigned)atoi(nx().c_str()); else if (a == "--out") outFile = nx(); else if (a == "-v") verbose = true;
    else if (a == "--cfg") { std::string kv = nx(); size_t p = kv.find('='); cfg[kv.substr(0, p)] = atoll(kv.c_str() + p + 1); }
    else if (a == "--lib") libPrefix = nx(); else if (a == "--samples") nSamples = (unsigned)atoi(nx().c_str()); else if (a == "--entry") entryName = nx(); else if (a == "--max-viol") maxViol = (unsigned)atoi(nx().c_str()); else if (a == "--seed") searchSeed = (unsigned)atoi(nx().c_str());
    else bc = a;
  }
  SMDiagnostic err; M = parseIRFile(bc, err, LC);
  if (!M) { err.print("symex", errs()); return 3; }
  DL = &M->getDataLayout();
  // addresses
  uint64_t fa = 0x1000000; for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  uint64_t ga = 0x10000000;
  auto init = std::make_unique<State>();
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (sz == 0) sz = 1;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 128);
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16); ga = (ga + al - 1) & ~(al - 1);
    gaddr[&G] = ga; std::string n = G.getName().str();
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVt = ga; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVt = ga; if (n == "_ZTVN10__cxxabiv117__class_type_infoE") clsVt = ga;
    ga += sz + 32;
  }
  for (auto &G : M->globals()) {
    auto o = std::make_shared<MemObj>(); o->base = gaddr[&G]; o->size = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; o->kind = OB_GLOBAL; o->gv = &G;
    if (G.isDeclaration()) o->size = std::max<uint64_t>(o->size, 128);
    o->b.assign(o->size, 0);
    if (G.hasInitializer()) initBytes(G.getInitializer(), 0, *o);
    if (G.isConstant() && G.hasInitializer()) { o->ro = true; constMem[o->base] = o; } else init->mem[o->base] = o;
  }
  { // globals the model does not touch belong to the code under test (or to the harness)
    for (auto &G : M->globals()) {
      std::string n = G.getName().str(); if (G.isConstant() || n.compare(0, 4, "_ZSt") == 0 || n.compare(0, 5, "_ZNSt") == 0 || n.compare(0, 4, "_ZGV") == 0) continue;
      bool shim = false, lib = false; std::vector<const User *> q(G.user_begin(), G.user_end()); std::set<const User *> seen;
      while (!q.empty()) { const User *u = q.back(); q.pop_back(); if (!seen.insert(u).second) continue;
        if (auto *I = dyn_cast<Instruction>(u)) { if (auto *SP = I->getFunction()->getSubprogram()) { std::string f = SP->getDirectory().str() + "/" + SP->getFilename().str(); if (f.find("/shim/") != std::string::npos) shim = true; if (f.find(libPrefix) != std::string::npos) lib = true; } }
        else q.insert(q.end(), u->user_begin(), u->user_end()); }
      if (lib && !shim) libGlobals.insert(&G);
    }
  }
  init->heapNext = 0x100000000ull; init->model = std::make_shared<Model>();
  // entry sequence: global constructors then main.  Build a driver function.
  Function *mainF = M->getFunction(entryName); if (!mainF) { fprintf(stderr, "no entry\n"); return 3; }
  FunctionType *FT = FunctionType::get(Type::getVoidTy(LC), false);
  Function *drv = Function::Create(FT, GlobalValue::InternalLinkage, "__sx_driver", M.get()); gaddr[drv] = fa; faddr[fa] = drv;
  BasicBlock *bb = BasicBlock::Create(LC, "e", drv);
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &o : CA->operands()) { auto *CS = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), cast<Function>(CS->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) CallInst::Create(c.second->getFunctionType(), c.second, "", bb);
  { std::vector<Value *> args; for (auto &A : mainF->args()) args.push_back(Constant::getNullValue(A.getType())); CallInst::Create(mainF->getFunctionType(), mainF, args, "", bb); }
  ReturnInst::Create(LC, bb);
  Frame fr; fr.f = getFunc(drv); fr.pc = 0; fr.base = 0; fr.retDst = -1; fr.retLanes = 0;
  init->regs.resize(fr.f->nregs, V(0)); init->stack.push_back(fr);
  work.push_back(std::move(init));
  bool timedOut = false; uint64_t asked = gSolver.queries;
  // a query under way when the time is over is given up
  std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); if (elapsed() > maxTime + 2) solverInterrupt(); } }).detach();
  std::mt19937 rng(searchSeed);
  while (!work.empty()) {
    if (elapsed() > maxTime || nPaths + nIncomplete > maxPaths || viols.size() >= maxViol) { timedOut = true; break; }
    if (searchSeed && work.size() > 1 && (nPaths & 1)) std::swap(work.back(), work[rng() % work.size()]);
    std::unique_ptr<State> st = std::move(work.back()); work.pop_back();
    State &s = *st;
    try {
      unsigned tick = 0; bool alive = true;
      while ((alive = step(s))) {
        if (s.steps > maxSteps) { report(s, "hang", "path exceeded the instruction budget (possible non-termination)", *s.model); nIncomplete++; incompleteWhy["instruction budget"]++; throw PathEnd{2}; }
        if (((++tick & 0xfff) == 0 || gSolver.queries != asked) && (asked = gSolver.queries, elapsed() > maxTime)) { timedOut = true; break; }
      }
      if (!alive) finishPath(s); else { nIncomplete++; incompleteWhy["time budget"]++; break; }
    } catch (PathEnd &e) { if (e.kind == 0) finishPath(s); else if (e.kind == 2) nPaths++; }
  }
  uint64_t left = work.size();
  if (verbose) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &k : forkSites) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "[forks] %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  bool complete = !timedOut && left == 0 && nIncomplete == 0;
  // functions of the code under test that were executed
  std::vector<std::pair<std::string, uint64_t>> fl; uint64_t hitI = 0, allI = 0;
  for (auto &kv : funcs) if (kv.second->lib) { uint64_t h = 0; for (auto &i : kv.second->code) h += i.hit; hitI += h; allI += kv.second->code.size(); fl.push_back({kv.second->name, kv.second->calls}); }
  std::sort(fl.begin(), fl.end());
  std::ostringstream o;
  o << "{\"complete\":" << (complete ? "true" : "false") << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"pending_states\":" << left << ",\"paths\":" << nPaths << ",\"states\":" << nStates << ",\"forks\":" << nForks << ",\"symbolic_branches\":" << nBranchSym << ",\"instructions\":" << nSteps << ",\"assume_killed\":" << nAssumeKill << ",\"huge_alloc_cut\":" << nHuge << ",\"checks\":" << nChecks << ",\"checks_symbolic\":" << nChecksSymbolic << ",\"comparisons_settled_by_rewriting\":" << nIdentity << ",\"incomplete\":" << nIncomplete << ",\"wall_s\":" << elapsed();
  o << ",\"solver\":{\"queries\":" << gSolver.queries << ",\"z3_calls\":" << gSolver.z3calls << ",\"cache_hits\":" << gSolver.cacheHits << ",\"sat\":" << gSolver.sat << ",\"unsat\":" << gSolver.unsat << ",\"unknown\":" << gSolver.unknown << ",\"seconds\":" << gSolver.seconds << ",\"max_query_s\":" << gSolver.maxq << "}";
  o << ",\"lib_instructions_hit\":" << hitI << ",\"lib_instructions_in_entered_functions\":" << allI;
  o << ",\"incomplete_why\":{"; { bool f = true; for (auto &k : incompleteWhy) { if (!f) o << ","; f = false; o << jstr(k.first) << ":" << k.second; } } o << "}";
  o << ",\"covers\":{"; { bool f = true; for (auto &k : covers) { if (!f) o << ","; f = false; o << jstr(k.first) << ":" << k.second; } } o << "}";
  o << ",\"functions\":["; { bool f = true; for (auto &k : fl) { if (!f) o << ","; f = false; o << jstr(k.first); } } o << "]";
  o << ",\"violations\":["; { bool f = true; for (auto &v : viols) { if (!f) o << ","; f = false; o << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"trace\":["; bool g = true; for (auto &t : v.trace) { if (!g) o << ","; g = false; o << jstr(t); } o << "],\"inputs\":"; jins(o, v.in); o << ",\"free\":["; g = true; for (auto &t : v.free) { if (!g) o << ","; g = false; o << jstr(t); } o << "]}"; } } o << "]";
  o << ",\"samples\":["; { bool f = true; for (auto &v : samples) { if (!f) o << ","; f = false; jins(o, v); } } o << "]}";
  if (outFile.empty()) std::cout << o.str() << std::endl; else { std::ofstream f(outFile); f << o.str() << std::endl; }
  std::cout.flush(); fflush(stderr);
  _exit(0);
}
static int gArgc; static char **gArgv; static int gRet;
static void *thr(void *) { gRet = realMain(gArgc, gArgv); return nullptr; }
int main(int argc, char **argv) {
  gArgc = argc; gArgv = argv;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1ull << 30);
  pthread_t t; if (pthread_create(&t, &a, thr, nullptr)) { perror("pthread_create"); return 3; }
  pthread_join(t, nullptr); return gRet;
}
