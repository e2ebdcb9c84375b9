#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <memory>
#include <unordered_map>
#include <string>
#include <vector>

struct Val { uint64_t c; E e; };
static inline Val V(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(E e) { if (e->isC()) return Val{e->val, nullptr}; return Val{0, e}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Lane { uint16_t w; uint32_t off; }; // bit width, byte offset

struct Inst;
struct Func;
enum Builtin : int;

struct EdgeCopy { int32_t dst, src; };
struct Edge { uint32_t target; std::vector<EdgeCopy> copies; };

struct Inst {
  uint16_t op = 0;
  uint8_t w = 0, w2 = 0, pred = 0;
  uint16_t nl = 1; // result lanes
  int32_t dst = -1;
  std::vector<int32_t> ops;
  uint64_t imm = 0;
  std::vector<Lane> lanes;
  std::vector<std::pair<int32_t, int64_t>> gep; // (operand, scale)
  std::vector<uint8_t> gepw;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  std::vector<uint16_t> argLanes; std::vector<uint64_t> argByval;
  llvm::Function *callee = nullptr; Func *cf = nullptr; int builtin = -1;
  const llvm::Instruction *I = nullptr;
  std::vector<int32_t> clauses; // landingpad: operand of typeinfo, kinds
  std::vector<uint8_t> clauseKind;
  bool cleanup = false;
  mutable bool hit = false;
};

struct Func {
  llvm::Function *F = nullptr;
  std::vector<Inst> code;
  std::vector<uint32_t> blockStart;
  std::vector<Edge> dummy;
  uint32_t nregs = 0;
  std::vector<int32_t> argReg; std::vector<uint16_t> argLanes;
  bool lib = false; // defined in the code under test
  std::string name;
  uint64_t calls = 0;
};

enum ObjKind : uint8_t { OB_HEAP, OB_STACK, OB_GLOBAL, OB_EXC };
struct MemObj {
  uint64_t base; uint64_t size; ObjKind kind; bool ro = false; uint8_t fam = 0; // 0 malloc 1 new 2 new[]
  const Inst *site = nullptr; const llvm::GlobalVariable *gv = nullptr;
  std::vector<uint8_t> b;   // lazily allocated
  std::vector<E> sym;       // empty = none
  std::vector<uint8_t> un;  // empty = all initialised
  bool lazyUninit = false;  // nothing written yet, all uninitialised
  bool lazyZero = false;
  void materialise() {
    if (lazyUninit) { b.assign(size, 0); un.assign(size, 1); lazyUninit = false; }
    else if (lazyZero) { b.assign(size, 0); lazyZero = false; }
  }
};
typedef std::shared_ptr<MemObj> Ref;

struct Frame {
  Func *f; uint32_t pc; uint32_t base; // register base
  std::vector<uint64_t> allocas;
  int32_t retDst; uint16_t retLanes; // in the caller frame
  std::vector<uint64_t> heapMarks;
  uint64_t va = 0; // where the variable arguments are
};

struct RaceInfo { uint8_t rd = 0, wr = 0; int lockset = -1; const Inst *first = nullptr; };

// one thread of the program under test; the running thread's part lives in State itself
struct Thread {
  std::vector<Val> regs; std::vector<Frame> stack; std::vector<std::pair<uint64_t, uint64_t>> caught; uint64_t excObj = 0, excType = 0;
  bool done = false; uint64_t waits = 0; // address of the lock or guard it wants (1: none in particular)
};
typedef std::vector<uint32_t> VC;
enum { MAXT = 4 };
struct Sh { uint16_t w[MAXT] = {0}, r[MAXT] = {0}; };

struct State {
  uint64_t id = 0;
  std::vector<Val> regs;
  std::vector<Frame> stack;
  std::map<uint64_t, Ref> mem;
  std::vector<E> cs;
  std::set<uint32_t> csIds;
  std::shared_ptr<Model> model;
  uint64_t heapNext, steps = 0;
  uint64_t liveHeap = 0, liveHeapBytes = 0;
  std::map<std::string, int> nameCount;
  std::vector<std::pair<std::string, Val>> inputs; std::vector<uint8_t> inputW;
  // exceptions
  std::vector<std::pair<uint64_t, uint64_t>> caught; // obj, typeinfo
  uint64_t excObj = 0, excType = 0;
  std::map<uint64_t, uint64_t> excTypes;
  // threads / locks
  int thread = 0; std::map<uint64_t, int> locks; bool race = false;
  std::map<uint64_t, RaceInfo> raceMap;
  // interleaved threads: vector clocks, last accesses per byte
  std::vector<Thread> thr; int cur = 0; bool conc = false, chosen = false, quiet = false, noRace = false;
  std::vector<VC> vc; std::map<uint64_t, VC> sync; std::map<uint64_t, int> guards; std::map<uint64_t, std::shared_ptr<std::vector<Sh>>> shadow;
  uint32_t branches = 0;
  uint64_t lastBase = 1, lastEnd = 0; MemObj *lastObj = nullptr;
  bool forked = false;
};
