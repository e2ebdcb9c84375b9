// Hash-consed bit-vector expressions with folding.  Widths 1..64.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <deque>
#include <unordered_map>
#include <map>
#include <cassert>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT,
  K_FPEXT, K_FPTRUNC, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
  K_FFLOOR, K_FCEIL, K_FTRUNC,
};

struct Expr {
  Kind kind;
  uint8_t w;        // width in bits
  uint32_t id;
  uint64_t val;     // const value / var index / extract low bit
  const Expr *a[3];
  uint64_t hash;
  const std::vector<uint32_t> *vars; // sorted variable ids
  bool isC() const { return kind == K_CONST; }
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline float bits2f(uint64_t v) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; }
static inline double bits2d(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static inline uint64_t f2bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t d2bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

struct VarInfo { std::string name; uint8_t w; bool input; };
extern std::vector<VarInfo> gVars;
extern std::vector<E> gExprs;

E mkVar(const std::string &name, unsigned w, bool input);
E mkConst(uint64_t v, unsigned w);
E mkBin(Kind k, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFKey(E k);
E mkUn(Kind k, E a, unsigned w); // fp unary / conversions
static inline E mkNot(E a) { return mkBin(K_XOR, a, mkConst(1, 1)); }
static inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(K_AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(K_OR, a, b); }
uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w); // operand width w
uint64_t foldUn(Kind k, uint64_t a, unsigned wa, unsigned w);
unsigned knownTrailingZeros(E e);
uint64_t knownZero(E e); // mask of bits known to be zero
std::string show(E e, int depth = 6);

// concrete assignment: variable -> value (absent means 0)
struct Model {
  std::unordered_map<uint32_t, uint64_t> v;
  uint64_t get(uint32_t i) const { auto it = v.find(i); return it == v.end() ? 0 : it->second; }
};
uint64_t evalExpr(E e, const Model &m);
// evaluator that memoises across many expressions under the same model
struct Evaluator {
  const Model &m;
  std::unordered_map<uint32_t, uint64_t> memo;
  explicit Evaluator(const Model &mm) : m(mm) {}
  uint64_t operator()(E e);
};
