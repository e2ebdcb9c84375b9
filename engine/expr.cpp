#include <map>
#include <unordered_map>
#include "expr.h"
#include <algorithm>
#include <unordered_set>
#include <functional>

std::vector<VarInfo> gVars;
std::vector<E> gExprs;
static std::deque<Expr> arena;

struct H { size_t operator()(const Expr *e) const { return e->hash; } };
struct EQ { bool operator()(const Expr *x, const Expr *y) const {
  return x->kind == y->kind && x->w == y->w && x->val == y->val && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2]; } };
static std::unordered_set<const Expr *, H, EQ> table;

static std::deque<std::vector<uint32_t>> varSets;
static const std::vector<uint32_t> *emptySet() { static const std::vector<uint32_t> *s = (varSets.emplace_back(), &varSets.back()); return s; }
static std::map<std::vector<uint32_t>, const std::vector<uint32_t> *> setTable;
static const std::vector<uint32_t> *internSet(std::vector<uint32_t> &&s) {
  auto it = setTable.find(s);
  if (it != setTable.end()) return it->second;
  varSets.push_back(s);
  const std::vector<uint32_t> *p = &varSets.back();
  setTable.emplace(std::move(s), p);
  return p;
}
static const std::vector<uint32_t> *unite(const std::vector<uint32_t> *a, const std::vector<uint32_t> *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  std::vector<uint32_t> r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return internSet(std::move(r));
}

static E intern(Kind k, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
  Expr t; t.kind = k; t.w = (uint8_t)w; t.val = val; t.a[0] = a; t.a[1] = b; t.a[2] = c;
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w; h ^= val + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  for (E x : t.a) { h ^= (x ? x->id * 0xD6E8FEB86659FD93ull + 7 : 1) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  t.hash = h;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = (uint32_t)gExprs.size();
  const std::vector<uint32_t> *vs = emptySet();
  if (k == K_VAR) vs = internSet(std::vector<uint32_t>{(uint32_t)val});
  else for (E x : t.a) if (x) vs = unite(vs, x->vars);
  t.vars = vs;
  arena.push_back(t);
  E p = &arena.back();
  gExprs.push_back(p);
  table.insert(p);
  return p;
}

E mkConst(uint64_t v, unsigned w) { return intern(K_CONST, w, v & maskw(w)); }
E mkVar(const std::string &name, unsigned w, bool input) {
  uint32_t i = (uint32_t)gVars.size();
  gVars.push_back({name, (uint8_t)w, input});
  return intern(K_VAR, w, i);
}

static uint64_t fpb(Kind k, uint64_t a, uint64_t b, unsigned w) {
  if (w == 32) {
    volatile float x = bits2f(a), y = bits2f(b); float r = 0;
    switch (k) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; case K_FREM: r = fmodf(x, y); break; default: abort(); }
    return f2bits(r);
  }
  volatile double x = bits2d(a), y = bits2d(b); double r = 0;
  switch (k) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; case K_FREM: r = fmod(x, y); break; default: abort(); }
  return d2bits(r);
}

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? a / b : m;
  case K_UREM: return b ? a % b : a;
  case K_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case K_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m;
  case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_ULE: return a <= b;
  case K_SLT: return sextw(a, w) < sextw(b, w);
  case K_SLE: return sextw(a, w) <= sextw(b, w);
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: return fpb(k, a, b, w);
  case K_FOEQ: return w == 32 ? bits2f(a) == bits2f(b) : bits2d(a) == bits2d(b);
  case K_FOLT: return w == 32 ? bits2f(a) < bits2f(b) : bits2d(a) < bits2d(b);
  case K_FOLE: return w == 32 ? bits2f(a) <= bits2f(b) : bits2d(a) <= bits2d(b);
  case K_FUNO: return w == 32 ? std::isnan(bits2f(a)) || std::isnan(bits2f(b)) : std::isnan(bits2d(a)) || std::isnan(bits2d(b));
  default: abort();
  }
}
uint64_t foldUn(Kind k, uint64_t a, unsigned wa, unsigned w) {
  switch (k) {
  case K_FSQRT: return w == 32 ? f2bits(sqrtf(bits2f(a))) : d2bits(sqrt(bits2d(a)));
  case K_FFLOOR: return w == 32 ? f2bits(floorf(bits2f(a))) : d2bits(floor(bits2d(a)));
  case K_FCEIL: return w == 32 ? f2bits(ceilf(bits2f(a))) : d2bits(ceil(bits2d(a)));
  case K_FTRUNC: return w == 32 ? f2bits(truncf(bits2f(a))) : d2bits(trunc(bits2d(a)));
  case K_FPEXT: return d2bits((double)bits2f(a));
  case K_FPTRUNC: return f2bits((float)bits2d(a));
  case K_SITOFP: { int64_t s = sextw(a, wa); return w == 32 ? f2bits((float)s) : d2bits((double)s); }
  case K_UITOFP: return w == 32 ? f2bits((float)a) : d2bits((double)a);
  case K_FPTOSI: case K_FPTOUI: {
    double d = wa == 32 ? bits2f(a) : bits2d(a);
    // x86 behaviour for out-of-range values (the result is undefined in C++)
    if (k == K_FPTOSI) {
      if (w <= 32) { double lim = w == 32 ? 2147483648.0 : 2147483648.0; if (!(d > -lim - 1 && d < lim)) return 0x80000000ull & maskw(w); return (uint64_t)(int64_t)(int32_t)d & maskw(w); }
      if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d;
    }
    if (w <= 32) { if (!(d > -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & maskw(w); }
    if (!(d >= 0)) { if (!(d > -9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d; }
    if (d >= 18446744073709551616.0) return 0; return (uint64_t)d;
  }
  default: abort();
  }
}

static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FOEQ || k == K_FUNO; }

uint64_t knownZero(E e) {
  switch (e->kind) {
  case K_CONST: return ~e->val & maskw(e->w);
  case K_ZEXT: return (maskw(e->w) & ~maskw(e->a[0]->w)) | knownZero(e->a[0]);
  case K_CONCAT: return (knownZero(e->a[0]) << e->a[1]->w) | knownZero(e->a[1]);
  case K_AND: return knownZero(e->a[0]) | knownZero(e->a[1]);
  case K_OR: case K_XOR: return knownZero(e->a[0]) & knownZero(e->a[1]);
  case K_ITE: if (e->a[1]->kind != K_ITE && e->a[2]->kind != K_ITE) return knownZero(e->a[1]) & knownZero(e->a[2]); return 0;
  case K_EXTRACT: return (knownZero(e->a[0]) >> e->val) & maskw(e->w);
  default: return 0;
  }
}
unsigned knownTrailingZeros(E e) {
  switch (e->kind) {
  case K_ADD: case K_SUB: return std::min(knownTrailingZeros(e->a[0]), knownTrailingZeros(e->a[1]));
  case K_MUL: return std::min(64u, knownTrailingZeros(e->a[0]) + knownTrailingZeros(e->a[1]));
  case K_SHL: if (e->a[1]->isC()) return std::min<uint64_t>(e->w, knownTrailingZeros(e->a[0]) + e->a[1]->val); return 0;
  case K_ITE: return std::min(knownTrailingZeros(e->a[1]), knownTrailingZeros(e->a[2]));
  case K_SEXT: case K_ZEXT: return knownTrailingZeros(e->a[0]);
  case K_CONST: return e->val ? __builtin_ctzll(e->val) : e->w;
  default: { uint64_t z = ~knownZero(e); return z ? (unsigned)__builtin_ctzll(z) : e->w; }
  }
}

static void leaves(E e, std::vector<E> &out) { // high to low
  if (e->kind == K_CONCAT) { leaves(e->a[0], out); leaves(e->a[1], out); }
  else if (e->kind == K_ZEXT) { out.push_back(mkConst(0, e->w - e->a[0]->w)); leaves(e->a[0], out); }
  else out.push_back(e);
}

E mkExtract(E x, unsigned lo, unsigned w) {
  if (lo == 0 && w == x->w) return x;
  assert(lo + w <= x->w);
  switch (x->kind) {
  case K_CONST: return mkConst(x->val >> lo, w);
  case K_EXTRACT: return mkExtract(x->a[0], lo + (unsigned)x->val, w);
  case K_CONCAT: {
    unsigned lw = x->a[1]->w;
    if (lo + w <= lw) return mkExtract(x->a[1], lo, w);
    if (lo >= lw) return mkExtract(x->a[0], lo - lw, w);
    return mkConcat(mkExtract(x->a[0], 0, lo + w - lw), mkExtract(x->a[1], lo, lw - lo));
  }
  case K_ZEXT: {
    unsigned iw = x->a[0]->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(x->a[0], lo, w);
    return mkZExt(mkExtract(x->a[0], lo, iw - lo), w);
  }
  case K_SEXT: {
    unsigned iw = x->a[0]->w;
    if (lo + w <= iw) return mkExtract(x->a[0], lo, w);
    if (lo == 0) return mkSExt(x->a[0], w);
    if (lo >= iw) return mkSExt(mkExtract(x->a[0], iw - 1, 1), w);
    return mkSExt(mkExtract(x->a[0], lo, iw - lo), w);
  }
  case K_ITE:
    if (x->a[1]->isC() || x->a[2]->isC()) return mkIte(x->a[0], mkExtract(x->a[1], lo, w), mkExtract(x->a[2], lo, w));
    break;
  case K_AND: case K_OR: case K_XOR:
    if (x->a[0]->isC() || x->a[1]->isC()) return mkBin(x->kind, mkExtract(x->a[0], lo, w), mkExtract(x->a[1], lo, w));
    break;
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0) {
      // low part only depends on low parts
      return mkBin(x->kind, mkExtract(x->a[0], 0, w), mkExtract(x->a[1], 0, w));
    }
    break;
  default: break;
  }
  return intern(K_EXTRACT, w, lo, x);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->kind == K_CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
  if (hi->kind == K_ZEXT) return mkConcat(mkConst(0, hi->w - hi->a[0]->w), mkConcat(hi->a[0], lo));
  if (hi->isC() && hi->val == 0) return mkZExt(lo, w);
  // hi is a leaf; look at first leaf of lo
  E first = lo, rest = nullptr;
  if (lo->kind == K_CONCAT) { first = lo->a[0]; rest = lo->a[1]; }
  else if (lo->kind == K_ZEXT) { first = mkConst(0, lo->w - lo->a[0]->w); rest = lo->a[0]; }
  auto join = [&](E m) -> E { return rest ? mkConcat(m, rest) : m; };
  if (hi->isC() && first->isC()) return join(mkConst((hi->val << first->w) | first->val, hi->w + first->w));
  {
    E hx = hi, lx = first; unsigned hl = 0, ll = 0;
    if (hi->kind == K_EXTRACT) { hx = hi->a[0]; hl = (unsigned)hi->val; }
    if (first->kind == K_EXTRACT) { lx = first->a[0]; ll = (unsigned)first->val; }
    if (hx == lx && hl == ll + first->w && hi->kind == K_EXTRACT) return join(mkExtract(hx, ll, hi->w + first->w));
    // ite leaves with same condition
    if (hi->kind == K_ITE && first->kind == K_ITE && hi->a[0] == first->a[0])
      return join(mkIte(hi->a[0], mkConcat(hi->a[1], first->a[1]), mkConcat(hi->a[2], first->a[2])));
    if (hi->kind == K_ITE && first->isC() && !hi->isC() && (hi->a[1]->isC() && hi->a[2]->isC()))
      return join(mkIte(hi->a[0], mkConcat(hi->a[1], first), mkConcat(hi->a[2], first)));
  }
  return intern(K_CONCAT, w, 0, hi, lo);
}
E mkZExt(E x, unsigned w) {
  if (x->w == w) return x;
  if (x->isC()) return mkConst(x->val, w);
  if (x->kind == K_ZEXT) return mkZExt(x->a[0], w);
  if (x->kind == K_ITE && x->a[1]->isC() && x->a[2]->isC()) return mkIte(x->a[0], mkZExt(x->a[1], w), mkZExt(x->a[2], w));
  if (x->kind == K_CONCAT && x->a[0]->isC() && x->a[0]->val == 0) return mkZExt(x->a[1], w);
  return intern(K_ZEXT, w, 0, x);
}
E mkSExt(E x, unsigned w) {
  if (x->w == w) return x;
  if (x->isC()) return mkConst((uint64_t)sextw(x->val, x->w), w);
  if (x->kind == K_SEXT) return mkSExt(x->a[0], w);
  if (x->kind == K_ZEXT) return mkZExt(x->a[0], w);
  if (x->kind == K_ITE && x->a[1]->isC() && x->a[2]->isC()) return mkIte(x->a[0], mkSExt(x->a[1], w), mkSExt(x->a[2], w));
  return intern(K_SEXT, w, 0, x);
}
E mkIte(E c, E a, E b) {
  if (c->isC()) return c->val ? a : b;
  if (a == b) return a;
  if (c->kind == K_XOR && c->a[1]->isC()) return mkIte(c->a[0], b, a); // not
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->val ? c : mkNot(c);
    if (a->isC()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->kind == K_ITE && a->a[0] == c) a = a->a[1];
  if (b->kind == K_ITE && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  return intern(K_ITE, a->w, 0, c, a, b);
}

// finite floats given by their order key (see mkFKey): float comparisons are key comparisons
static std::unordered_map<uint32_t, E> gFKeys;
E mkFKey(E k) {
  E top = mkConst(0x80000000u, 32);
  E r = mkIte(mkBin(K_ULE, top, k), mkBin(K_XOR, k, top), mkBin(K_OR, mkBin(K_SUB, top, k), top));
  if (r->kind == K_ITE) gFKeys[r->id] = k;
  return r;
}
static E fkeyOf(E e) {
  if (e->isC()) { uint32_t b = (uint32_t)e->val, m = b & 0x7fffffffu; if (e->w != 32 || m > 0x7f800000u) return nullptr; return mkConst((b >> 31) ? 0x80000000u - m : 0x80000000u + m, 32); }
  if (e->kind != K_ITE) return nullptr;
  auto it = gFKeys.find(e->id); return it == gFKeys.end() ? nullptr : it->second;
}
// Polynomials (degree <= 2) over the integers behind exact float arithmetic, so that
// comparisons of sums of squares cancel their common terms before bit-blasting.
struct Poly { std::map<std::pair<E, E>, int64_t> t; };
static std::unordered_map<uint32_t, Poly> gPoly; // id of the integer expression -> its polynomial
static Poly polyOf(E x) {
  auto it = gPoly.find(x->id); if (it != gPoly.end()) return it->second;
  Poly p; if (x->isC()) { int64_t v = (int64_t)(x->val << (64 - x->w)) >> (64 - x->w); if (v) p.t[{nullptr, nullptr}] = v; return p; }
  while (x->kind == K_SEXT) { x = x->a[0]; auto j = gPoly.find(x->id); if (j != gPoly.end()) return j->second; }
  p.t[{nullptr, x}] = 1; return p;
}
static Poly polySub(const Poly &a, const Poly &b, int sign) { Poly r = a; for (auto &kv : b.t) { int64_t &v = r.t[kv.first]; v += sign * kv.second; if (!v) r.t.erase(kv.first); } return r; }
static bool polySq(const Poly &a, Poly &r) {
  if (a.t.size() > 12) return false;
  for (auto &x : a.t) if (x.first.first) return false;
  for (auto &x : a.t) for (auto &y : a.t) { auto m = x.first.second < y.first.second ? std::make_pair(x.first.second, y.first.second) : std::make_pair(y.first.second, x.first.second); int64_t &v = r.t[m]; v += x.second * y.second; if (!v) r.t.erase(m); }
  return true;
}
// the polynomial as a signed bit-vector wide enough not to wrap; null if too wide
static E polyExpr(const Poly &p) {
  double mag = 1; for (auto &kv : p.t) { double m = std::fabs((double)kv.second); if (kv.first.first) m *= std::ldexp(1, kv.first.first->w - 1); if (kv.first.second) m *= std::ldexp(1, kv.first.second->w - 1); mag += m; }
  unsigned w = 2; while (w < 60 && std::ldexp(1, w - 1) <= mag) w++; if (w > 48) return nullptr;
  E r = mkConst(0, w);
  for (auto &kv : p.t) {
    E a = kv.first.first, b = kv.first.second, t;
    if (!b) t = mkConst(1, w); else if (!a) t = mkSExt(b, w);
    else if (a == b) { E m = mkIte(mkBin(K_SLT, a, mkConst(0, a->w)), mkBin(K_SUB, mkConst(0, a->w), a), a); unsigned nw = 2 * a->w; if (nw > w) return nullptr; m = mkZExt(m, nw); t = mkZExt(mkBin(K_MUL, m, m), w); }
    else { unsigned nw = std::min<unsigned>(w, a->w + b->w); t = mkSExt(mkBin(K_MUL, mkSExt(a, nw), mkSExt(b, nw)), w); }
    r = mkBin(K_ADD, r, mkBin(K_MUL, t, mkConst((uint64_t)kv.second, w)));
  }
  return r;
}
static Poly polyMul(const Poly &a, int64_t c) { Poly r = a; for (auto &kv : r.t) kv.second *= c; return r; }
// Exact small fixed-point numbers as floats: e == SIToFP(result) * 2^s exactly, and e is not -0.
// s != 0 is represented as the product with a constant power of two.
static bool pow2Const(E c, int &s) {
  if (!c->isC()) return false; double d = c->w == 32 ? bits2f(c->val) : bits2d(c->val); int e; if (!(d > 0) || std::isinf(d) || std::frexp(d, &e) != 0.5) return false; s = e - 1; return std::abs(s) <= 40;
}
static E exactFix(E e, unsigned maxw, int &s) {
  s = 0;
  if (e->kind == K_FMUL && pow2Const(e->a[1], s)) e = e->a[0]; 
  if (e->kind == K_SITOFP && e->a[0]->w <= maxw) return e->a[0];
  if (e->kind == K_UITOFP && e->a[0]->w < maxw) return mkZExt(e->a[0], e->a[0]->w + 1);
  if (e->isC()) {
    double d = e->w == 32 ? bits2f(e->val) : bits2d(e->val);
    if (d == 0 && std::signbit(d)) return nullptr;
    if (!(std::fabs(d) < 1048576.0)) return nullptr;
    while (s > -40 && std::floor(d) != d) { d *= 2; s--; }
    if (std::floor(d) == d && std::fabs(d) < 1048576.0) {
      int64_t v = (int64_t)d; unsigned w = 1;
      while (sextw((uint64_t)v & maskw(w), w) != v) w++;
      return mkConst((uint64_t)v & maskw(w), w);
    }
  }
  s = 0; return nullptr;
}
static E mkFix(E r, int s, unsigned w) {
  E f = mkUn(K_SITOFP, r, w); if (!s) return f;
  E c = mkConst(w == 32 ? f2bits((float)std::ldexp(1.0, s)) : d2bits(std::ldexp(1.0, s)), w);
  if (f->isC()) return mkConst(foldBin(K_FMUL, f->val, c->val, w), w);
  return intern(K_FMUL, w, 0, f, c);
}
static E shlS(E x, unsigned nw, int n) { E r = mkSExt(x, nw); return n ? mkBin(K_MUL, r, mkConst(uint64_t(1) << n, nw)) : r; }
static E narrowS(E e) { // drop redundant sign bits that are visible syntactically
  while (e->kind == K_SEXT) e = e->a[0];
  if (e->kind == K_ZEXT && e->w > e->a[0]->w + 1) return mkZExt(e->a[0], e->a[0]->w + 1);
  return e;
}

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  bool cmp = (k >= K_EQ && k <= K_SLE) || (k >= K_FOEQ && k <= K_FUNO);
  unsigned rw = cmp ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d %d\n", k, a->w, b->w); abort(); }
  if (a->isC() && b->isC()) return mkConst(foldBin(k, a->val, b->val, w), rw);
  if (commut(k)) { if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b); }
  uint64_t m = maskw(w);
  bool bc = b->isC();
  uint64_t bv = b->val;
  switch (k) {
  case K_ADD:
    if (bc && bv == 0) return a;
    if (bc && a->kind == K_ADD && a->a[1]->isC()) return mkBin(K_ADD, a->a[0], mkConst(a->a[1]->val + bv, w));
    if (bc && a->kind == K_SUB && a->a[0]->isC()) return mkBin(K_SUB, mkConst(a->a[0]->val + bv, w), a->a[1]);
    if (!bc && a->kind == K_ADD && a->a[1]->isC()) return mkBin(K_ADD, mkBin(K_ADD, a->a[0], b), a->a[1]);
    if (!bc && b->kind == K_ADD && b->a[1]->isC()) return mkBin(K_ADD, mkBin(K_ADD, a, b->a[0]), b->a[1]);
    if (a->kind == K_SUB && a->a[1] == b) return a->a[0];
    if (b->kind == K_SUB && b->a[1] == a) return b->a[0];
    if (bc && a->kind == K_ITE && a->a[1]->isC() && a->a[2]->isC()) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(K_ADD, a, mkConst(0 - bv, w));
    if (a->kind == K_ADD && a->a[0] == b) return a->a[1];
    if (a->kind == K_ADD && a->a[1] == b) return a->a[0];
    break;
  case K_MUL:
    if (bc && bv == 0) return b;
    if (bc && bv == 1) return a;
    if (bc && (bv & (bv - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(bv), w));
    break;
  case K_UDIV: if (bc && bv == 1) return a; if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(bv), w)); break;
  case K_SDIV: if (bc && bv == 1) return a; break;
  case K_UREM: if (bc && bv == 1) return mkConst(0, w); if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_AND, a, mkConst(bv - 1, w)); break;
  case K_SREM: if (bc && bv == 1) return mkConst(0, w); break;
  case K_AND:
    if (a == b) return a;
    if (bc) {
      if (bv == 0) return b;
      if (bv == m) return a;
      uint64_t kz = knownZero(a);
      if (((~kz & m) & ~bv) == 0) return a;
      // contiguous mask -> slice
      uint64_t t = bv >> __builtin_ctzll(bv);
      if ((t & (t + 1)) == 0) {
        unsigned lo = (unsigned)__builtin_ctzll(bv), n = (unsigned)__builtin_popcountll(bv);
        E s = mkExtract(a, lo, n);
        if (lo) s = mkConcat(s, mkConst(0, lo));
        return mkZExt(s, w);
      }
      if (a->kind == K_AND && a->a[1]->isC()) return mkBin(K_AND, a->a[0], mkConst(a->a[1]->val & bv, w));
    }
    if (w == 1) {
      if (a->kind == K_XOR && a->a[1]->isC() && a->a[0] == b) return mkConst(0, 1);
      if (b->kind == K_XOR && b->a[1]->isC() && b->a[0] == a) return mkConst(0, 1);
    }
    break;
  case K_OR: case K_XOR: {
    if (a == b) return k == K_OR ? a : mkConst(0, w);
    if (bc && bv == 0) return a;
    if (k == K_OR && bc && bv == m) return b;
    if (k == K_XOR && bc && a->kind == K_XOR && a->a[1]->isC()) return mkBin(K_XOR, a->a[0], mkConst(a->a[1]->val ^ bv, w));
    if (k == K_XOR && w == 1 && bc && bv == 1) {
      // negate comparisons
      if (a->kind == K_ULT) return mkBin(K_ULE, a->a[1], a->a[0]);
      if (a->kind == K_ULE) return mkBin(K_ULT, a->a[1], a->a[0]);
      if (a->kind == K_SLT) return mkBin(K_SLE, a->a[1], a->a[0]);
      if (a->kind == K_SLE) return mkBin(K_SLT, a->a[1], a->a[0]);
    }
    if (k == K_OR && w == 1) {
      if (a->kind == K_XOR && a->a[1]->isC() && a->a[0] == b) return mkConst(1, 1);
      if (b->kind == K_XOR && b->a[1]->isC() && b->a[0] == a) return mkConst(1, 1);
    }
    // disjoint bits -> piecewise concat
    if (w > 1 && (knownZero(a) | knownZero(b)) == m && (a->kind == K_ZEXT || a->kind == K_CONCAT || bc) && (b->kind == K_ZEXT || b->kind == K_CONCAT || bc)) {
      std::vector<E> la, lb; leaves(a, la); leaves(b, lb);
      std::vector<unsigned> cuts; unsigned p = w;
      for (E x : la) { cuts.push_back(p); p -= x->w; }
      p = w; for (E x : lb) { cuts.push_back(p); p -= x->w; }
      cuts.push_back(0);
      std::sort(cuts.begin(), cuts.end(), std::greater<unsigned>());
      cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
      bool ok = true; E r = nullptr;
      for (size_t i = cuts.size() - 1; i-- > 0;) {
        unsigned hi = cuts[i], lo = cuts[i + 1];
        E x = mkExtract(a, lo, hi - lo), y = mkExtract(b, lo, hi - lo), z;
        if (x->isC() && x->val == 0) z = y; else if (y->isC() && y->val == 0) z = x; else { ok = false; break; }
        r = r ? mkConcat(z, r) : z;
      }
      if (ok) return r;
    }
    break;
  }
  case K_SHL:
    if (bc) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv)); }
    if (a->isC() && a->val == 0) return a;
    break;
  case K_LSHR:
    if (bc) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); return mkZExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w); }
    if (a->isC() && a->val == 0) return a;
    break;
  case K_ASHR:
    if (bc) { if (bv == 0) return a; if (bv >= w) bv = w - 1; return mkSExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w); }
    break;
  case K_EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && bc) return bv ? a : mkNot(a);
    if (bc) {
      if (a->kind == K_ZEXT) { if (bv >> a->a[0]->w) return mkConst(0, 1); return mkEq(a->a[0], mkConst(bv, a->a[0]->w)); }
      if (a->kind == K_SEXT) { unsigned iw = a->a[0]->w; if (((uint64_t)sextw(bv & maskw(iw), iw) & m) != bv) return mkConst(0, 1); return mkEq(a->a[0], mkConst(bv, iw)); }
      if (a->kind == K_ADD && a->a[1]->isC()) return mkEq(a->a[0], mkConst(bv - a->a[1]->val, w));
      if (a->kind == K_XOR && a->a[1]->isC()) return mkEq(a->a[0], mkConst(bv ^ a->a[1]->val, w));
      if (a->kind == K_SUB && a->a[0]->isC()) return mkEq(a->a[1], mkConst(a->a[0]->val - bv, w));
      if (a->kind == K_ITE) {
        E x = mkEq(a->a[1], b), y = mkEq(a->a[2], b);
        if (x->isC() || y->isC()) return mkIte(a->a[0], x, y);
      }
      if (a->kind == K_CONCAT) {
        unsigned lw = a->a[1]->w;
        E x = mkEq(a->a[0], mkConst(bv >> lw, a->a[0]->w)); if (x->isC() && !x->val) return x;
        E y = mkEq(a->a[1], mkConst(bv, lw)); return mkAnd(x, y);
      }
      if ((knownZero(a) & bv) != 0) return mkConst(0, 1);
    }
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->a[0]->w == b->a[0]->w) return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
    if (a->kind == K_ADD && b->kind == K_ADD && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
    break;
  case K_ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && bv == 0) return mkConst(0, 1);
    if (a->isC() && a->val == m) return mkConst(0, 1);
    if (bc && bv == 1) return mkEq(a, mkConst(0, w));
    if (a->isC() && a->val == 0) return mkNot(mkEq(b, a));
    if (bc && ((~knownZero(a)) & m) < bv) return mkConst(1, 1);
    if (a->isC() && a->val >= ((~knownZero(b)) & m)) return mkConst(0, 1);
    goto ext;
  case K_ULE:
    if (a == b) return mkConst(1, 1);
    if (bc && bv == m) return mkConst(1, 1);
    if (a->isC() && a->val == 0) return mkConst(1, 1);
    if (bc && bv == 0) return mkEq(a, b);
    if (bc && ((~knownZero(a)) & m) <= bv) return mkConst(1, 1);
    if (a->isC() && a->val > ((~knownZero(b)) & m)) return mkConst(0, 1);
  ext:
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    if (a->kind == K_ZEXT && bc && (bv >> a->a[0]->w) == 0) return mkBin(k, a->a[0], mkConst(bv, a->a[0]->w));
    if (b->kind == K_ZEXT && a->isC() && (a->val >> b->a[0]->w) == 0) return mkBin(k, mkConst(a->val, b->a[0]->w), b->a[0]);
    break;
  case K_SLT: case K_SLE: {
    if (a == b) return mkConst(k == K_SLE, 1);
    uint64_t sb = 1ull << (w - 1);
    if (w > 1 && (knownZero(a) & sb) && (knownZero(b) & sb)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (bc && w > 1 && (bv & sb) && (knownZero(a) & sb)) return mkConst(0, 1);
    if (a->isC() && (a->val & sb) && (knownZero(b) & sb)) return mkConst(1, 1);
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
    if (a->kind == K_SEXT && bc) {
      unsigned iw = a->a[0]->w; int64_t v = sextw(bv, w), mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
      if (v > mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1);
      return mkBin(k, a->a[0], mkConst(bv, iw));
    }
    if (b->kind == K_SEXT && a->isC()) {
      unsigned iw = b->a[0]->w; int64_t v = sextw(a->val, w), mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
      if (v > mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1);
      return mkBin(k, mkConst(a->val, iw), b->a[0]);
    }
    break;
  }
  case K_FADD: case K_FSUB: case K_FMUL: {
    unsigned lim = w == 32 ? 24 : 52; int sx = 0, sy = 0;
    if (k == K_FADD && bc && bv == 0) { E x = exactFix(a, lim, sx); if (x) return a; }
    if (k == K_FSUB && bc && bv == 0) return a; // x - (+0) == x exactly
    if (k == K_FMUL && bc && bv == (w == 32 ? f2bits(1.f) : d2bits(1.0))) return a;
    E x = exactFix(a, lim, sx), y = exactFix(b, lim, sy);
    if (x && y) {
      x = narrowS(x); y = narrowS(y);
      if (k != K_FMUL) {
        if (x->isC() && !x->val) sx = sy; if (y->isC() && !y->val) sy = sx;
        int s0 = std::min(sx, sy); unsigned xw = x->w + (sx - s0), yw = y->w + (sy - s0), nw = std::max(xw, yw) + 1;
        if (nw <= lim) {
          E xs = shlS(x, nw, sx - s0), ys = shlS(y, nw, sy - s0), r = mkBin(k == K_FADD ? K_ADD : K_SUB, xs, ys);
          if (!r->isC() && !gPoly.count(r->id)) { Poly p = polySub(polyMul(polyOf(x), int64_t(1) << (sx - s0)), polyMul(polyOf(y), int64_t(1) << (sy - s0)), k == K_FADD ? 1 : -1); gPoly[r->id] = p; }
          return mkFix(r, s0, w);
        }
      } else if (x == y && sx == sy && 2 * x->w <= lim && std::abs(2 * sx) <= 40) {
        unsigned nw = 2 * x->w;
        // square of the magnitude: a far smaller circuit than the signed product
        E mag = mkIte(mkBin(K_SLT, x, mkConst(0, x->w)), mkBin(K_SUB, mkConst(0, x->w), x), x), zm = mkZExt(mag, nw);
        E r = mkBin(K_MUL, zm, zm); if (!r->isC() && !gPoly.count(r->id)) { Poly p; if (polySq(polyOf(x), p)) gPoly[r->id] = p; } return mkFix(r, 2 * sx, w);
      } else if (x->isC() != y->isC() && std::abs(sx + sy) <= 40) {
        if (x->isC()) { std::swap(x, y); std::swap(sx, sy); }
        int64_t c = sextw(y->val, y->w); unsigned nw = x->w + y->w;
        if (c == 1) { if (sx || sy) { if (E r = mkFix(x, sx + sy, w)) return r; } }
        else if (c > 1 && nw <= lim) { E r = mkBin(K_MUL, mkSExt(x, nw), mkSExt(y, nw)); if (!r->isC() && !gPoly.count(r->id)) gPoly[r->id] = polyMul(polyOf(x), c); return mkFix(r, sx + sy, w); }
      }
    }
    break;
  }
  case K_FOEQ: case K_FOLT: case K_FOLE: {
    unsigned lim = w == 32 ? 24 : 52; int sx = 0, sy = 0;
    if (E ka = fkeyOf(a)) if (E kb = fkeyOf(b)) return mkBin(k == K_FOEQ ? K_EQ : k == K_FOLT ? K_ULT : K_ULE, ka, kb);
    E x = exactFix(a, lim, sx), y = exactFix(b, lim, sy);
    if (!x && a->isC() && (a->val << (65 - w)) == 0) x = mkConst(0, 1);
    if (!y && b->isC() && (b->val << (65 - w)) == 0) y = mkConst(0, 1);
    if (x && x->isC() && !x->val) sx = sy; if (y && y->isC() && !y->val) sy = sx;
    if ((x && b->isC() && (!y || sy < sx)) || (y && a->isC() && (!x || sx < sy))) {
      // small fixed-point number against a constant that is not one (or a finer one)
      bool left = b->isC(); E iv = left ? x : y; uint64_t cv = left ? b->val : a->val; double d = w == 32 ? (double)bits2f(cv) : bits2d(cv);
      if (std::isnan(d)) return mkConst(0, 1);
      d = std::ldexp(d, left ? -sx : -sy);
      double lo = -std::ldexp(1.0, iv->w - 1) , hi = std::ldexp(1.0, iv->w - 1) - 1;
      if (k == K_FOEQ) { if (d < lo || d > hi || d != std::floor(d)) return mkConst(0, 1); return mkBin(K_EQ, iv, mkConst((uint64_t)(int64_t)d, iv->w)); }
      if (left) { double t = k == K_FOLT ? std::ceil(d) - 1 : std::floor(d); /* iv <= t */ if (t < lo) return mkConst(0, 1); if (t >= hi) return mkConst(1, 1); return mkBin(K_SLE, iv, mkConst((uint64_t)(int64_t)t, iv->w)); }
      double t = k == K_FOLT ? std::floor(d) + 1 : std::ceil(d); /* t <= iv */ if (t > hi) return mkConst(0, 1); if (t <= lo) return mkConst(1, 1); return mkBin(K_SLE, mkConst((uint64_t)(int64_t)t, iv->w), iv);
    }
    if (x && y) {
      int s0 = std::min(sx, sy); unsigned nw = std::max(x->w + (sx - s0), y->w + (sy - s0));
      if (nw <= 60 && (gPoly.count(x->id) || gPoly.count(y->id))) {
        Poly d = polySub(polyMul(polyOf(x), int64_t(1) << (sx - s0)), polyMul(polyOf(y), int64_t(1) << (sy - s0)), -1); bool lin = true; for (auto &kv : d.t) if (kv.first.first) lin = false;
        E r = lin ? polyExpr(d) : nullptr; // worth it only when the squares cancel
        if (r) return mkBin(k == K_FOEQ ? K_EQ : k == K_FOLT ? K_SLT : K_SLE, r, mkConst(0, r->w));
      }
      if (nw <= 60) return mkBin(k == K_FOEQ ? K_EQ : k == K_FOLT ? K_SLT : K_SLE, shlS(x, nw, sx - s0), shlS(y, nw, sy - s0));
    }
    if (a->kind == K_FPEXT && b->kind == K_FPEXT) return mkBin(k, a->a[0], b->a[0]);
    if (a == b) { if (k == K_FOLT) return mkConst(0, 1); return mkNot(mkBin(K_FUNO, a, a)); }
    if (a->kind == K_FPEXT && bc) { double d = bits2d(bv); float f = (float)d; if ((double)f == d) return mkBin(k, a->a[0], mkConst(f2bits(f), 32)); }
    if (b->kind == K_FPEXT && a->isC()) { double d = bits2d(a->val); float f = (float)d; if ((double)f == d) return mkBin(k, mkConst(f2bits(f), 32), b->a[0]); }
    break;
  }
  case K_FUNO: {
    if (fkeyOf(a) && fkeyOf(b)) return mkConst(0, 1);
    { int sx, sy; E x = exactFix(a, 64, sx), y = exactFix(b, 64, sy); if (x && y) return mkConst(0, 1); if (x && !bc) return mkBin(K_FUNO, b, b); if (y && !a->isC() && a != b) return mkBin(K_FUNO, a, a); }
    if (a->kind == K_FPEXT && b->kind == K_FPEXT) return mkBin(k, a->a[0], b->a[0]);
    if (bc) { double d = w == 32 ? bits2f(bv) : bits2d(bv); if (std::isnan(d)) return mkConst(1, 1); if (a->kind == K_SITOFP || a->kind == K_UITOFP) return mkConst(0, 1); return mkBin(K_FUNO, a, a); }
    if (a != b) return mkOr(mkBin(K_FUNO, a, a), mkBin(K_FUNO, b, b));
    break;
  }
  default: break;
  }
  if (commut(k) && !b->isC() && a->id > b->id) std::swap(a, b);
  return intern(k, rw, 0, a, b);
}

E mkUn(Kind k, E x, unsigned w) {
  if (x->isC()) return mkConst(foldUn(k, x->val, x->w, w), w);
  if (k == K_SITOFP || k == K_UITOFP) {
    if (k == K_UITOFP) { if (x->kind == K_ZEXT) return mkUn(K_UITOFP, x->a[0], w); }
    else { if (x->kind == K_SEXT) return mkUn(K_SITOFP, x->a[0], w); if (x->kind == K_ZEXT && x->w > x->a[0]->w) return mkUn(K_UITOFP, x->a[0], w); }
  }
  if (k == K_FPEXT) {
    if (x->kind == K_SITOFP && x->a[0]->w <= 24) return mkUn(K_SITOFP, x->a[0], w);
    if (x->kind == K_UITOFP && x->a[0]->w <= 24) return mkUn(K_UITOFP, x->a[0], w);
  }
  if (k == K_FPTRUNC) {
    if (x->kind == K_FPEXT) return x->a[0];
    if (x->kind == K_SITOFP && x->a[0]->w <= 24) return mkUn(K_SITOFP, x->a[0], w);
    if (x->kind == K_UITOFP && x->a[0]->w <= 24) return mkUn(K_UITOFP, x->a[0], w);
  }
  if (k == K_FPTOSI) {
    if (x->kind == K_SITOFP) { unsigned iw = x->a[0]->w, lim = x->w == 32 ? 24 : 53; if (iw <= lim && iw <= w) return mkSExt(x->a[0], w); }
    if (x->kind == K_UITOFP) { unsigned iw = x->a[0]->w, lim = x->w == 32 ? 24 : 53; if (iw <= lim && iw < w) return mkZExt(x->a[0], w); }
  }
  if (k == K_FPTOUI && x->kind == K_UITOFP) { unsigned iw = x->a[0]->w, lim = x->w == 32 ? 24 : 53; if (iw <= lim && iw <= w) return mkZExt(x->a[0], w); }
  return intern(k, w, 0, x);
}

uint64_t Evaluator::operator()(E e) {
  if (e->isC()) return e->val;
  if (e->kind == K_VAR) return m.get((uint32_t)e->val) & maskw(e->w);
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  uint64_t r;
  switch (e->kind) {
  case K_CONCAT: r = ((*this)(e->a[0]) << e->a[1]->w) | (*this)(e->a[1]); break;
  case K_EXTRACT: r = ((*this)(e->a[0]) >> e->val) & maskw(e->w); break;
  case K_ZEXT: r = (*this)(e->a[0]); break;
  case K_SEXT: r = (uint64_t)sextw((*this)(e->a[0]), e->a[0]->w) & maskw(e->w); break;
  case K_ITE: r = (*this)(e->a[0]) ? (*this)(e->a[1]) : (*this)(e->a[2]); break;
  default:
    if (e->a[1]) r = foldBin(e->kind, (*this)(e->a[0]), (*this)(e->a[1]), e->a[0]->w);
    else r = foldUn(e->kind, (*this)(e->a[0]), e->a[0]->w, e->w);
  }
  memo.emplace(e->id, r);
  return r;
}
uint64_t evalExpr(E e, const Model &m) { Evaluator ev(m); return ev(e); }

static const char *kn[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","foeq","folt","fole","funo","ffloor","fceil","ftrunc"};
std::string show(E e, int d) {
  char b[64];
  if (e->isC()) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->kind == K_VAR) return gVars[e->val].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + kn[e->kind];
  if (e->kind == K_EXTRACT) { snprintf(b, 64, "[%d+%d]", (int)e->val, e->w); s += b; }
  if (e->kind == K_ZEXT || e->kind == K_SEXT) { snprintf(b, 64, "[%d]", e->w); s += b; }
  for (E x : e->a) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
