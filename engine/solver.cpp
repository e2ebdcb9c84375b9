#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <set>
#include <unordered_set>

SolverStats gSolver;
unsigned gSolverTimeoutMs = 20000;
static Z3_context ctx;
void solverInterrupt() { if (ctx) Z3_interrupt(ctx); }
static std::vector<Z3_ast> tr;      // expr id -> ast
static std::vector<uint8_t> hasFP;  // expr id -> needs FP theory
static Z3_sort s32, s64; static Z3_ast rne;

static void init() {
  if (ctx) return;
  Z3_config c = Z3_mk_config();
  ctx = Z3_mk_context(c);
  Z3_del_config(c);
  s32 = Z3_mk_fpa_sort_32(ctx); s64 = Z3_mk_fpa_sort_64(ctx);
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s32)); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s64));
  rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
}
static Z3_ast T(E e);
static Z3_ast bv1(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
static Z3_ast C(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast B(E e); // boolean ast for width-1 expr
static Z3_ast FP(E e) { return Z3_mk_fpa_to_fp_bv(ctx, T(e), e->w == 32 ? s32 : s64); }
static Z3_ast expBits(Z3_ast x, unsigned w) { return w == 32 ? Z3_mk_extract(ctx, 30, 23, x) : Z3_mk_extract(ctx, 62, 52, x); }
static Z3_ast manBits(Z3_ast x, unsigned w) { return w == 32 ? Z3_mk_extract(ctx, 22, 0, x) : Z3_mk_extract(ctx, 51, 0, x); }
static Z3_ast isNaN(E e) {
  Z3_ast x = T(e);
  Z3_ast a[2] = {Z3_mk_eq(ctx, expBits(x, e->w), C(maskw(e->w == 32 ? 8 : 11), e->w == 32 ? 8 : 11)),
                 Z3_mk_not(ctx, Z3_mk_eq(ctx, manBits(x, e->w), C(0, e->w == 32 ? 23 : 52)))};
  return Z3_mk_and(ctx, 2, a);
}
// monotone integer key of a float: comparison of floats = unsigned comparison of keys, with -0 == +0
static Z3_ast key(E e) {
  Z3_ast x = T(e); unsigned w = e->w;
  Z3_ast neg = Z3_mk_eq(ctx, Z3_mk_extract(ctx, w - 1, w - 1, x), C(1, 1));
  // positive: x + 2^(w-1); negative: 2^(w-1) - magnitude   (so -0 maps to 2^(w-1) like +0)
  Z3_ast top = C(1ull << (w - 1), w);
  Z3_ast mag = Z3_mk_bvand(ctx, x, C(maskw(w - 1), w));
  return Z3_mk_ite(ctx, neg, Z3_mk_bvsub(ctx, top, mag), Z3_mk_bvadd(ctx, top, mag));
}
static bool fpKind(Kind k) { return (k >= K_FADD && k <= K_FPTOUI) || (k >= K_FFLOOR && k <= K_FTRUNC); }

static Z3_ast B(E e) {
  // boolean view without the ite wrapper
  switch (e->kind) {
  case K_CONST: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  case K_EQ: return Z3_mk_eq(ctx, T(e->a[0]), T(e->a[1]));
  case K_ULT: return Z3_mk_bvult(ctx, T(e->a[0]), T(e->a[1]));
  case K_ULE: return Z3_mk_bvule(ctx, T(e->a[0]), T(e->a[1]));
  case K_SLT: return Z3_mk_bvslt(ctx, T(e->a[0]), T(e->a[1]));
  case K_SLE: return Z3_mk_bvsle(ctx, T(e->a[0]), T(e->a[1]));
  case K_FUNO: return isNaN(e->a[0]);
  case K_FOEQ: case K_FOLT: case K_FOLE: {
    E a = e->a[0], b = e->a[1];
    Z3_ast ka = key(a), kb = key(b);
    Z3_ast c = e->kind == K_FOEQ ? Z3_mk_eq(ctx, ka, kb) : e->kind == K_FOLT ? Z3_mk_bvult(ctx, ka, kb) : Z3_mk_bvule(ctx, ka, kb);
    Z3_ast l[3] = {Z3_mk_not(ctx, isNaN(a)), Z3_mk_not(ctx, isNaN(b)), c};
    return Z3_mk_and(ctx, 3, l);
  }
  case K_AND: { Z3_ast l[2] = {B(e->a[0]), B(e->a[1])}; return Z3_mk_and(ctx, 2, l); }
  case K_OR: { Z3_ast l[2] = {B(e->a[0]), B(e->a[1])}; return Z3_mk_or(ctx, 2, l); }
  case K_XOR: if (e->a[1]->isC() && e->a[1]->val == 1) return Z3_mk_not(ctx, B(e->a[0])); return Z3_mk_xor(ctx, B(e->a[0]), B(e->a[1]));
  case K_ITE: return Z3_mk_ite(ctx, B(e->a[0]), B(e->a[1]), B(e->a[2]));
  default: return Z3_mk_eq(ctx, T(e), C(1, 1));
  }
}
static Z3_ast toIEEE(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }

static Z3_ast T(E e) {
  if (e->id >= tr.size()) { tr.resize(gExprs.size() + 1024, nullptr); hasFP.resize(tr.size(), 0); }
  if (tr[e->id]) return tr[e->id];
  Z3_ast r = nullptr;
  bool fp = fpKind(e->kind);
  switch (e->kind) {
  case K_CONST: r = C(e->val, e->w); break;
  case K_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), Z3_mk_bv_sort(ctx, e->w)); break;
  case K_ADD: r = Z3_mk_bvadd(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_SUB: r = Z3_mk_bvsub(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_AND: r = e->w == 1 ? bv1(B(e)) : Z3_mk_bvand(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_OR: r = e->w == 1 ? bv1(B(e)) : Z3_mk_bvor(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_XOR: r = e->w == 1 ? bv1(B(e)) : Z3_mk_bvxor(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_LSHR: r = Z3_mk_bvlshr(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_ASHR: r = Z3_mk_bvashr(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, T(e->a[0]), T(e->a[1])); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, T(e->a[0])); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, T(e->a[0])); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, T(e->a[0])); break;
  case K_ITE: r = Z3_mk_ite(ctx, B(e->a[0]), T(e->a[1]), T(e->a[2])); break;
  case K_FADD: r = toIEEE(Z3_mk_fpa_add(ctx, rne, FP(e->a[0]), FP(e->a[1]))); break;
  case K_FSUB: r = toIEEE(Z3_mk_fpa_sub(ctx, rne, FP(e->a[0]), FP(e->a[1]))); break;
  case K_FMUL: r = toIEEE(Z3_mk_fpa_mul(ctx, rne, FP(e->a[0]), FP(e->a[1]))); break;
  case K_FDIV: r = toIEEE(Z3_mk_fpa_div(ctx, rne, FP(e->a[0]), FP(e->a[1]))); break;
  case K_FREM: r = toIEEE(Z3_mk_fpa_rem(ctx, FP(e->a[0]), FP(e->a[1]))); break;
  case K_FSQRT: r = toIEEE(Z3_mk_fpa_sqrt(ctx, rne, FP(e->a[0]))); break;
  case K_FFLOOR: r = toIEEE(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), FP(e->a[0]))); break;
  case K_FCEIL: r = toIEEE(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), FP(e->a[0]))); break;
  case K_FTRUNC: r = toIEEE(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), FP(e->a[0]))); break;
  case K_FPEXT: r = toIEEE(Z3_mk_fpa_to_fp_float(ctx, rne, FP(e->a[0]), s64)); break;
  case K_FPTRUNC: r = toIEEE(Z3_mk_fpa_to_fp_float(ctx, rne, FP(e->a[0]), s32)); break;
  case K_SITOFP: r = toIEEE(Z3_mk_fpa_to_fp_signed(ctx, rne, T(e->a[0]), e->w == 32 ? s32 : s64)); break;
  case K_UITOFP: r = toIEEE(Z3_mk_fpa_to_fp_unsigned(ctx, rne, T(e->a[0]), e->w == 32 ? s32 : s64)); break;
  case K_FPTOSI: {
    // x86: out of range or NaN -> INT_MIN
    E a = e->a[0]; unsigned cw = e->w <= 32 ? 32 : 64;
    Z3_ast f = FP(a);
    Z3_ast rt = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), f);
    Z3_sort so = a->w == 32 ? s32 : s64;
    double lim = cw == 32 ? 2147483648.0 : 9223372036854775808.0;
    Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, lim, so), lo = Z3_mk_fpa_numeral_double(ctx, -lim, so);
    Z3_ast in[2] = {Z3_mk_fpa_lt(ctx, rt, hi), Z3_mk_fpa_geq(ctx, rt, lo)};
    Z3_ast v = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, cw), C(1ull << (cw - 1), cw));
    r = e->w == cw ? v : Z3_mk_extract(ctx, e->w - 1, 0, v);
    break;
  }
  case K_FPTOUI: {
    E a = e->a[0]; Z3_ast f = FP(a);
    Z3_ast v = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, 64);
    Z3_ast u = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), f, 64);
    if (e->w == 64) r = u; else r = Z3_mk_extract(ctx, e->w - 1, 0, v);
    break;
  }
  default: r = bv1(B(e)); break;
  }
  if (e->id >= tr.size()) { tr.resize(gExprs.size() + 1024, nullptr); hasFP.resize(tr.size(), 0); }
  uint8_t fl = fp | (e->kind == K_MUL && !e->a[0]->isC() && !e->a[1]->isC() ? 2 : 0);
  for (E x : e->a) if (x) { T(x); fl |= hasFP[x->id]; } // boolean operands are reached through B only
  Z3_inc_ref(ctx, r);
  tr[e->id] = r; hasFP[e->id] = fl;
  return r;
}

struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (uint32_t x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;

static bool gIncremental = !getenv("SX_NOINC"); static size_t gIncLimit = getenv("SX_INCLIM") ? atoi(getenv("SX_INCLIM")) : 1500;
static SatRes z3solve(const std::vector<E> &q, Model *m, std::vector<uint32_t> &vars) {
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false, mul = false;
  std::vector<Z3_ast> as;
  for (E e : q) { T(e); as.push_back(B(e)); if (hasFP[e->id] & 1) fp = true; if (hasFP[e->id] & 2) mul = true; }
  for (Z3_ast a : as) Z3_inc_ref(ctx, a);
  Z3_solver s = nullptr; Z3_lbool r;
  if (!fp && gIncremental && !(mul && vars.size() > 8)) {
    // one incremental solver for the bit-vector queries: each constraint is asserted
    // once under a literal, a query assumes the literals of its slice
    static Z3_solver inc = nullptr; static std::unordered_map<uint32_t, Z3_ast> lit;
    if (inc && lit.size() > gIncLimit) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; for (auto &kv : lit) Z3_dec_ref(ctx, kv.second); lit.clear(); }
    if (!inc) {
      inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, inc);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs); Z3_solver_set_params(ctx, inc, p); Z3_params_dec_ref(ctx, p);
    }
    std::vector<Z3_ast> ls;
    for (size_t i = 0; i < q.size(); i++) {
      auto it = lit.find(q[i]->id);
      if (it == lit.end()) {
        char nm[24]; snprintf(nm, sizeof nm, "p!%u", q[i]->id);
        Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, l);
        Z3_ast im = Z3_mk_implies(ctx, l, as[i]); Z3_inc_ref(ctx, im); Z3_solver_assert(ctx, inc, im); Z3_dec_ref(ctx, im);
        it = lit.emplace(q[i]->id, l).first;
      }
      ls.push_back(it->second);
    }
    s = inc; Z3_solver_inc_ref(ctx, s);
    r = Z3_solver_check_assumptions(ctx, s, (unsigned)ls.size(), ls.data());
    if (r == Z3_L_UNDEF) { // give the query a solver of its own, and later ones a new incremental solver
      Z3_solver_dec_ref(ctx, s); s = nullptr;
      Z3_solver_dec_ref(ctx, inc); inc = nullptr; for (auto &kv : lit) Z3_dec_ref(ctx, kv.second); lit.clear();
    }
  }
  if (!s) {
    if (fp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (Z3_ast a : as) Z3_solver_assert(ctx, s, a);
    r = Z3_solver_check(ctx, s);
  }
  if (r == Z3_L_TRUE && m) {
    Z3_model mm = Z3_solver_get_model(ctx, s);
    if (mm) {
      Z3_model_inc_ref(ctx, mm);
      for (uint32_t v : vars) {
        Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), Z3_mk_bv_sort(ctx, gVars[v].w)), o;
        Z3_inc_ref(ctx, c);
        uint64_t val = 0;
        if (Z3_model_eval(ctx, mm, c, true, &o)) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, &val); Z3_dec_ref(ctx, o); }
        Z3_dec_ref(ctx, c);
        m->v[v] = val;
      }
      Z3_model_dec_ref(ctx, mm);
    }
  }
  Z3_solver_dec_ref(ctx, s);
  for (Z3_ast a : as) Z3_dec_ref(ctx, a);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.seconds += dt; if (dt > gSolver.maxq) gSolver.maxq = dt;
  gSolver.z3calls++;
  if (dt > 0.5 && getenv("SX_DUMP")) { FILE *f = fopen(getenv("SX_DUMP"), "w"); for (E e : q) { fprintf(f, "(assert %s)\n", Z3_ast_to_string(ctx, B(e))); } fclose(f); }
  return r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}

SatRes solveWith(const std::vector<E> &cs, E extra, const Model &hint, Model *out) {
  init();
  gSolver.queries++;
  if (extra->isC()) {
    if (extra->val) { if (out) *out = hint; gSolver.sat++; return R_SAT; }
    gSolver.unsat++; return R_UNSAT;
  }
  if (evalExpr(extra, hint) == 1) { gSolver.cacheHits++; gSolver.sat++; if (out) *out = hint; return R_SAT; }
  // independence slice
  std::vector<E> slice{extra};
  std::set<uint32_t> vs(extra->vars->begin(), extra->vars->end());
  std::vector<char> used(cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t v : *cs[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; slice.push_back(cs[i]); 
      for (uint32_t v : *cs[i]->vars) if (vs.insert(v).second) ch = true;
    }
  }
  std::vector<uint32_t> keyv;
  for (E e : slice) keyv.push_back(e->id);
  std::sort(keyv.begin(), keyv.end());
  keyv.erase(std::unique(keyv.begin(), keyv.end()), keyv.end());
  auto it = cache.find(keyv);
  CacheEnt ent;
  if (it != cache.end()) { ent = it->second; gSolver.cacheHits++; }
  else {
    std::vector<uint32_t> vars(vs.begin(), vs.end());
    Model m;
    ent.r = z3solve(slice, &m, vars);
    if (ent.r == R_SAT) {
      // check the model against our own evaluator (guards the encoding)
      bool ok = true;
      { Evaluator ev(m); for (E e : slice) if (ev(e) != 1) ok = false; }
      if (!ok) {
        static int warned = 0;
        if (warned++ < 5) fprintf(stderr, "symex: warning: solver model rejected by the evaluator (treated as unknown)\n");
        ent.r = R_UNKNOWN;
      } else for (auto &kv : m.v) ent.m.push_back(kv);
    }
    cache.emplace(std::move(keyv), ent);
  }
  if (ent.r == R_SAT) { gSolver.sat++; if (out) { Model m = hint; for (auto &kv : ent.m) m.v[kv.first] = kv.second; *out = std::move(m); } }
  else if (ent.r == R_UNSAT) gSolver.unsat++; else gSolver.unknown++;
  return ent.r;
}
