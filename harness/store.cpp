#include "h.h"
// Construction histories on one particle store (cfg backend 0 default, 1 interleaved),
// every cell is given a fresh symbolic value when it comes into existence.
static const ParticleAttributeType TY[6] = {VECTOR, INT, FLOAT, INDEXEDSTR, FLOAT, INT};
static const int CN[6] = {3, 1, 1, 1, 5, 2};
struct A { ParticleAttribute h; FixedAttribute f; int ty, cnt; Str name; std::vector<std::vector<u32>> v; std::vector<u32> fv; };
static ParticlesDataMutable *p; static std::vector<A> at, fx; static int n;
static void wr(ParticlesDataMutable *p, A &a, int i) {
  a.v[i].resize(a.cnt);
  int how = i % 2;
  if (how == 0) for (int k = 0; k < a.cnt; k++) { a.v[i][k] = symbits("v"); memcpy(p->dataWrite<int>(a.h, i) + k, &a.v[i][k], 4); }
  else { u32 t[8]; for (int k = 0; k < a.cnt; k++) t[k] = a.v[i][k] = symbits("v"); p->set<u32>(a.h, i, t); }
}
static void wrf(A &a) { a.fv.resize(a.cnt); for (int k = 0; k < a.cnt; k++) a.fv[k] = symbits("fv"); p->setFixed<u32>(a.f, &a.fv[0]); }
static void grow(int to) { for (auto &a : at) { int o = (int)a.v.size(); a.v.resize(to); for (int i = o; i < to; i++) wr(p, a, i); } n = to; }
static void verify() {
  check(p->numParticles() == n, "numParticles"); check(p->numAttributes() == (int)at.size(), "numAttributes"); check(p->numFixedAttributes() == (int)fx.size(), "numFixedAttributes");
  for (size_t k = 0; k < at.size(); k++) {
    ParticleAttribute h; check(p->attributeInfo((int)k, h), "attributeInfo by index"); check(h.name == at[k].name && h.type == TY[at[k].ty] && h.count == at[k].cnt, "attributeInfo contents");
    for (int i = 0; i < n; i++) for (int c = 0; c < at[k].cnt; c++) check(ldu32(p->data<int>(at[k].h, i) + c) == at[k].v[i][c], "stored value");
  }
  for (size_t k = 0; k < fx.size(); k++) {
    FixedAttribute h; check(p->fixedAttributeInfo((int)k, h), "fixedAttributeInfo by index"); check(h.name == fx[k].name && h.type == TY[fx[k].ty] && h.count == fx[k].cnt, "fixedAttributeInfo contents");
    for (int c = 0; c < fx[k].cnt; c++) check(ldu32(p->fixedData<int>(fx[k].f) + c) == fx[k].fv[c], "stored fixed value");
  }
}
static int ntypes, nsizes;
static void op(int k) {
  const char *nm[] = {"a0", "position", "b", "id", "c", "longer_attribute_name", "d", "e", "f"};
  if (k == 0) { A a; a.ty = choice("type", ntypes); a.cnt = CN[a.ty]; a.name = nm[at.size()]; a.h = p->addAttribute(a.name.c_str(), TY[a.ty], a.cnt); check(a.h.name == a.name && a.h.type == TY[a.ty] && a.h.count == a.cnt, "handle returned by addAttribute"); at.push_back(a); int m = n; at.back().v.resize(m); for (int i = 0; i < m; i++) wr(p, at.back(), i); }
  else if (k == 1) { ParticleIndex i = p->addParticle(); check(i == (ParticleIndex)n, "addParticle returns the new index"); grow(n + 1); }
  else if (k == 2) { static const int sz[4] = {4, 13, 1, 2}; int c = sz[choice("size", nsizes)]; ParticlesDataMutable::iterator it = p->addParticles(c); check(it.index == (size_t)n, "addParticles returns the first new index"); grow(n + c); }
  else if (k == 3) { if (at.empty() || !n) assume(false); A &a = at[choice("attr", (int)at.size())]; int i = choice("which", 2) ? n - 1 : 0; wr(p, a, i); }
  else if (k == 4) { A a; a.ty = choice("ftype", ntypes); a.cnt = CN[a.ty]; a.name = nm[fx.size()]; a.f = p->addFixedAttribute(a.name.c_str(), TY[a.ty], a.cnt); check(a.f.name == a.name && a.f.type == TY[a.ty] && a.f.count == a.cnt, "handle returned by addFixedAttribute"); fx.push_back(a); wrf(fx.back()); }
  else { if (fx.empty()) assume(false); wrf(fx[choice("fattr", (int)fx.size())]); }
}
void harness() {
  int K = cfgi("ops", 3), first = cfgi("first", 0), second = cfgi("second", -1); ntypes = cfgi("types", 4); nsizes = cfgi("sizes", 2); int nops = cfgi("nops", 5);
  p = cfgi("backend", 0) ? createInterleave() : create();
  op(first); if (second >= 0) op(second); verify();
  for (int k = second >= 0 ? 2 : 1; k < K; k++) { op(choice("op", nops)); verify(); }
  cover("end");
  if (n > 10) cover("reallocated");
  p->release();
}
