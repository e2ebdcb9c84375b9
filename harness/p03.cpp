#include "h.h"
// Attribute names: up to 3 symbolic names of 0..2 characters, added in any way to either name space.
static Str symname(const char *n, int maxlen) { int l = choice("len", maxlen + 1); Str s; for (int i = 0; i < l; i++) { char c = (char)sym8(n); assume(c != 0); s.push_back(c); } return s; }
struct E { Str n; ParticleAttributeType t; int c; int idx; };
static std::vector<E> P, F; static ParticlesDataMutable *p;
static int find(std::vector<E> &v, const Str &s) { for (size_t i = 0; i < v.size(); i++) if (v[i].n == s) return (int)i; return -1; }
void harness() {
  p = cfgi("backend", 0) ? createInterleave() : create(); int K = cfgi("k", 3), ml = cfgi("maxlen", 2);
  static const ParticleAttributeType T[4] = {VECTOR, FLOAT, INT, INDEXEDSTR}; static const int C[4] = {3, 1, 2, 1};
  std::vector<Str> names;
  for (int k = 0; k < cfgi("pre", 0); k++) { Str s; for (int d = k + 1; d; d /= 3) s += (char)('a' + d % 3); if (k % 5 == 4) s += "_and_a_rather_long_tail"; names.push_back(s); ParticleAttribute a = p->addAttribute(s.c_str(), T[k & 3], C[k & 3]); P.push_back(E{s, T[k & 3], C[k & 3], a.attributeIndex}); if (k & 1) { FixedAttribute f = p->addFixedAttribute(s.c_str(), T[k & 3], C[k & 3]); F.push_back(E{s, T[k & 3], C[k & 3], f.attributeIndex}); } }
  for (int k = 0; k < K; k++) {
    Str s = symname("ch", ml); if (cfgi("prefix", 0)) s = "a_common_prefix_of_2" + s; names.push_back(s); bool fixed = choice("fixed", 2); int t = (k + choice("type", 2)) & 3; std::vector<E> &v = fixed ? F : P; int old = find(v, s);
    if (!fixed) { ParticleAttribute a = p->addAttribute(s.c_str(), T[t], C[t]); if (old < 0) { check(a.name == s && a.type == T[t] && a.count == C[t], "returned handle"); v.push_back(E{s, T[t], C[t], a.attributeIndex}); } else { check(a.attributeIndex < 0 || a.name != s || a.type == NONE, "duplicate refused"); cover("duplicate"); } }
    else { FixedAttribute a = p->addFixedAttribute(s.c_str(), T[t], C[t]); if (old < 0) { check(a.name == s && a.type == T[t] && a.count == C[t], "returned fixed handle"); v.push_back(E{s, T[t], C[t], a.attributeIndex}); } else { check(a.attributeIndex < 0 || a.name != s || a.type == NONE, "duplicate fixed refused"); cover("duplicate"); } }
    if (k == 0 && choice("withParticles", 2)) p->addParticles(2);
  }
  check(p->numAttributes() == (int)P.size() && p->numFixedAttributes() == (int)F.size(), "attribute counts");
  if (cfgi("extra", 1)) names.push_back((cfgi("prefix", 0) ? "a_common_prefix_of_2" : "") + symname("other", 1));
  for (auto &s : names) {
    ParticleAttribute a; int i = find(P, s); bool ok = p->attributeInfo(s.c_str(), a); check(ok == (i >= 0), "lookup by name finds exactly the added names");
    if (ok) check(a.name == s && a.type == P[i].t && a.count == P[i].c && a.attributeIndex == P[i].idx, "lookup by name");
    FixedAttribute f; int j = find(F, s); ok = p->fixedAttributeInfo(s.c_str(), f); check(ok == (j >= 0), "fixed lookup by name finds exactly the added names");
    if (ok) check(f.name == s && f.type == F[j].t && f.count == F[j].c && f.attributeIndex == F[j].idx, "fixed lookup by name");
  }
  for (int i = -1; i <= K + cfgi("pre", 0); i++) {
    ParticleAttribute a; bool ok = p->attributeInfo(i, a); check(ok == (i >= 0 && i < (int)P.size()), "index range"); if (ok) check(a.name == P[i].n && a.type == P[i].t && a.count == P[i].c && a.attributeIndex == P[i].idx, "lookup by index");
    FixedAttribute f; ok = p->fixedAttributeInfo(i, f); check(ok == (i >= 0 && i < (int)F.size()), "fixed index range"); if (ok) check(f.name == F[i].n && f.type == F[i].t && f.count == F[i].c && f.attributeIndex == F[i].idx, "fixed lookup by index");
  }
  int far = symi("far"); { ParticleAttribute a; FixedAttribute f; assume(far < 0 || far > 8 + cfgi("pre", 0)); check(!p->attributeInfo(far, a) && !p->fixedAttributeInfo(far, f), "out-of-range index"); }
  // distinct handles own distinct storage
  if (p->numParticles() > 1) { std::vector<ParticleAttribute> hs; for (size_t i = 0; i < P.size(); i++) { ParticleAttribute a; p->attributeInfo((int)i, a); hs.push_back(a); for (int r = 0; r < 2; r++) for (int c = 0; c < a.count; c++) p->dataWrite<int>(a, r)[c] = (int)(100 * i + 10 * r + c); }
    for (size_t i = 0; i < P.size(); i++) for (int r = 0; r < 2; r++) for (int c = 0; c < hs[i].count; c++) check(p->data<int>(hs[i], r)[c] == (int)(100 * i + 10 * r + c), "storage of distinct attributes"); }
  p->release(); cover("end");
}
