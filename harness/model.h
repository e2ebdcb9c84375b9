// A particle set described independently of the library, and the comparison of
// a library set with it.
#ifndef MODEL_H
#define MODEL_H
#include "h.h"
struct MAttr { Str name; ParticleAttributeType type; int count; std::vector<Str> strs; std::vector<u32> v; };
struct Model { int n = 0; std::vector<MAttr> a, f; };
static const ParticleAttributeType TY[4] = {VECTOR, FLOAT, INT, INDEXEDSTR};
static inline MAttr mattr(const Str &name, ParticleAttributeType t, int count) { MAttr a; a.name = name; a.type = t; a.count = count; return a; }
// fresh values: every bit pattern for numbers, one of the strings for tokens
static inline void fillAttr(MAttr &a, int n, bool anyBits = true) {
  a.v.clear();
  for (int i = 0; i < n * a.count; i++) {
    if (a.type == INDEXEDSTR) a.v.push_back(a.strs.empty() ? 0 : i < cfgi("freetokens", 2) ? (u32)choice("token", (int)a.strs.size()) : (u32)((i + 1) % a.strs.size()));
    else if (a.type == INT || anyBits) a.v.push_back(symbits(a.name.c_str()));
    else a.v.push_back(b_of(symf(a.name.c_str())));
  }
}
static inline void fillModel(Model &m, bool anyBits = true) { for (auto &a : m.a) fillAttr(a, m.n, anyBits); for (auto &a : m.f) fillAttr(a, 1, anyBits); }
static inline void storeValues(ParticlesDataMutable *p, const Model &m) {
  for (auto &a : m.a) { ParticleAttribute h; check(p->attributeInfo(a.name.c_str(), h), "built attribute"); for (int i = 0; i < m.n; i++) for (int k = 0; k < a.count; k++) memcpy(p->dataWrite<int>(h, i) + k, &a.v[i * a.count + k], 4); }
}
// registers a table's strings; one that is there already gets a token of its own by renaming another
static inline void regStrs(ParticlesDataMutable *p, const ParticleAttribute &h, const std::vector<Str> &v) { for (size_t i = 0; i < v.size(); i++) { int t = p->registerIndexedStr(h, v[i].c_str()); if (t != (int)i) { t = p->registerIndexedStr(h, "(a string used nowhere else)"); check(t == (int)i, "token of a new string"); p->setIndexedStr(h, t, v[i].c_str()); } } }
static inline void regStrs(ParticlesDataMutable *p, const FixedAttribute &h, const std::vector<Str> &v) { for (size_t i = 0; i < v.size(); i++) { int t = p->registerFixedIndexedStr(h, v[i].c_str()); if (t != (int)i) { t = p->registerFixedIndexedStr(h, "(a string used nowhere else)"); check(t == (int)i, "token of a new string"); p->setFixedIndexedStr(h, t, v[i].c_str()); } } }
// order 0: attributes then particles, 1: particles first, 2: particles one by one in between
static inline ParticlesDataMutable *mkset(const Model &m, int backend = 0, int order = 0) {
  ParticlesDataMutable *p = backend ? createInterleave() : create();
  if (order == 1) p->addParticles(m.n);
  size_t half = m.a.size() / 2;
  for (size_t i = 0; i < m.a.size(); i++) {
    if (order == 2 && i == half) for (int k = 0; k < m.n; k++) p->addParticle();
    ParticleAttribute h = p->addAttribute(m.a[i].name.c_str(), m.a[i].type, m.a[i].count); regStrs(p, h, m.a[i].strs);
  }
  for (auto &a : m.f) { FixedAttribute h = p->addFixedAttribute(a.name.c_str(), a.type, a.count); regStrs(p, h, a.strs); for (int k = 0; k < a.count; k++) memcpy(p->fixedDataWrite<int>(h) + k, &a.v[k], 4); }
  if (order == 0 || (order == 2 && m.a.empty())) p->addParticles(m.n);
  storeValues(p, m);
  return p;
}
enum { SCHEMA_ORDER = 1, STRTABLE = 2, NOVALUES = 4, TEXT6 = 8, TEXT9 = 16, INTASFLOAT = 32 };
static inline bool sameVal(u32 got, u32 want, int flags, ParticleAttributeType t) {
  if (t != INT && (flags & (TEXT6 | TEXT9))) return textEq(f_of(got), f_of(want), flags & TEXT9 ? 9 : 6);
  return got == want;
}
static inline void sameAttr(const ParticlesData *p, const MAttr &a, int n, int flags) {
  ParticleAttribute h; bool ok = p->attributeInfo(a.name.c_str(), h); check(ok, "attribute present"); if (!ok) return;
  check(h.name == a.name && h.type == a.type && h.count == a.count, "attribute name, type and count");
  if (flags & NOVALUES) return;
  if (a.type == INDEXEDSTR) {
    const std::vector<Str> &T = p->indexedStrs(h);
    if (flags & STRTABLE) { check(T.size() == a.strs.size(), "string table size"); for (size_t i = 0; i < T.size(); i++) check(T[i] == a.strs[i], "string table entry"); }
    for (int i = 0; i < n; i++) for (int k = 0; k < a.count; k++) { int t = p->data<int>(h, i)[k]; check(t >= 0 && t < (int)T.size(), "string token in range"); check(T[t] == a.strs[a.v[i * a.count + k]], "particle string"); }
    return;
  }
  for (int i = 0; i < n; i++) { const float *d = p->data<float>(h, i); for (int k = 0; k < a.count; k++) check(sameVal(ldu32(d + k), a.v[i * a.count + k], flags, a.type), "particle value"); }
}
static inline void sameFixed(const ParticlesData *p, const MAttr &a, int flags) {
  FixedAttribute h; bool ok = p->fixedAttributeInfo(a.name.c_str(), h); check(ok, "fixed attribute present"); if (!ok) return;
  check(h.name == a.name && h.type == a.type && h.count == a.count, "fixed attribute name, type and count");
  if (flags & NOVALUES) return;
  if (a.type == INDEXEDSTR) {
    const std::vector<Str> &T = p->fixedIndexedStrs(h);
    if (flags & STRTABLE) { check(T.size() == a.strs.size(), "fixed string table size"); for (size_t i = 0; i < T.size(); i++) check(T[i] == a.strs[i], "fixed string table entry"); }
    for (int k = 0; k < a.count; k++) { int t = p->fixedData<int>(h)[k]; check(t >= 0 && t < (int)T.size(), "fixed string token in range"); check(T[t] == a.strs[a.v[k]], "fixed string"); }
    return;
  }
  const float *d = p->fixedData<float>(h); for (int k = 0; k < a.count; k++) check(sameVal(ldu32(d + k), a.v[k], flags, a.type), "fixed value");
}
static inline void sameSet(const ParticlesData *p, const Model &m, int flags = 0) {
  check(p->numParticles() == m.n, "particle count"); check(p->numAttributes() == (int)m.a.size(), "attribute count"); check(p->numFixedAttributes() == (int)m.f.size(), "fixed attribute count");
  if (p->numParticles() != m.n) return;
  for (auto &a : m.a) sameAttr(p, a, m.n, flags);
  for (auto &a : m.f) sameFixed(p, a, flags);
  if (flags & SCHEMA_ORDER) {
    for (size_t i = 0; i < m.a.size(); i++) { ParticleAttribute h; check(p->attributeInfo((int)i, h) && h.name == m.a[i].name, "attribute order"); }
    for (size_t i = 0; i < m.f.size(); i++) { FixedAttribute h; check(p->fixedAttributeInfo((int)i, h) && h.name == m.f[i].name, "fixed attribute order"); }
  }
}
// what readHeaders gives is what read gives
static inline void sameInfo(const ParticlesInfo *h, const ParticlesInfo *p) {
  check(h->numParticles() == p->numParticles(), "readHeaders: particle count"); check(h->numAttributes() == p->numAttributes(), "readHeaders: attribute count"); check(h->numFixedAttributes() == p->numFixedAttributes(), "readHeaders: fixed attribute count");
  for (int i = 0; i < p->numAttributes(); i++) { ParticleAttribute a, b, c; bool x = h->attributeInfo(i, a), y = p->attributeInfo(i, b); check(x && y && a.name == b.name && a.type == b.type && a.count == b.count, "readHeaders: attribute"); check(h->attributeInfo(b.name.c_str(), c) && c.type == b.type && c.count == b.count, "readHeaders: attribute by name"); }
  for (int i = 0; i < p->numFixedAttributes(); i++) { FixedAttribute a, b; bool x = h->fixedAttributeInfo(i, a), y = p->fixedAttributeInfo(i, b); check(x && y && a.name == b.name && a.type == b.type && a.count == b.count, "readHeaders: fixed attribute"); }
}
#endif
