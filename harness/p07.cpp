#include "model.h"
// cloneSchema / clone of a set in either backend, with and without a name map.
void harness() {
  int backend = cfgi("backend", 0), what = cfgi("what", 0); Model m; m.n = choice("n", cfgi("nmax", 2) + 1);
  static const char *PN[3] = {"alpha", "beta", "gamma"}; static const int CN[4][2] = {{3, 3}, {1, 2}, {1, 3}, {1, 2}};
  int lg = cfgi("large", 0), na = lg ? 2 : choice("attrs", 3) + (cfgi("more", 0)), nf = lg ? 1 : choice("fixed", 3);
  for (int i = 0; i < na; i++) { int t = (choice("type", 2) * 2 + i) & 3; MAttr a = mattr(PN[i], TY[t], CN[t][i & 1]); if (t == 3) { a.strs.push_back(Str("s") + (char)sym8("ch")); assume(a.strs[0][1] != 0); a.strs.push_back(""); if (cfgi("dup", 0)) { a.strs.push_back(a.strs[0]); a.strs.push_back("z"); } } m.a.push_back(a); }
  for (int i = 0; i < nf; i++) { int t = (choice("ftype", 2) * 2 + i + 1) & 3; MAttr a = mattr(PN[i], TY[t], CN[t][(i + 1) & 1]); if (t == 3) { a.strs.push_back("one string that is not short at all"); a.strs.push_back("two"); if (cfgi("dup", 0)) { a.strs.insert(a.strs.begin() + 1, a.strs[0]); } } m.f.push_back(a); }
  if (cfgi("large", 0)) { m.n = cfgi("large", 0); for (int i = 0; i < 12; i++) { Str nm = Str("more") + (char)('a' + i); int t = i & 3; MAttr a = mattr(nm, TY[t], t ? i + 1 : 3); if (t == 3) for (int k = 0; k < 20; k++) a.strs.push_back(nm + (char)('A' + k)); (i % 3 == 2 ? m.f : m.a).push_back(a); } }
  fillModel(m);
  ParticlesDataMutable *p = mkset(m, backend, cfgi("order", 0));
  std::map<Str, Str> names; bool mapped = choice("map", 2);
  if (mapped) { if (choice("swap", 2)) { names["alpha"] = "beta"; names["beta"] = "alpha"; } else { names["alpha"] = "renamed"; names["absent"] = "gamma"; } }
  Model e = m; if (mapped) { for (auto &a : e.a) if (names.count(a.name)) a.name = names[a.name]; for (auto &a : e.f) if (names.count(a.name)) a.name = names[a.name]; }
  if (what == 0) {
    ParticlesDataMutable *c = cloneSchema(*p, mapped ? &names : 0); check(c && c != p, "a new set");
    check(c->numParticles() == 0, "schema clone is empty"); Model e0 = e; e0.n = 0; sameSet(c, e0, SCHEMA_ORDER | NOVALUES); sameSet(p, m, SCHEMA_ORDER | STRTABLE);
    c->addParticles(2); p->release(); c->release(); cover("schema");
  } else {
    bool particles = what == 1; ParticlesDataMutable *c = clone(*p, particles, mapped ? &names : 0); check(c && c != p, "a new set");
    Model e1 = e; if (!particles) { e1.n = 0; e1.a.clear(); }
    sameSet(c, e1, SCHEMA_ORDER | STRTABLE); sameSet(p, m, SCHEMA_ORDER | STRTABLE);
    // independence: overwrite everything in the copy, then in the original
    Model w = e1; for (auto &a : w.a) if (a.type != INDEXEDSTR) for (auto &v : a.v) v ^= 0x5a5a5a5au; for (auto &a : w.f) if (a.type != INDEXEDSTR) for (auto &v : a.v) v ^= 0x5a5a5a5au;
    storeValues(c, w); for (auto &a : w.f) { FixedAttribute h; c->fixedAttributeInfo(a.name.c_str(), h); for (int k = 0; k < a.count; k++) memcpy(c->fixedDataWrite<int>(h) + k, &a.v[k], 4); if (a.type == INDEXEDSTR) c->registerFixedIndexedStr(h, "only in the copy"); }
    c->addParticle(); sameSet(p, m, SCHEMA_ORDER | STRTABLE);
    if (choice("releaseOriginalFirst", 2)) { p->release(); check(c->numParticles() == w.n + 1, "copy outlives the original"); for (auto &a : w.a) sameAttr(c, a, w.n, 0); for (auto &a : w.f) sameFixed(c, a, 0); c->release(); }
    else { c->release(); sameSet(p, m, SCHEMA_ORDER | STRTABLE); p->release(); }
    cover("clone");
  }
}
