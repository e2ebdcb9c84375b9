#include "schemas.h"
// P12: any legal use of a set followed by release() frees all of it once and touches nothing invalid
static const int OPN = 15; struct Op { int k, a, b; };
static Str s1, f1; static Model base; static int kind;
static void useInfo(ParticlesInfo *p) { for (int i = -1; i <= p->numAttributes(); i++) { ParticleAttribute a; p->attributeInfo(i, a); } for (int i = -1; i <= p->numFixedAttributes(); i++) { FixedAttribute a; p->fixedAttributeInfo(i, a); } ParticleAttribute a; p->attributeInfo("nope", a); p->attributeInfo("position", a); FixedAttribute f; p->fixedAttributeInfo("nope", f); }
static bool useConst(ParticlesData *p, const Op &o) {
  ParticleAttribute pos; bool has = p->attributeInfo("position", pos) && pos.type == VECTOR;
  if (o.k == 0) useInfo(p);
  else if (o.k == 1) { ParticlesDataMutable *c = clone(*p, o.a != 0); c->addParticles(2); c->release(); }
  else if (o.k == 2) { std::map<Str, Str> m; m["position"] = "P"; ParticlesDataMutable *c = cloneSchema(*p, o.a ? &m : 0); c->release(); }
  else if (o.k == 3) { if (has) { ParticlesData::const_iterator it = p->begin(); ParticleAccessor acc(pos); it.addAccessor(acc); u32 t = 0; for (ParticlesData::const_iterator e = p->end(); it != e; ++it) t ^= b_of(acc.raw<float>(it)[0]); volatile u8 z = (u8)t; (void)z; } }
  else if (o.k == 4) { std::ostringstream e; Str f = path(o.a ? "copy.bgeo" : "copy.pdb.gz"); write(f.c_str(), *p, o.b, true, e); fdel(f); }
  else if (o.k == 5) { if (has && p->numParticles()) { ParticleIndex ix[2] = {0, (ParticleIndex)p->numParticles() - 1}; float v[6]; p->dataAsFloat(pos, 2, ix, false, v); p->data<float>(pos, 2, ix, true, v); } }
  else if (o.k == 6) { ParticleAttribute t; if (p->attributeInfo("tag", t)) { p->lookupIndexedStr(t, s1.c_str()); p->indexedStrs(t); } FixedAttribute q; if (p->fixedAttributeInfo("name", q)) { p->lookupFixedIndexedStr(q, "x"); p->fixedIndexedStrs(q); } }
  else return false;
  return true;
}
static void fillIds(ParticlesDataMutable *p) { ParticleAttribute a; if (p->attributeInfo("id", a)) for (int i = 0; i < p->numParticles(); i++) *p->dataWrite<int>(a, i) = i * 3; }
static void useMut(ParticlesDataMutable *p, const Op &o) {
  if (useConst(p, o)) return;
  if (o.k == 7) p->addParticle();
  else if (o.k == 8) { static const int c[3] = {0, 3, 13}; p->addParticles(c[o.a % 3]); }
  else if (o.k == 9) p->addAttribute(o.a ? "vel" : "tags2", o.a ? VECTOR : INDEXEDSTR, o.a ? 3 : 2);
  else if (o.k == 10) { FixedAttribute f = p->addFixedAttribute(o.a ? "w" : "name", o.a ? FLOAT : INDEXEDSTR, o.a ? 5 : 1); if (!o.a && f.attributeIndex >= 0) p->registerFixedIndexedStr(f, s1.c_str()); }
  else if (o.k == 11) { ParticleAttribute t; if (p->attributeInfo("tag", t)) { int k = p->registerIndexedStr(t, s1.c_str()); p->registerIndexedStr(t, "a string which is long enough to be kept on the heap"); p->setIndexedStr(t, k, "renamed to something else that is long"); } }
  else if (o.k == 12) { ParticleAttribute pos; if (p->attributeInfo("position", pos)) { for (int i = 0; i < p->numParticles(); i++) for (int c = 0; c < 3; c++) p->dataWrite<float>(pos, i)[c] = (float)(i * (c + 1)); p->sort(); float lo[3] = {-1, -1, -1}, hi[3] = {2, 2, 2}; std::vector<ParticleIndex> r; std::vector<float> d; p->findPoints(lo, hi, r); p->findNPoints(lo, 2, 5.f, r, d); } }
  else if (o.k == 13) { fillIds(p); ParticlesDataMutable *d = mkset(base, o.a); merge(*p, *d, o.b ? "id" : "none"); d->release(); }
  else { for (ParticlesDataMutable::iterator it = p->begin(), e = p->end(); it != e; ++it) {} }
}
static ParticlesInfo *make(int kd) {
  std::ostringstream e;
  if (kd < 2) return mkset(base, kd, 2);
  if (kd == 2 || kd == 3) { ParticlesDataMutable *s = mkset(base, kd == 3), *c = clone(*s, kd == 2); s->release(); return c; }
  if (kd == 4) { ParticlesDataMutable *s = mkset(base, 0), *c = cloneSchema(*s); s->release(); return c; }
  if (kd == 5) return read(f1.c_str(), true, e);
  if (kd == 6) return readHeaders(f1.c_str(), true, e);
  if (kd == 7 || kd == 8) return readCached(f1.c_str(), kd == 8, true, e);
  return kd == 9 ? create() : createInterleave();
}
void harness() {
  kind = cfgi("kind", -1); if (kind < 0) kind = choice("kind", 11);
  base = parseSchema("i1 id v3 position s1 tag +i2 h +s1 name"); base.n = 2; base.a[0].v = {7u, 8u}; base.a[1].v.assign(6, b_of(1.5f)); base.a[2].v = {0u, 1u}; base.f[0].v = {1u, 2u}; base.f[1].v = {0u};
  for (int i = 0; i < cfgi("str", 1); i++) { char c = (char)sym8("str"); assume(c != 0); s1 += c; }
  int fmt = cfgi("fmt", BGEO); f1 = path(Str("life.") + EXT[fmt]);
  { ParticlesDataMutable *p = mkset(base); std::ostringstream e; write(f1.c_str(), *p, false, true, e); p->release(); p = read(path("none.bgeo").c_str(), false, e); check(!p, "missing file"); }
  std::vector<Op> ops; int K = cfgi("ops", 2), lim = kind == 6 ? 1 : kind == 7 || kind == 8 ? 7 : OPN;
  for (int i = 0; i < K; i++) { Op o; o.k = i == 0 && cfgi("first", -1) >= 0 ? std::min(cfgi("first", 0), lim - 1) : choice("op", lim); o.a = (o.k >= 1 && o.k != 3 && o.k != 7 && o.k < 14) ? choice("a", o.k == 8 ? 3 : 2) : 0; o.b = o.k == 4 || o.k == 13 ? choice("b", 2) : 0; ops.push_back(o); }
  int again = kind >= 7 && kind <= 8 ? choice("holders", 3) : 0;
  auto run = [&]() {
    ParticlesInfo *p = make(kind); check(p != 0, "set obtained"); std::ostringstream e;
    std::vector<ParticlesInfo *> more; for (int i = 0; i < again; i++) more.push_back(readCached(f1.c_str(), i, true, e));
    for (auto &o : ops) { if (kind == 6) useInfo(p); else if (kind == 7 || kind == 8) useConst(static_cast<ParticlesData *>(p), o); else useMut(static_cast<ParticlesDataMutable *>(p), o); }
    for (auto q : more) { q->release(); check(alive(p), "kept while held"); }
    p->release(); check(!alive(p), "the set itself is freed");
  };
  leakfree(run, "release frees everything"); cover("end");
}
