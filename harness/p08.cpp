#include "model.h"
// merge against a reference merge.  Identifiers are chosen concretely (distinct within each set), everything else is symbolic.
static void tokenise(MAttr &a, const char *const *pool, int n) { for (int i = 0; i < n; i++) a.strs.push_back(pool[i]); }
void harness() {
  int mode = cfgi("mode", 0), nmax = cfgi("nmax", 2); // 0 one id, 1 two ids, 2 no id, 3 id only in one of the sets
  int many = cfgi("many", 0); Model B, D; B.n = many ? many : choice("nb", nmax + 1); D.n = many ? many + 3 : choice("nd", nmax + 1);
  B.a.push_back(mattr("life", FLOAT, cfgi("wide", 0) ? 2 : 1)); D.a.push_back(mattr("life", FLOAT, cfgi("wide", 0) ? 2 : 1));
  bool idb0 = mode == 0 || mode == 1 || mode == 3, idd0 = mode == 0 || mode == 1, id1 = mode == 1;
  if (idb0) B.a.push_back(mattr("id", INT, 1)); if (idd0) D.a.insert(D.a.begin(), mattr("id", INT, 1));
  if (id1) { B.a.push_back(mattr("id2", INT, 1)); D.a.push_back(mattr("id2", INT, 1)); }
  static const char *SB[2] = {"a", "b"}, *SD[3] = {"b", "c", "a"}, *SN[2] = {"x", "y"};
  int tn = cfgi("str", 1), half = cfgi("half", 0); // tn: words per particle; half: the second identifier exists in one set only, or one set's is not an INT
  if (half == 1) B.a.push_back(mattr("id2", INT, 1)); if (half == 2) D.a.push_back(mattr("id2", INT, 1));
  if (tn) { MAttr a = mattr("tag", INDEXEDSTR, tn); tokenise(a, SB, 2); B.a.push_back(a); MAttr d = mattr("tag", INDEXEDSTR, tn); tokenise(d, SD, 3); D.a.push_back(d); }
  if (cfgi("newstr", 0)) { MAttr d = mattr("ntag", INDEXEDSTR, 2); tokenise(d, SN, 2); D.a.push_back(d); }
  if (cfgi("basestr", 0)) { MAttr a = mattr("btag", INDEXEDSTR, 1); tokenise(a, SN, 2); B.a.push_back(a); }
  if (cfgi("newattr", 1)) { D.a.push_back(mattr("new", VECTOR, 3)); B.a.push_back(mattr("old", INT, 2)); }
  if (cfgi("big", 0)) D.a.push_back(mattr("big", FLOAT, cfgi("big", 0)));
  if (cfgi("fixed", 1)) { B.f.push_back(mattr("fb", FLOAT, 2)); B.f.push_back(mattr("fc", INT, 1)); D.f.push_back(mattr("fc", INT, 1)); D.f.push_back(mattr("fd", VECTOR, 3)); }
  if (cfgi("fstr", 0)) { MAttr a = mattr("ft", INDEXEDSTR, 1); tokenise(a, SB, 2); B.f.push_back(a); MAttr d = mattr("ft", INDEXEDSTR, 1); tokenise(d, SD, 3); D.f.push_back(d); MAttr e = mattr("fn", INDEXEDSTR, 1); tokenise(e, SN, 2); D.f.push_back(e); }
  static const ParticleAttributeType CT[5] = {FLOAT, INT, INDEXEDSTR, INDEXEDSTR, VECTOR}; static const int CC[5] = {1, 2, 1, 2, 3};
  if (cfgi("clash", 0)) for (int fx = 0; fx < 2; fx++) if (cfgi("clash", 0) >> fx & 1) { // one name, two kinds of attribute
    int x = choice("base kind", 5), y = choice("delta kind", 5); assume(x != y); MAttr a = mattr("mix", CT[x], CC[x]), d = mattr("mix", CT[y], CC[y]); if (a.type == INDEXEDSTR) tokenise(a, SB, 2); if (d.type == INDEXEDSTR) tokenise(d, SD, 3); (fx ? B.f : B.a).push_back(a); (fx ? D.f : D.a).push_back(d); }
  fillModel(B); fillModel(D);
  if (cfgi("self", 0)) { // into itself: without identifiers everything is there twice, with them nothing changes
    for (auto &a : B.a) if (a.name == "id") for (int i = 0; i < B.n; i++) a.v[(size_t)i] = (u32)i * 3;
    ParticlesDataMutable *b = mkset(B, cfgi("backend", 0)); bool ids = choice("ids", 2); if (ids) merge(*b, *b, "id"); else merge(*b, *b); Model E = B; if (!ids) { E.n *= 2; for (auto &a : E.a) { std::vector<u32> v = a.v; a.v.insert(a.v.end(), v.begin(), v.end()); } } sameSet(b, E, SCHEMA_ORDER | STRTABLE); b->release(); cover("end"); return;
  }
  auto get = [](Model &m, const char *n) -> MAttr * { for (auto &a : m.a) if (a.name == n) return &a; return 0; };
  // identifiers: small values chosen concretely, distinct within a set; when both ids are present the pairs may share one component
  static const u32 IDS[4] = {7, (u32)-3, 0, 8};
  auto setIds = [&](Model &m, const char *nm) {
    MAttr *i0 = get(m, "id"), *i1 = get(m, "id2"); std::vector<std::pair<u32, u32>> seen;
    for (int i = 0; i < m.n; i++) {
      if (many) { bool base = nm[0] == 'b'; u32 a = base ? (u32)(i * 3 - 20) : (u32)(i * 2 - 10), b = id1 ? (u32)(i % 3) : 0; if (i0) i0->v[i] = a; if (i1) i1->v[i] = b; continue; }
      std::pair<u32, u32> id(i0 ? (cfgi("symids", 0) ? (u32)inp(nm, cfgi("symids", 0)) : IDS[choice(nm, id1 ? 2 : 3)]) : (u32)i, i1 ? (cfgi("symids", 0) ? (u32)inp(nm, cfgi("symids", 0)) : IDS[choice(nm, 2)]) : 0u); for (auto &s : seen) if (s == id) assume(false); seen.push_back(id);
      if (i0) i0->v[i] = id.first; if (i1) i1->v[i] = id.second;
    }
  };
  setIds(B, "bid"); setIds(D, "did");
  ParticlesDataMutable *b = mkset(B, cfgi("backend", 0), choice("order", 2)), *d = mkset(D, cfgi("dbackend", 0));
  if ((mode == 0 || mode == 3) && !half) merge(*b, *d, "id"); else if (mode == 1 || half) merge(*b, *d, "id", "id2"); else { if (choice("named", 2)) merge(*b, *d, "noSuchAttribute"); else merge(*b, *d); }
  const Model whole = D; if (cfgi("clash", 0) & 1) D.a.pop_back(); if (cfgi("clash", 0) & 2) D.f.pop_back(); // what clashes is left alone
  // reference
  std::vector<int> dest; int total = B.n; bool usesId = (mode == 0 || mode == 1) && !half;
  for (int j = 0; j < D.n; j++) {
    int at = -1;
    if (usesId) for (int i = 0; i < B.n; i++) { MAttr *b0 = get(B, "id"), *d0 = get(D, "id"), *b1 = get(B, "id2"), *d1 = get(D, "id2"); if (b0->v[i] == d0->v[j] && (!b1 || b1->v[i] == d1->v[j])) at = i; }
    if (at < 0) at = total++; else cover("override");
    dest.push_back(at);
  }
  check(b->numParticles() == total, "merged particle count");
  if (b->numParticles() == total) {
    int na = (int)B.a.size(); for (auto &x : D.a) if (!get(B, x.name.c_str())) na++;
    check(b->numAttributes() == na, "merged attribute count");
    auto val = [&](const MAttr &a, int src, int at, bool fromBase) {
      ParticleAttribute h; bool ok = b->attributeInfo(a.name.c_str(), h); check(ok && h.type == a.type && h.count == a.count, "merged attribute"); if (!ok) return;
      for (int k = 0; k < a.count; k++) {
        if (a.type == INDEXEDSTR) { const std::vector<Str> &T = b->indexedStrs(h); int t = b->data<int>(h, at)[k]; check(t >= 0 && t < (int)T.size() && T[t] == a.strs[a.v[src * a.count + k]], fromBase ? "string of a base particle" : "string of a delta particle"); }
        else check(ldu32(b->data<float>(h, at) + k) == a.v[src * a.count + k], fromBase ? "value of a base particle" : "value of a delta particle");
      }
    };
    for (int i = 0; i < B.n; i++) { bool over = false; for (int x : dest) if (x == i) over = true; for (auto &a : B.a) if (!over || !get(D, a.name.c_str())) val(a, i, i, true); }
    for (int j = 0; j < D.n; j++) for (auto &a : D.a) val(a, j, dest[j], false);
    // new attributes of untouched base particles are zero
    for (auto &a : D.a) if (!get(B, a.name.c_str()) && a.type != INDEXEDSTR) { ParticleAttribute h; if (b->attributeInfo(a.name.c_str(), h)) for (int i = 0; i < B.n; i++) { bool over = false; for (int x : dest) if (x == i) over = true; if (!over) for (int k = 0; k < a.count; k++) check(ldu32(b->data<float>(h, i) + k) == 0, "default of a new attribute"); } }
  }
  // fixed attributes: delta overrides, new ones are added
  int nf = (int)B.f.size(); for (auto &x : D.f) { bool in = false; for (auto &y : B.f) if (y.name == x.name) in = true; if (!in) nf++; }
  check(b->numFixedAttributes() == nf, "merged fixed attribute count");
  for (auto &x : D.f) sameFixed(b, x, 0);
  for (auto &y : B.f) { bool in = false; for (auto &x : D.f) if (y.name == x.name) in = true; if (!in) sameFixed(b, y, 0); }
  sameSet(d, whole, SCHEMA_ORDER | STRTABLE); // delta is left alone
  b->release(); d->release(); cover("end");
}
