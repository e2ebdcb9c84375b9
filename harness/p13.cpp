#include "schemas.h"
// P13: computeClustering against its description.  Identifiers, places and parameters are chosen concretely (the code hashes them), all other values are arbitrary.
// The attribute "who" tells which two particles a generated one lies between, and where.
static double lenOf(const float *a, const float *b) { double s = 0; for (int c = 0; c < 3; c++) s += ((double)a[c] - b[c]) * ((double)a[c] - b[c]); return std::sqrt(s); }
static bool between(u32 got, u32 a, u32 b, float t) {
  float x = f_of(a), y = f_of(b);
#ifdef SX
  float e1 = x + t * (y - x), e2 = (1 - t) * x + t * y, e3 = (float)(x + (double)t * ((double)y - x)), e4 = y + (1 - t) * (x - y);
  return (got == b_of(e1)) || (got == b_of(e2)) || (got == b_of(e3)) || (got == b_of(e4));
#else
  double e = x + (double)t * ((double)y - x), m = std::max(std::fabs((double)x), std::fabs((double)y)); return std::fabs(f_of(got) - e) <= 1e-5 * m;
#endif
}
static void refused() { // without a usable position or identifier there is nothing to cluster
  static const char *B[] = {"v3 position f1 a", "i1 id f1 a", "v3 position f1 id", "f2 position i1 id", "v3 position i2 id", "i3 position i1 id", "v3 Position i1 id s1 t"};
  Model m = parseSchema(B[choice("schema", 7)]); m.n = choice("particles", 2); fillModel(m, false); ParticlesDataMutable *p = mkset(m);
  leakfree([&] { ParticlesDataMutable *c = computeClustering(p, 3, 2, 50, 2, 3); check(c == 0, "no result"); }, "nothing stays allocated"); sameSet(p, m, SCHEMA_ORDER | STRTABLE); p->release(); cover("end");
}
void harness() {
  if (cfgi("refused", 0)) { refused(); return; }
  static const float AT[7][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1.25f, 0}, {0, 0, 1.5f}, {0.75f, 0.625f, 0}, {4, 4, 4}, {0.5f, 0.5f, 0.25f}};
  static const int IDS[6][4] = {{1, 2, 3, 4}, {9, 4, 7, 2}, {-5, 12, 0, 3}, {3, 8, -20000000, 1}, {1000000, -7, 2, 5}, {0, 0, 0, 0}};
  int n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 3) - cfgi("nmin", 0) + 1), place = cfgi("place", 0), ids = cfgi("ids", -1) >= 0 ? cfgi("ids", 0) : choice("ids", 5), nn = cfgi("neighbours", 5), conn = cfgi("connections", -1) >= 0 ? cfgi("connections", 0) : choice("connections", 4);
  static const double RS[4] = {1.6, 3, 0.9, 10}, RI[6] = {100, 50, 0, 10, 150, -100}; double rs = RS[cfgi("radius", 1)], ri = RI[cfgi("inside", 1)], density = cfgi("density", 3) + 0.3;
  Model m = parseSchema(cfgi("pos", 0) ? "i1 id v3 vel v3 position f2 u i3 k s2 tag f4 who" : "v3 position i1 id v3 vel f2 u i3 k s2 tag f4 who"); m.n = n;
  int pa = 0, ia = 0, wa = 0; for (size_t i = 0; i < m.a.size(); i++) { if (m.a[i].name == "position") pa = (int)i; if (m.a[i].name == "id") ia = (int)i; if (m.a[i].name == "who") wa = (int)i; }
  for (auto &a : m.a) { if (a.name == "position") { for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) a.v.push_back(b_of(AT[(i + place) % 7][c])); } else if (a.name == "id") { for (int i = 0; i < n; i++) a.v.push_back((u32)IDS[ids][i]); } else if (a.name == "who") { for (int i = 0; i < n; i++) for (int c = 0; c < 4; c++) a.v.push_back(b_of(c == i ? 1.f : 0.f)); } else fillAttr(a, n, false); }
  ParticlesDataMutable *p = mkset(m, choice("backend", cfgi("backends", 1))), *c = computeClustering(p, nn, rs, ri, conn, density);
  check(c != 0, "a set with position and id is clustered"); if (!c) return;
  sameSet(p, m, SCHEMA_ORDER | STRTABLE); // the input keeps its particles
  check(c->numAttributes() == (int)m.a.size() + 1 && c->numFixedAttributes() == 0, "the same attributes and clusterId");
  std::vector<ParticleAttribute> h(m.a.size()); for (size_t j = 0; j < m.a.size(); j++) { bool ok = c->attributeInfo(m.a[j].name.c_str(), h[j]); check(ok && h[j].type == m.a[j].type && h[j].count == m.a[j].count, "attribute of the input"); if (!ok) return; }
  ParticleAttribute cid; bool ok = c->attributeInfo("clusterId", cid) && cid.type == INT && cid.count == 1; check(ok, "clusterId"); if (!ok) return;
  // the reference: how many particles lie on which segment
  int at = 0, total = c->numParticles(); const float *pos = 0; (void)pos; auto P = [&](int i, float *x) { for (int k = 0; k < 3; k++) x[k] = f_of(m.a[pa].v[3 * i + k]); };
  auto strOk = [&](const MAttr &a, const ParticleAttribute &ha, int q, int i) { const std::vector<Str> &T = c->indexedStrs(ha); for (int k = 0; k < a.count; k++) { int t = c->data<int>(ha, q)[k]; check(t >= 0 && t < (int)T.size() && T[t] == a.strs[a.v[i * a.count + k]], "string kept"); } };
  for (int i = 0; i < n; i++) {
    check(at < total, "every particle is in the result"); if (at >= total) return;
    check(c->data<int>(cid, at)[0] == 0, "an original particle has clusterId 0");
    for (size_t j = 0; j < m.a.size(); j++) { if (m.a[j].type == INDEXEDSTR) { strOk(m.a[j], h[j], at, i); continue; } for (int k = 0; k < m.a[j].count; k++) check(ldu32(c->data<float>(h[j], at) + k) == m.a[j].v[i * m.a[j].count + k], "value of an original particle"); }
    at++; float me[3]; P(i, me);
    std::vector<std::pair<double, int>> near; for (int q = 0; q < n; q++) { float o[3]; P(q, o); double d = lenOf(me, o); if (d < rs) near.push_back(std::make_pair(d, q)); }
    std::sort(near.begin(), near.end()); if ((int)near.size() > nn) near.resize((size_t)nn);
    std::vector<std::pair<int, int>> byid; for (auto &x : near) if (m.a[ia].v[x.second] != m.a[ia].v[i]) byid.push_back(std::make_pair((int)m.a[ia].v[x.second], x.second));
    std::sort(byid.begin(), byid.end()); if ((int)byid.size() > conn) byid.resize((size_t)conn);
    int clusterId = 1;
    for (auto &x : byid) {
      int q = x.second; float o[3]; P(q, o); double len = lenOf(me, o), inner = std::min(100., std::max(0., ri)) / 100 * rs, f = 1; if (len >= inner) { double t = 1 - (len - inner) / (rs - inner); f = (3 - 2 * t) * t * t; }
      double want = density * len * f; int lo = (int)std::floor(want - 1e-3), hi = (int)std::floor(want + 1e-3), got = 0; if (lo < 0) lo = 0;
      while (at < total && got <= hi) {
        const float *w = c->data<float>(h[wa], at); if (c->data<int>(cid, at)[0] == 0 || !(w[q] > 0 || got < lo)) break;
        float t = w[q]; check(t >= 0 && t <= 1, "on the segment"); for (int k = 0; k < 4; k++) check(std::fabs(w[k] - (k == q ? t : k == i ? 1 - t : 0)) < 1e-5f, "between the particle and this neighbour");
        check(c->data<int>(cid, at)[0] == clusterId, "clusterId counts the particles generated for one particle"); clusterId++;
        for (size_t j = 0; j < m.a.size(); j++) { const MAttr &a = m.a[j]; if (a.type == INDEXEDSTR) { strOk(a, h[j], at, i); continue; }
          for (int k = 0; k < a.count; k++) { u32 g = ldu32(c->data<float>(h[j], at) + k), u = a.v[i * a.count + k], v = a.v[q * a.count + k]; if (a.type == INT) check(g == u, "integers of a generated particle are the particle's"); else if (a.name != "who") check(between(g, u, v, t), "values of a generated particle lie in between"); } }
        got++; at++;
      }
      check(got >= lo && got <= hi, "as many generated particles as length and density ask for");
    }
  }
  check(at == total, "nothing else is generated");
  p->release(); c->release(); cover("end");
}
