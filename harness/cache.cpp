#include "schemas.h"
// P11: histories of readCached/release against a model of what is held
struct Inst { ParticlesData *p; int holders; bool sorted; std::vector<u32> v; };
static Model M; static std::ostringstream err;
static Str fname(int f) { return path(f == 0 ? "a.bgeo" : f == 1 ? "b.bgeo" : "missing.bgeo"); }
static std::vector<u32> cur[3]; static bool exists[3]; static Inst in[3];
static void put(int f) { // a new version of the file: positions at lattice points, a value of any bits
  M.n = 2; M.a[0].v.clear(); for (int i = 0; i < 2; i++) for (int c = 0; c < 3; c++) M.a[0].v.push_back(b_of((float)(i + 1) * (c == 0 ? 1.f : 0.f))); M.a[1].v.clear(); for (int i = 0; i < 2; i++) M.a[1].v.push_back(symbits("a"));
  ParticlesDataMutable *p = mkset(M); write(fname(f).c_str(), *p, false, true, err); p->release(); cur[f] = M.a[1].v; exists[f] = true;
}
static void unlocked() {
  SX_ONLY(check(__sx_held() == 0, "the lock is released");)
  NATIVE_ONLY({ ParticlesData *q = readCached(path("never.bgeo").c_str(), false, false, err); check(!q, "missing file"); }) // hangs if the lock is still held
}
static void look(Inst &x) {
  check(alive(x.p), "a held instance stays usable"); check(x.p->numParticles() == 2 && x.p->numAttributes() == 2, "a held instance keeps its particles"); ParticleAttribute a; check(x.p->attributeInfo("a", a), "attribute"); for (int i = 0; i < 2; i++) check(ldu32(x.p->data<float>(a, i)) == x.v[(size_t)i], "a held instance keeps its values");
  if (x.sorted) { float lo[3] = {0.5f, -1, -1}, hi[3] = {1.5f, 1, 1}; std::vector<ParticleIndex> r; x.p->findPoints(lo, hi, r); check(r.size() == 1 && r[0] == 0, "queries work on a sorted instance"); std::vector<float> d; float c[3] = {2.25f, 0, 0}; x.p->findNPoints(c, 1, 1.f, r, d); check(r.size() == 1 && r[0] == 1 && d[0] == 0.0625f, "nearest queries work on a sorted instance"); }
}
void harness() {
  M = parseSchema("v3 position f1 a"); int K = cfgi("ops", 4), nf = cfgi("files", 3);
  for (int f = 0; f < 3; f++) { in[f].p = 0; in[f].holders = 0; in[f].sorted = false; exists[f] = false; }
  put(0); put(1); { ParticlesData *w = readCached(fname(0).c_str(), true, true, err); check(w != 0, "cached read"); w->release(); w = readCached(fname(2).c_str(), true, false, err); check(!w, "missing file"); } // start tables and streams
  long a0 = 0; { std::vector<u32> t0 = cur[0], t1 = cur[1]; a0 = live(); }
  int first = cfgi("first", -1);
  for (int k = 0; k < K; k++) {
    int op = k == 0 && first >= 0 ? first : choice("op", cfgi("nops", 5));
    if (op == 0 || op == 1) { // request, sorted or not
      int f = choice("file", nf); ParticlesData *p = readCached(fname(f).c_str(), op == 1, true, err); unlocked();
      check((p != 0) == exists[f] || in[f].holders > 0, "null exactly for a missing file");
      if (!p) continue;
      if (in[f].holders) { check(p == in[f].p, "the same instance while it is held"); if (op == 1) in[f].sorted = true; } else { check(exists[f], "read"); in[f].p = p; in[f].sorted = op == 1; in[f].v = cur[f]; }
      in[f].holders++; for (int g = 0; g < 3; g++) if (g != f && in[g].holders) check(in[g].p != p, "different files have different instances");
    } else if (op == 2) { // release
      int f = choice("release", nf); if (!in[f].holders) assume(false); ParticlesData *p = in[f].p; p->release(); unlocked(); in[f].holders--; check(alive(p) == (in[f].holders > 0), "freed exactly with the last holder"); if (!in[f].holders) in[f].p = 0;
    } else if (op == 3) { put(choice("put", nf)); }
    else if (op == 4) { ParticlesDataMutable *p = read(fname(0).c_str(), true, err); check(p != 0, "plain read"); if (in[0].holders) check(p != in[0].p, "a plain read is not shared"); p->release(); check(!alive(p), "a plain read is freed by its release"); unlocked(); }
    for (int f = 0; f < 3; f++) if (in[f].holders) look(in[f]);
  }
  for (int f = 0; f < 3; f++) while (in[f].holders) { in[f].p->release(); in[f].holders--; check(alive(in[f].p) == (in[f].holders > 0), "freed exactly with the last holder"); }
  unlocked(); (void)a0; cover("end");
}
