#include "h.h"
// Bulk reads with symbolic index lists.
void harness() {
  ParticlesDataMutable *p = cfgi("backend", 0) ? createInterleave() : create(); int ty = cfgi("type", 0); static const ParticleAttributeType T[6] = {VECTOR, FLOAT, INT, INDEXEDSTR, FLOAT, INT}; static const int C[6] = {3, 1, 1, 1, 4, 3};
  ParticleAttribute o = p->addAttribute("other", FLOAT, 2), a = p->addAttribute("a", T[ty], C[ty]); int c = C[ty], n = cfgi("n", 3); p->addParticles(n);
  std::vector<u32> v; for (int i = 0; i < n; i++) { p->dataWrite<float>(o, i)[0] = 1; p->dataWrite<float>(o, i)[1] = 2; for (int k = 0; k < c; k++) { u32 x = symbits("v"); v.push_back(x); memcpy(p->dataWrite<int>(a, i) + k, &x, 4); } }
  int m = cfgi("long", 0) ? cfgi("long", 0) + choice("m", 4) : choice("m", cfgi("mmax", 3) + 1); bool sorted = choice("sorted", 2);
  ParticleIndex *ix = new ParticleIndex[m ? m : 1]; std::vector<int> id(m);
  for (int i = 0; i < m; i++) { if (cfgi("long", 0)) { ix[i] = id[i] = sorted ? i * n / m : (i * 7 + 2) % n; continue; } int x = symi("ix"); assume(x >= 0 && x < n); id[i] = (int)pick((u32)x); ix[i] = id[i]; }
  if (sorted) for (int i = 1; i < m; i++) assume(id[i - 1] <= id[i]);
  u32 *out = new u32[m * c]; bool fl = T[ty] == VECTOR || T[ty] == FLOAT; const ParticlesData *q = p; (void)q;
  if (cfgi("typed", 1)) { if (fl) p->data<float>(a, m, ix, sorted, (float *)out); else p->data<int>(a, m, ix, sorted, (int *)out); for (int i = 0; i < m; i++) for (int k = 0; k < c; k++) check(out[i * c + k] == v[id[i] * c + k], "bulk data"); }
  float *of = new float[m * c]; p->dataAsFloat(a, m, ix, sorted, of);
  for (int i = 0; i < m; i++) for (int k = 0; k < c; k++) { u32 x = v[id[i] * c + k]; check(b_of(of[i * c + k]) == (fl ? x : b_of((float)(int)x)), "dataAsFloat"); }
  for (int i = 0; i < n; i++) for (int k = 0; k < c; k++) check(ldu32(p->data<int>(a, i) + k) == v[i * c + k], "reads do not change the data");
  delete[] ix; delete[] out; delete[] of; p->release(); cover("end");
}
