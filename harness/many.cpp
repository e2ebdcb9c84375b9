#include "h.h"
// Growth by single additions well past several reallocations, with attributes added at a symbolic moment.
void harness() {
  ParticlesDataMutable *p = cfgi("backend", 0) ? createInterleave() : create(); int N = cfgi("n", 24);
  int mo = cfgi("moments", N); int at2 = choice("moment", mo) * (N / mo); int batch = cfgi("batch", 1);
  std::vector<ParticleAttribute> ex; int ne = cfgi("extra", 0); for (int k = 0; k < ne; k++) { Str nm = "e"; for (int d = k + 1; d; d /= 10) nm += (char)('0' + d % 10); ex.push_back(p->addAttribute(nm.c_str(), k % 3 ? INT : FLOAT, k % 7 == 3 ? cfgi("wide", 40) : 1 + k % 5)); }
  ParticleAttribute a = p->addAttribute("position", VECTOR, 3), b; std::vector<u32> va, vb; bool hb = false; int n = 0;
  while (n < N) {
    if (n >= at2 && !hb) { b = p->addAttribute("late", INT, 1); hb = true; for (int i = 0; i < n; i++) { u32 x = symbits("late"); vb.push_back(x); *p->dataWrite<int>(b, i) = (int)x; } }
    int m = 1; if (batch == 1) { check(p->addParticle() == (ParticleIndex)n, "index"); } else { m = batch; check(p->addParticles(m).index == (size_t)n, "first index of a batch"); }
    for (int j = 0; j < m; j++, n++) { for (int k = 0; k < ne; k++) for (int c = 0; c < ex[k].count; c++) p->dataWrite<int>(ex[k], n)[c] = k * 1000 + n * 7 + c; u32 x = symbits("x"); for (int c = 0; c < 3; c++) { u32 y = x + c; va.push_back(y); memcpy(p->dataWrite<float>(a, n) + c, &y, 4); } if (hb) { u32 z = symbits("late"); vb.push_back(z); *p->dataWrite<int>(b, n) = (int)z; } }
    check(p->numParticles() == n, "count");
  }
  for (int i = 0; i < n; i++) { for (int c = 0; c < 3; c++) check(ldu32(p->data<float>(a, i) + c) == va[i * 3 + c], "value after growth"); if (hb) check((u32)*p->data<int>(b, i) == vb[i], "late value after growth"); }
  for (int i = 0; i < n; i++) for (int k = 0; k < ne; k++) for (int c = 0; c < ex[k].count; c++) check(p->data<int>(ex[k], i)[c] == k * 1000 + i * 7 + c, "value of another attribute after growth");
  p->release(); cover("end");
}
