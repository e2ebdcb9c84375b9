#include "h.h"
// findPoints against the definition.  bits=0: every finite float; otherwise integer coordinates of that width.
static float co(const char *n, int bits) { if (bits) return latf(n, bits); return symford(n); }
void harness() {
  int n = cfgi("n", 3), bits = cfgi("bits", 0), axes = cfgi("axes", 7), baxes = cfgi("baxes", 7), same = cfgi("same", 0);
  ParticlesDataMutable *p = create(); ParticleAttribute id, pos;
  if (cfgi("idfirst", 0)) id = p->addAttribute("id", INT, 1); pos = p->addAttribute("position", VECTOR, 3); if (!cfgi("idfirst", 0)) id = p->addAttribute("id", INT, 1);
  p->addParticles(n); std::vector<float> x(3 * n + 1, 0.f);
  for (int i = 0; i < n; i++) for (int a = 0; a < 3; a++) { x[3 * i + a] = (axes >> a & 1) ? co("pos", bits) : (same ? 1.f : (float)((i * (2 * a + 3)) % (n + 1))); p->dataWrite<float>(pos, i)[a] = x[3 * i + a]; }
  for (int i = 0; i < n; i++) p->dataWrite<int>(id, i)[0] = 1000 + i;
  p->sort();
  for (int i = 0; i < n; i++) { check(p->data<int>(id, i)[0] == 1000 + i, "sort keeps the particles"); for (int a = 0; a < 3; a++) check(ldu32(p->data<float>(pos, i) + a) == b_of(x[3 * i + a]), "sort keeps the positions"); }
  float lo[3], hi[3]; for (int a = 0; a < 3; a++) { if (baxes >> a & 1) { lo[a] = co("lo", bits); hi[a] = co("hi", bits); assume(lo[a] <= hi[a]); } else { lo[a] = -1e30f; hi[a] = 1e30f; } }
  if (cfgi("half", 0)) { for (int a = 0; a < 3; a++) if (baxes >> a & 1) { if (cfgi("half", 0) == 1) hi[a] = 1e30f; else lo[a] = -1e30f; } }
  std::vector<ParticleIndex> r; int before = choice("before", 2); if (before) r.push_back(777);
  p->findPoints(lo, hi, r);
  check((int)r.size() >= before && (!before || r[0] == 777), "points already in the vector stay");
  std::vector<int> hits(n, 0); for (size_t i = before; i < r.size(); i++) { check(r[i] < (ParticleIndex)n, "index in range"); hits[(int)r[i]]++; }
  for (int i = 0; i < n; i++) { bool in = true; for (int a = 0; a < 3; a++) in = in & (lo[a] <= x[3 * i + a]) & (x[3 * i + a] <= hi[a]); check((hits[i] == 1) == in, "exactly the points inside the box are returned"); check(hits[i] <= 1, "each point once"); }
  p->release(); cover("end");
}
