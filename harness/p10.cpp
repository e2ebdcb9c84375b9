#include "h.h"
// findNPoints against the definition on integer coordinates (all float arithmetic exact).
static float SC = 1;
static float lat(const char *n, int bits) { float v = latf(n, bits); return SC == 1 ? v : SC * v; }
void harness() {
  int n = cfgi("n", 3), bits = cfgi("bits", 4), axes = cfgi("axes", 7), N = cfgi("N", 2), qaxes = cfgi("qaxes", 7), pod = cfgi("pod", 0); for (int s = cfgi("scale", 0); s; s += s < 0 ? 1 : -1) SC *= s < 0 ? 0.5f : 2.f;
  ParticlesDataMutable *p = create(); ParticleAttribute pos = p->addAttribute("position", VECTOR, 3); p->addParticles(n); std::vector<float> x(3 * n + 1, 0.f);
  for (int i = 0; i < n; i++) for (int a = 0; a < 3; a++) { x[3 * i + a] = (axes >> a & 1) ? lat("pos", bits) : SC * (cfgi("same", 0) ? 1.f : (float)((i * (2 * a + 3)) % (n + 1))); p->dataWrite<float>(pos, i)[a] = x[3 * i + a]; }
  p->sort();
  float q[3]; for (int a = 0; a < 3; a++) q[a] = (qaxes >> a & 1) ? lat("centre", bits) : SC;
  float rad; if (cfgi("anyradius", 1)) { rad = lat("radius", bits + 1); assume(rad >= 0); } else rad = 1e6f;
  std::vector<ParticleIndex> r; std::vector<float> d2; int found; float fr = -1;
  if (pod) { r.assign(N + 1, 777); d2.assign(N + 1, -7); found = p->findNPoints(q, N, rad, &r[0], &d2[0], &fr); check(found >= 0 && found <= N, "count in range"); check(r[N] == 777 && d2[N] == -7, "nothing written past the requested count"); }
  else { r.assign(choice("stale", 2) * 3, 5); d2.assign(r.size(), 1); p->findNPoints(q, N, rad, r, d2); found = (int)r.size(); check(r.size() == d2.size(), "as many distances as indices"); }
  std::vector<char> in(n, 0); std::vector<float> dist(n, 0.f);
  for (int i = 0; i < n; i++) { float s = 0; for (int a = 0; a < 3; a++) { float t = x[3 * i + a] - q[a]; s += t * t; } dist[i] = s; }
  for (int i = 0; i < found; i++) { check(r[i] < (ParticleIndex)n, "index in range"); check(!in[(int)r[i]], "indices are distinct"); in[(int)r[i]] = 1; check(d2[i] == dist[(int)r[i]], "true squared distance"); check(d2[i] <= rad * rad, "inside the radius"); }
  float worst = 0; for (int i = 0; i < found; i++) worst = d2[i] > worst ? d2[i] : worst;
  for (int i = 0; i < n; i++) if (!in[i]) { if (found < N) check(dist[i] >= rad * rad, "fewer than N only when no other point is within the radius"); else for (int k = 0; k < found; k++) check(dist[i] >= d2[k], "no left-out point is nearer than a returned one"); }
  if (pod) check(found == N && N > 0 ? fr == worst : fr == rad * rad, "final radius");
  p->release(); cover("end");
}
