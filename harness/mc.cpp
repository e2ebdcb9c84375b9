#include "mc.h"
// P36: every per-particle array of a Maya particle cache becomes an attribute with its values
static bool isIdName(const Str &s) { return s == "id"; }
void harness() {
  int n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 3) - cfgi("nmin", 0) + 1), k = cfgi("arrays", 3), idpos = choice("idpos", k), nul = choice("nul", 2);
  Str pre = choice("prefix", 2) ? "nParticleShape1_" : "p_";
  static const char *NM[] = {"position", "radiusPP", "velocity", "ab"};
  std::vector<McArray> as; std::vector<u64> ids;
  for (int i = 0; i < k; i++) {
    McArray a; a.n = (u32)n; a.type = 0; a.vec = false; Str nm = i == idpos ? "id" : NM[i % 4]; if (i != idpos && i > 3) nm += (char)('A' + i);
    if (i != idpos) { if (cfgi("symname", 0)) { for (int q = 0; q < cfgi("symname", 0); q++) { char c = (char)sym8("namechar"); assume(c != 0); nm += c; } } a.vec = k > 5 ? i & 1 : choice("vector", 2); }
    a.name = pre + nm;
    for (int j = 0; j < n; j++) {
      if (i == idpos) { // ids are whole numbers stored as doubles
        int v = symi("id"); a.d.push_back(b_of((double)v)); ids.push_back((u32)v); }
      else if (a.vec) for (int c = 0; c < 3; c++) a.f.push_back(symbits("vec"));
      else { u64 v = inp("dbl", 64); assume((v & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); a.d.push_back(v); }
    }
    as.push_back(a);
  }
  // a one-element array (the particle count) may come with the others
  if (cfgi("count", 1) && choice("count", 2)) { McArray a; a.n = 1; a.type = 0; a.vec = false; a.name = pre + "count"; a.d.push_back(b_of((double)n)); as.insert(as.begin() + choice("countpos", k + 1), a); }
  Str f = path("a.mc"); spit(f, mcFile(as, nul, symi("time")));
  std::ostringstream err; ParticlesDataMutable *p = read(f.c_str(), true, err); check(p != 0, "a well-formed cache is read"); if (!p) return;
  ParticlesInfo *h = readHeaders(f.c_str(), true, err); check(h != 0, "the headers of a well-formed cache are read"); if (!h) return;
  check(p->numParticles() == n && h->numParticles() == n, "particle count"); 
  int na = 0; for (auto &a : as) { Str nm = a.name.substr(pre.size()); if (nm != "count") na++; }
  check(p->numAttributes() == na && h->numAttributes() == na, "one attribute per array");
  for (auto &a : as) {
    Str nm = a.name.substr(pre.size()); if (nm == "count") continue;
    ParticleAttribute at, ah; bool ok = p->attributeInfo(nm.c_str(), at) && h->attributeInfo(nm.c_str(), ah); check(ok, "attribute named after the array"); if (!ok) return;
    check(at.type == (a.vec ? VECTOR : isIdName(nm) ? INT : FLOAT) && at.count == (a.vec ? 3 : 1) && ah.type == at.type && ah.count == at.count, "attribute type");
    if (p->numParticles() != n) continue;
    for (int j = 0; j < n; j++)
      if (a.vec) { const float *v = p->data<float>(at, j); for (int c = 0; c < 3; c++) check(ldu32(v + c) == a.f[(size_t)(3 * j + c)], "vector value"); }
      else if (isIdName(nm)) check(p->data<int>(at, j)[0] == (int)ids[(size_t)j], "id value");
      else check(ldu32(p->data<float>(at, j)) == b_of((float)d_of(a.d[(size_t)j])), "double value converted to float");
  }
  p->release(); h->release(); cover("end");
}
