#include "schemas.h"
// P44: a set of any schema is written safely, and what the format can hold comes back
static const char *X[] = {"f3 position f1 a", "v3 position f2 velocity f1 id i1 mass i3 force s1 age", "f1 position i1 id", "s1 position f1 a", "i2 position f1 a", "v3 position f1 normal v3 radius f16 m", "f2 a f1 b i2 c i1 d s2 e s1 f v3 g f3 h f16 k f4 l v3 position",
  "f5 position v3 a", "f1 a s1 b", "v3 position f1 vorticity f2 uvw s1 temperature i1 viscosity v3 density", "v3 position i3 normal i1 radius s3 c", "i1 a f2 position", "s2 t v3 position f2 neighbors f2 b i1 c", "v3 position f4 id i2 age f2 mass f1 isolationTime f1 pressure", "", 0};
static const char *RIBX[] = {"f1 P f2 position2", "s1 position f1 width", "i1 P2 v3 P s2 radius", "f1 a", "s1 t v3 position f16 m i5 k", 0};
void harness() {
  std::ostringstream err; int fmt = cfgi("fmt", BGEO); bool rib = fmt == NFMT; const char **S = rib ? RIBX : X; int ns = 0; while (S[ns]) ns++;
  Model m = parseSchema(S[choice("schema", ns)]); m.n = choice("particles", cfgi("nmax", 2) + 1); for (auto &a : m.a) { if (fmt == PTC && a.name == "normal" && a.type != INDEXEDSTR) a.v.assign((size_t)m.n * a.count, 0u); else fillAttr(a, m.n, false); }
  if (cfgi("fixed", 1)) { Model g = parseSchema("+i2 g +s1 gs +f3 position"); m.f = g.f; for (auto &a : m.f) fillAttr(a, 1, false); }
  ParticlesDataMutable *p = mkset(m, choice("backend", 2)); Str f = path(Str("a.") + (rib ? "rib" : EXT[fmt])); write(f.c_str(), *p, false, true, err); sameSet(p, m, SCHEMA_ORDER | STRTABLE); p->release(); // the set is as it was
  if (rib) { cover("end"); return; }
  bool ok; Model k = kept(m, fmt, &ok); if (!ok || (fmt == PRT && m.n == 0)) { cover("refused"); return; }
  ParticlesDataMutable *r = read(f.c_str(), true, err); check(r != 0, "the file is read"); if (!r) return; sameSet(r, k, SCHEMA_ORDER | STRTABLE | (textFmt(fmt) ? TEXT6 : 0)); r->release(); cover("end");
}
