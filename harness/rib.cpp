#include "schemas.h"
// P37: the text is taken apart here with a small scanner of its own
static const char *R[] = {"v3 position", "v3 P f1 width", "f1 radius v3 position v3 vel i1 id", "v3 position v3 position2 f1 radius", "f2 uv v3 P i2 q f1 radiusPP v3 P2", "v3 position f1 a f5 m", "i1 id v3 position i3 k", 0};
struct Param { Str name; std::vector<Str> words; };
struct Points { std::vector<Param> ps; };
// the Points primitives of a RIB text: each is a list of "name" [ words ]
static bool scan(const Str &t, std::vector<Points> &out) {
  size_t i = 0; int bracket = 0; Str word; bool first = true; int pend = -1; // pend: index of the primitive being read
  auto flush = [&]() { if (word.empty()) return; if (bracket && pend >= 0 && !out[pend].ps.empty()) out[pend].ps.back().words.push_back(word); else if (!bracket) { if (word == "Points") { out.push_back(Points()); pend = (int)out.size() - 1; } else pend = -1; } word.clear(); };
  for (; i < t.size(); i++) {
    char c = t[i]; (void)first;
    if (c == '"') { flush(); size_t e = t.find('"', i + 1); if (e == Str::npos) return false; if (!bracket && pend >= 0) { Param p; p.name = t.substr(i + 1, e - i - 1); out[pend].ps.push_back(p); } i = e; continue; }
    if (c == '[') { flush(); if (bracket++) return false; continue; }
    if (c == ']') { flush(); if (--bracket) return false; continue; }
    if (c == ' ' || c == '\n' || c == '\t') { flush(); continue; }
    word += c;
  }
  flush(); return bracket == 0;
}
static float num(const Str &w, bool &ok) { std::istringstream s(w); s.imbue(std::locale::classic()); float f = 0; ok = (bool)(s >> f); return f; }
static int inum(const Str &w, bool &ok) { std::istringstream s(w); s.imbue(std::locale::classic()); int f = 0; ok = (bool)(s >> f); return f; }
void harness() {
  int ns = 0; while (R[ns]) ns++; int lo = cfgi("schema", 0), hi = cfgi("schema", ns - 1);
  Model m = parseSchema(R[lo + choice("schema", hi - lo + 1)]); m.n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 2) - cfgi("nmin", 0) + 1);
  if (cfgi("symname", 0)) { Str nm; for (int i = 0; i < cfgi("symname", 0); i++) { char c = (char)sym8("name"); assume(c > 32 && c != '"'); nm += c; } assume(nm != "P" && nm != "P2"); m.a.push_back(mattr(nm, FLOAT, 1)); }
  foreignLocale(cfgi("locale", 0)); fillModel(m, false); ParticlesDataMutable *p = mkset(m, choice("backend", 2)); std::ostringstream err; Str f = path("a.rib");
  write(f.c_str(), *p, false, true, err); foreignLocale(false); Bytes b = slurp(f); Str t(b.begin(), b.end()); sameSet(p, m);
  std::vector<Points> got; check(scan(t, got), "the text is well formed");
  bool moving = false, width = false; for (auto &a : m.a) { if (a.name == "position2" || a.name == "P2") moving = true; if (a.name == "radius" || a.name == "radiusPP" || a.name == "width") width = true; }
  check((int)got.size() == (moving ? 2 : 1), "one Points primitive per motion sample"); if ((int)got.size() != (moving ? 2 : 1)) return;
  for (int pass = 0; pass < (int)got.size(); pass++) {
    std::vector<std::pair<Str, const MAttr *>> want;
    for (auto &a : m.a) { bool p1 = a.name == "P" || a.name == "position", p2 = a.name == "P2" || a.name == "position2"; if ((pass == 0 && p2) || (pass == 1 && p1)) continue; want.push_back(std::make_pair(p1 || p2 ? Str("P") : a.name == "radius" || a.name == "radiusPP" ? Str("width") : a.name, &a)); }
    const Points &g = got[pass]; check(g.ps.size() == want.size() + !width, "one parameter per attribute");
    for (auto &w : want) {
      const Param *q = 0; int k = 0; for (auto &x : g.ps) if (x.name == w.first) { q = &x; k++; } check(k == 1, "parameter present once"); if (k != 1) return;
      const MAttr &a = *w.second; check(q->words.size() == (size_t)(m.n * a.count), "one value group per particle"); if (q->words.size() != (size_t)(m.n * a.count)) return;
      for (int i = 0; i < m.n * a.count; i++) { bool ok; if (a.type == INT) { int v = inum(q->words[i], ok); check(ok && (u32)v == a.v[i], "integer value"); } else { float v = num(q->words[i], ok); check(ok && textEq(v, f_of(a.v[i])), "value"); } }
    }
    if (!width) { const Param *q = 0; for (auto &x : g.ps) if (x.name == "constantwidth") q = &x; check(q && q->words.size() == 1, "constant width"); if (q && q->words.size() == 1) { bool ok; check(num(q->words[0], ok) == 1.f, "constant width of one"); } }
  }
  p->release(); cover("end");
}
