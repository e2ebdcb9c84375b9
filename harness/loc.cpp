#include "schemas.h"
#include <iomanip>
// P38: a global locale with ',' as decimal point and '.' grouping must not show in text files
enum { LGEO, LPDA, LRIB, LPTS };
static const char *E4[] = {"geo", "pda", "rib", "pts"};
// numbers whose text depends on the locale: with a fraction, and with more than three digits
static float fr() { return 1000.5f + (float)(int)(u8)inp("frac", 6) / 256.f; }
static int big() { int v = (int)inp("big", 32); assume(v >= 1000 || v <= -1000); return v; }
static float bigf() { return (float)(1000 + (int)inp("bigf", 16)); }
void harness() {
  int fmt = cfgi("fmt", 0); bool wl = choice("writelocale", 2), rl = choice("readlocale", 2); int gz = choice("gz", fmt == LRIB ? 1 : 2);
  foreignLocale(false);
  Str f = path(Str("a.") + E4[fmt] + (gz ? ".gz" : "")), g = path(Str("b.") + E4[fmt] + (gz ? ".gz" : "")); std::ostringstream err;
  if (fmt == LPTS) {
    std::ostringstream o; o << std::setprecision(9); float v[2][8]; int n = cfgi("n", 2);
    o << n << "\n"; for (int i = 0; i < n; i++) { for (int c = 0; c < 8; c++) { float x = c == 4 ? (float)(1000 + i) : c > 4 ? (float)(int)(u8)inp("c", 8) : c == 3 ? bigf() : fr(); if (i < 2) v[i][c] = x; o << x << (c < 7 ? " " : "\n"); } }
    Str t = o.str(); Bytes b(t.begin(), t.end()); f = path("a.pts"); spit(f, b); foreignLocale(rl); ParticlesDataMutable *p = read(f.c_str(), true, err); ParticlesInfo *h = readHeaders(f.c_str(), true, err); foreignLocale(false);
    check(p && h, "read under another locale"); if (!p || !h) return; check(p->numParticles() == n && h->numParticles() == n, "particle count"); if (p->numParticles() != n) return;
    ParticleAttribute pos, rem, q, c; check(p->attributeInfo("position", pos) && p->attributeInfo("remission", rem) && p->attributeInfo("quality", q) && p->attributeInfo("pointColor", c), "attributes");
    for (int i = 0; i < n && i < 2; i++) { const float *x = p->data<float>(pos, i); check((ldu32(x) == b_of(v[i][0])) & (ldu32(x + 1) == b_of(v[i][2])) & (ldu32(x + 2) == b_of(v[i][1])), "position"); check(ldu32(p->data<float>(rem, i)) == b_of(v[i][3]), "remission"); check(p->data<int>(q, i)[0] == 1000 + i, "quality"); for (int k = 0; k < 3; k++) check(ldu32(p->data<float>(c, i) + k) == b_of(v[i][5 + k] / 255), "color"); }
    p->release(); h->release(); cover("end"); return;
  }
  Model m = parseSchema(cfgi("wide", 0) ? "v3 position" : fmt == LPDA ? "v3 position f1 a i1 id f1 b" : "v3 position f2 a i2 id f1 b s1 tag"); m.n = cfgi("n", 2);
  if (fmt == LRIB && !m.a.empty() && m.a.back().type == INDEXEDSTR) m.a.pop_back();
  for (auto &a : m.a) for (int i = 0; i < m.n * a.count; i++) a.v.push_back(a.type == INDEXEDSTR ? (u32)i % (u32)a.strs.size() : a.type == INT ? (u32)big() : cfgi("wide", 0) ? b_of(0.5f * i) : b_of(i % 2 ? bigf() : fr()));
  ParticlesDataMutable *p = mkset(m);
  write(f.c_str(), *p, false, true, err); foreignLocale(wl); write(g.c_str(), *p, false, true, err); foreignLocale(false);
  Bytes x = slurp(f), y = slurp(g); check(!x.empty() && x.size() == y.size(), "the file is as long under another locale"); if (x.size() != y.size()) return; bool same = true; for (size_t i = 0; i < x.size(); i++) same &= x[i] == y[i]; check(same, "the same bytes are written under another locale");
  if (fmt != LRIB) { foreignLocale(rl); ParticlesDataMutable *r = read(f.c_str(), true, err); ParticlesInfo *h = readHeaders(f.c_str(), true, err); foreignLocale(false); check(r && h, "read under another locale"); if (!r || !h) return; check(h->numParticles() == m.n, "header particle count"); sameSet(r, m, TEXT6); r->release(); h->release(); }
  p->release(); cover("end");
}
