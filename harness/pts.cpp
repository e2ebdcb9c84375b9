#include "model.h"
#include "gz.h"
#include <iomanip>
// P35: point lists.  The text is made here, independently of the library.
struct Pt { float c[8]; };
void harness() {
  static const int NC[] = {3, 4, 6, 7, 8}; int nc = NC[cfgi("cols", 0)], lines = cfgi("lines", 3), kinds = cfgi("kinds", 3); bool gz = cfgi("gz", 0);
  foreignLocale(false);
  std::ostringstream o; o << std::setprecision(9); int head = cfgi("head", 0) ? choice("head", 3) : 0; if (head == 0) o << lines << "\n"; else if (head == 1) o << "some header text, with 7 words in it\n"; else o << "\n";
  int far = cfgi("long", 0) ? choice("long", lines + 1) : -1; Str pad(1100, ' '); if (far == lines) { Str t = o.str(); o.str(Str()); o << t.substr(0, t.size() - 1) << pad << "\n"; }
  std::vector<Pt> want; int sep = choice("sep", 3); bool lastnl = choice("lastnl", 2);
  for (int l = 0; l < lines; l++) {
    int k = nc; if (l) { int kind = choice("line", kinds); k = kind == 0 ? nc : kind == 1 ? nc - 1 : kind == 2 ? nc + 1 : kind == 3 ? 0 : kind == 4 ? 1 : nc + 5; } // the first line fixes the layout
    Pt p; if (sep == 1) o << "  "; if (far == l && choice("first", 2)) o << pad;
    for (int c = 0; c < k; c++) {
      float x; if (nc >= 6 && c >= nc - 3) x = (float)(int)(u8)sym8("color"); else if (nc == 8 && c == 4) x = latf("quality", 14) / (cfgi("frac", 0) ? 4.f : 1.f); else x = symf("value");
      if (c < 8) p.c[c] = x; if (c) o << (sep == 0 ? " " : sep == 1 ? "   " : c & 1 ? "\t" : " \t"); o << x;
    }
    if (far == l) o << pad; if (sep == 2) o << " "; if (l + 1 < lines || lastnl) o << "\n"; if (k == nc) want.push_back(p);
  }
  Str t = o.str(); Bytes raw(t.begin(), t.end()), b = raw; Str f = path("a.pts");
  if (gz) { const u8 h[10] = {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}; b.assign(h, h + 10); deflateStored(b, raw); gzTrailer(b, raw); f += ".gz"; }
  spit(f, b); std::ostringstream err; ParticlesDataMutable *p = read(f.c_str(), true, err); check(p != 0, "a well-formed point list is read"); if (!p) return;
  ParticlesInfo *h = readHeaders(f.c_str(), true, err); check(h != 0, "its headers are read"); if (!h) return;
  int n = (int)want.size(); check(p->numParticles() == n && h->numParticles() == n, "one particle per well-formed line");
  int na = 2 + (nc == 4 || nc >= 7) + (nc == 8) + (nc >= 6); check(p->numAttributes() == na && h->numAttributes() == na, "attribute count");
  ParticleAttribute id, pos, rem, q, col, x; bool ok = p->attributeInfo("id", id) && id.type == INT && id.count == 1 && p->attributeInfo("position", pos) && pos.type == VECTOR && pos.count == 3; check(ok, "id and position"); if (!ok) return;
  bool hr = nc == 4 || nc >= 7, hq = nc == 8, hc = nc >= 6;
  if (hr) { ok = p->attributeInfo("remission", rem) && rem.type == FLOAT && rem.count == 1; check(ok, "remission"); if (!ok) return; }
  if (hq) { ok = p->attributeInfo("quality", q) && q.type == INT && q.count == 1; check(ok, "quality"); if (!ok) return; }
  if (hc) { ok = p->attributeInfo("pointColor", col) && col.count == 3; check(ok, "color"); if (!ok) return; }
  check(h->attributeInfo("position", x) && (!hr || h->attributeInfo("remission", x)) && (!hq || h->attributeInfo("quality", x)) && (!hc || h->attributeInfo("pointColor", x)), "the headers hold the same attributes");
  if (p->numParticles() == n) for (int i = 0; i < n; i++) {
    const Pt &w = want[i]; const float *v = p->data<float>(pos, i);
    check(p->data<int>(id, i)[0] == i, "id is the index"); check((ldu32(v) == b_of(w.c[0])) & (ldu32(v + 1) == b_of(w.c[2])) & (ldu32(v + 2) == b_of(w.c[1])), "position, y and z exchanged");
    if (hr) check(ldu32(p->data<float>(rem, i)) == b_of(w.c[3]), "remission is the fourth column");
    if (hq) check(p->data<int>(q, i)[0] == (int)w.c[4], "quality is the fifth column");
    if (hc) { const float *c = p->data<float>(col, i); for (int k = 0; k < 3; k++) check(ldu32(c + k) == b_of(w.c[nc - 3 + k] / 255), "color is the last three columns"); }
  }
  p->release(); h->release(); cover("end");
}
