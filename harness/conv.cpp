#include "schemas.h"
#define main partconvert_main
#include "../tools/partconvert.cpp"
#undef main
// P40: the converter's own main, run on every pair of formats and every kind of wrong call
static Str outText, errText;
static int run(const std::vector<Str> &args) {
  std::vector<char *> a; static char prog[] = "partconvert"; a.push_back(prog); std::vector<Str> c = args; for (auto &s : c) a.push_back(&s[0]); a.push_back(0);
  std::ostringstream o, e; std::streambuf *so = std::cout.rdbuf(o.rdbuf()), *se = std::cerr.rdbuf(e.rdbuf()); int r = partconvert_main((int)a.size() - 1, &a[0]); std::cout.rdbuf(so); std::cerr.rdbuf(se); outText = o.str(); errText = e.str(); return r;
}
void harness() {
  std::ostringstream err; int A = cfgi("from", BGEO), mode = cfgi("mode", 0);
  Model m = parseSchema(cfgi("rich", 0) ? "v3 position f1 a i1 id v3 vel f2 uv s1 tag s2 t2" : "v3 position f1 a i1 id v3 vel"); m.n = cfgi("nmin", 1) + choice("particles", cfgi("nmax", 2) - cfgi("nmin", 1) + 1); if (cfgi("rich", 0) && A == BGEO) { Model g = parseSchema("+i2 g +s1 gs"); m.f = g.f; }
  if (mode == 0) {
    if (cfgi("lastany", 0)) chooseValues(m, GEO); else { for (auto &a : m.a) fillAttr(a, m.n, false); for (auto &a : m.f) fillAttr(a, 1, false); }
    int B = choice("to", NFMT), gzi = choice("gzin", textFmt(A) || A == BGEO ? 2 : 1), gzo = choice("gzout", textFmt(B) || B == BGEO || B == PDC ? 2 : 1); if ((textFmt(A) || A == PDC) && textFmt(B)) assume(false); // printed twice: the model does not follow the digits
    Str in = path(Str("in.") + EXT[A] + (gzi ? ".gz" : "")), out = choice("inplace", A == B && gzi == gzo ? 2 : 1) ? in : path(Str("out.") + EXT[B] + (gzo ? ".gz" : ""));
    ParticlesDataMutable *p = mkset(m); write(in.c_str(), *p, false, true, err); p->release(); Bytes before = slurp(in);
    if (m.n == 0) assume(A != PRT); // (nothing is written for an empty set)
    if (choice("old", m.n == 0 && B == PRT ? 1 : 2) && in != out) { Bytes junk; putS(junk, "an older file that is much longer than what is written now .................................................................................................................................................................................................................................................................................................................................", 300); spit(out, junk); }
    int r = run({in, out}); check(r == 0, "a conversion succeeds");
    if (m.n == 0 && B == PRT) { check(fsize(out) < 0, "no file for an empty set"); cover("end"); return; }
    ParticlesDataMutable *q = read(out.c_str(), true, err); check(q != 0, "the output is read"); if (!q) return;
    Model c = kept(kept(m, A), B); sameSet(q, c, SCHEMA_ORDER | STRTABLE | (textFmt(A) || textFmt(B) ? TEXT6 : 0)); q->release();
    if (in != out) { Bytes after = slurp(in); bool same = after.size() == before.size(); for (size_t i = 0; same && i < after.size(); i++) same = before[i] == after[i]; check(same, "the input file is left alone"); }
    cover("end"); return;
  }
  for (auto &a : m.a) fillAttr(a, m.n, false); ParticlesDataMutable *p = mkset(m); Str in = path("in.bgeo"), out = path("out.bgeo"); write(in.c_str(), *p, false, true, err); p->release();
  int k = choice("call", 8); int r = 0;
  if (k == 0) r = run({}); else if (k == 1) r = run({in}); else if (k == 2) r = run({in, out, "more"}); else if (k == 3) r = run({path("missing.bgeo"), out}); else if (k == 4) r = run({path("in.xyz"), out}); else if (k == 5) { spit(path("bad.bgeo"), Bytes(40, 7)); r = run({path("bad.bgeo"), out}); } else if (k == 6) { spit(path("empty.pdc"), Bytes()); r = run({path("empty.pdc"), out}); } else { out = path("out.xyz"); r = run({in, out}); }
  if (k < 3) check(r != 0, "a wrong call is refused"); check(!errText.empty(), "it says what is wrong"); check(fsize(out) < 0, "nothing is written"); cover("end");
}
