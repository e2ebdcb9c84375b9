#include "schemas.h"
#include "mc.h"
#include "gz.h"
// P32: the last extension, one trailing .gz aside, alone selects the codec
struct Ent { const char *ext; const char *canon; int rw; };
static const Ent TAB[] = {{"bgeo", "bgeo", 3}, {"bhclassic", "bgeo", 3}, {"itbl", "bgeo", 3}, {"atbl", "bgeo", 3}, {"geo", "geo", 3}, {"hclassic", "geo", 3}, {"pdb", "pdb", 3}, {"pdb32", "pdb32", 3}, {"pdb64", "pdb64", 3}, {"pda", "pda", 3},
                          {"ptc", "ptc", 3}, {"ptf", "ptc", 3}, {"pdc", "pdc", 3}, {"prt", "prt", 3}, {"bin", "bin", 3}, {"rib", "rib", 2}, {"mc", "mc", 1}, {"pts", "pts", 1}};
static const char *MID[] = {"", ".", "gz", ".gz", ".bgeo", ".pd", ".bgeo.gz", ".geo.gz.gz", ".gz.ptc", ".rib.x", ".pdb.", ".BGEO", ".bgeo/x", ".pts.gz", ".mc", ".pdb6", ".prt", ".bhclassic", ".atbl", ".ptf", ".pda.GZ", ".bi", ".hclassi.gz", ".itbl.gz", ".ri", ".geogz", ".pdc .gz"};
static const int NMID = sizeof(MID) / sizeof(*MID);
static Model mdl() { Model m = parseSchema("v3 position f1 a"); m.n = 1; return m; }
static Bytes canonBytes(const char *canon, ParticlesDataMutable *p) {
  if (!strcmp(canon, "mc")) { std::vector<McArray> as; for (int i = 0; i < 2; i++) { McArray a; a.n = 2; a.type = 0; a.vec = false; a.name = i ? "p_a" : "p_id"; for (int j = 0; j < 2; j++) a.d.push_back(b_of((double)j)); as.push_back(a); } return mcFile(as, true); }
  if (!strcmp(canon, "pts")) { Bytes b; const char *t = "1\n1 2 3\n"; putS(b, t, strlen(t)); return b; }
  std::ostringstream err; Str f = path(Str("canon.") + canon); write(f.c_str(), *p, false, true, err); return slurp(f);
}
void harness() {
  bool rel = choice("relative", 2); Str n = choice("dot", 2) ? "./" : ""; int mid = cfgi("mid", -1); if (mid < 0) mid = choice("mid", NMID);
  int la = choice("before", cfgi("before", 2) + 1), lb = choice("after", cfgi("after", 1) + 1);
  for (int i = 0; i < la; i++) { char c = (char)sym8("a"); assume(c != 0 && c != '/'); n += c; } n += MID[mid]; for (int i = 0; i < lb; i++) { char c = (char)sym8("b"); assume(c != 0 && c != '/'); n += c; }
  if (n.empty() || n == "./") return;
  Str f = rel ? n : path(n);
  // the extension by definition: after the last dot; if that is gz, the part between the dots before it
  Str x; bool gz = false, has = false; size_t e = f.size();
  for (;;) {
    size_t d = e; while (d > 0 && f[d - 1] != '.') d--;
    if (d == 0) break; // no dot
    x = f.substr(d, e - d); if (x == "gz" && !gz && e == f.size()) { gz = true; e = d - 1; continue; }
    has = true; break;
  }
  int k = -1; if (has) for (size_t i = 0; i < sizeof(TAB) / sizeof(*TAB); i++) if (x == TAB[i].ext) k = (int)i;
  Model m = mdl(); m.a[0].v = {1u, 2u, 3u}; m.a[1].v = {4u}; ParticlesDataMutable *p = mkset(m); std::ostringstream err; fdel(f);
  write(f.c_str(), *p, false, true, err);
  bool wr = k >= 0 && (TAB[k].rw & 2);
  check((fsize(f) >= 0) == wr, "a file is written exactly if the extension has a writer");
  Bytes want; if (k >= 0) want = canonBytes(TAB[k].canon, p);
  if (wr) {
    if (gz && strcmp(TAB[k].canon, "prt") && strcmp(TAB[k].canon, "bin")) { Bytes raw = slurp(f); check(raw.size() > 18 && raw[0] == 0x1f && raw[1] == 0x8b, "a .gz name is compressed"); std::istream *i = Gzip_In(f, std::ios::in | std::ios::binary); sameBytes(drain(*i, 1, 512), want, "format chosen by the extension"); delete i; }
    else sameBytes(slurp(f), want, "format chosen by the extension");
  }
  if (k >= 0) {
    if (!wr) spit(f, want);
    ParticlesDataMutable *r = read(f.c_str(), true, err); bool rd = TAB[k].rw & 1; check((r != 0) == rd, "read exactly if the extension has a reader"); if (r) { check(r->numParticles() == (strcmp(TAB[k].canon, "mc") ? 1 : 2), "particles read"); r->release(); }
    ParticlesInfo *h = readHeaders(f.c_str(), true, err); check((h != 0) == rd, "headers read exactly if the extension has a reader"); if (h) h->release(); cover("known");
  } else {
    Bytes b = canonBytes("bgeo", p); spit(f, b); check(read(f.c_str(), true, err) == 0 && readHeaders(f.c_str(), true, err) == 0, "other names are refused"); check(!err.str().empty(), "the refusal is reported"); cover("refused");
  }
  p->release(); cover("end");
}
