#include "ref.h"
#include "mc.h"
#include "gz.h"
// P39, P31: files cut short, foreign files, missing files, unknown extensions
enum { MC = NFMT, PTS };
static Str extOf(int f) { return f == MC ? "mc" : f == PTS ? "pts" : EXT[f]; }
static Bytes fileOf(int fmt, bool gz) {
  if (fmt == MC) {
    std::vector<McArray> as; int n = cfgi("n", 2);
    for (int i = 0; i < 3; i++) { McArray a; a.n = (u32)n; a.type = 0; a.vec = i == 2; a.name = i == 0 ? "p_id" : i == 1 ? "p_radiusPP" : "p_position"; for (int j = 0; j < n * (a.vec ? 3 : 1); j++) if (a.vec) a.f.push_back(symbits("v")); else a.d.push_back(b_of((double)j)); as.push_back(a); }
    return mcFile(as, true);
  }
  if (fmt == PTS) { static const char *L[] = {"1 2 3", "1.5 -2 3e2 7", "1 2 3 10 20 30", "1 2 3 -4 10 20 30", "1 2 3 -4 5 10 20 30"}; Str t = "3\n"; int k = choice("columns", 5); for (int i = 0; i < 3; i++) t += Str(L[k]) + "\n"; Bytes b; if (gz) { Bytes q; putS(q, t.c_str(), t.size()); const u8 h[10] = {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}; b.assign(h, h + 10); deflateStored(b, q); gzTrailer(b, q); } else putS(b, t.c_str(), t.size()); return b; }
  Model m = chooseModel(fmt); chooseValues(m, fmt); ParticlesDataMutable *p = mkset(m); Str f = path("whole." + extOf(fmt) + (gz ? ".gz" : "")); std::ostringstream err; write(f.c_str(), *p, false, true, err); p->release(); return slurp(f);
}
// look at everything there is
static void inspect(const ParticlesInfo *p) {
  int na = p->numAttributes(), nf = p->numFixedAttributes(); check(p->numParticles() >= 0 && na >= 0 && nf >= 0, "counts are not negative");
  for (int i = 0; i < na; i++) { ParticleAttribute a; check(p->attributeInfo(i, a) && a.count >= 0, "attribute"); }
  for (int i = 0; i < nf; i++) { FixedAttribute a; check(p->fixedAttributeInfo(i, a) && a.count >= 0, "fixed attribute"); }
}
static void inspectData(ParticlesDataMutable *p) {
  volatile unsigned char sink = 0; int n = p->numParticles();
  for (int i = 0; i < p->numAttributes(); i++) {
    ParticleAttribute a; p->attributeInfo(i, a); u32 t;
    for (int j = 0; j < n; j++) for (int k = 0; k < a.count; k++) { memcpy(&t, p->data<int>(a, j) + k, 4); sink = (u8)t; }
    if (a.type == INDEXEDSTR) for (auto &s : p->indexedStrs(a)) sink = (u8)s.size();
  }
  for (int i = 0; i < p->numFixedAttributes(); i++) { FixedAttribute a; p->fixedAttributeInfo(i, a); u32 t; for (int k = 0; k < a.count; k++) { memcpy(&t, p->fixedData<int>(a) + k, 4); sink = (u8)t; } }
  int m = 0; for (ParticlesDataMutable::iterator it = p->begin(), e = p->end(); it != e; ++it) m++; check(m == n, "iteration covers the particles");
}
// both readers; returns whether either accepted
static int tryBoth(const Str &f) {
  int got = 0; std::ostringstream err;
  ParticlesDataMutable *p = read(f.c_str(), true, err); if (p) { got |= 1; inspect(p); inspectData(p); p->release(); }
  ParticlesInfo *h = readHeaders(f.c_str(), true, err); if (h) { got |= 2; inspect(h); h->release(); }
  return got;
}
static void differs(const Str &x, const char *r) { if (x.size() != strlen(r)) return; int d = 0; for (size_t i = 0; i < x.size(); i++) d |= x[i] ^ r[i]; assume(d != 0); }
static const char *RDEXT[] = {"bgeo", "bhclassic", "geo", "hclassic", "pdb", "pdb32", "pdb64", "pda", "mc", "ptc", "pdc", "prt", "bin", "pts", "ptf", "itbl", "atbl"};
void harness() {
  int mode = cfgi("mode", 0), fmt = cfgi("fmt", BGEO), gz = cfgi("gz", 0); Str f;
  { std::ostringstream e; ParticlesDataMutable *p = read(path("none.bgeo").c_str(), false, e); check(!p, "missing file"); } // start the tables and streams
  if (mode == 0) {
    Bytes b = fileOf(fmt, gz); int lo = cfgi("lo", 0), n = (int)b.size() - lo; if (cfgi("span", 0) && n > cfgi("span", 0)) n = cfgi("span", 0);
    size_t cut = (size_t)(lo + choice("cut", n)); b.resize(cut); f = path("cut." + extOf(fmt) + (gz ? ".gz" : "")); spit(f, b);
    long a = live(); tryBoth(f); check(live() == a, "nothing stays allocated"); cover("end"); return;
  }
  if (mode == 1) {
    f = path(Str("missing.") + RDEXT[choice("ext", 17)] + (choice("gz", 2) ? ".gz" : "")); std::ostringstream err;
    for (int k = 0; k < 2; k++) { long a = live(); check(tryBoth(f) == 0, "a missing file is refused"); { std::ostringstream e2; check(readCached(f.c_str(), k, true, e2) == 0, "a missing file is refused by the cached reader"); check(err.str().empty(), "errors go to the stream given"); } SX_ONLY(check(__sx_held() == 0, "no lock is kept");) NATIVE_ONLY((void)0;) if (k) check(live() == a, "nothing stays allocated"); check(fsize(f) < 0, "reading creates nothing"); }
    cover("end"); return;
  }
  if (mode == 2) { // unknown extensions, written and read
    int n = choice("len", cfgi("maxlen", 3) + 1); Str x; for (int i = 0; i < n; i++) { char c = (char)sym8("ext"); assume(c != 0 && c != '.' && c != '/'); x += c; }
    for (auto r : RDEXT) differs(x, r); differs(x, "rib"); differs(x, "gz");
    f = path("some." + x); Model m = parseSchema(S_BGEO[1]); m.n = 1; fillModel(m); ParticlesDataMutable *p = mkset(m); std::ostringstream err; write(f.c_str(), *p, choice("force", 2), choice("verbose", 2), err); check(fsize(f) < 0, "nothing is written for an unknown extension"); check(!err.str().empty(), "the refusal is reported");
    sameSet(p, m); p->release(); Bytes b = fileOf(BGEO, false); spit(f, b); check(tryBoth(f) == 0, "an unknown extension is refused"); cover("end"); return;
  }
  if (mode == 3) { // wrong magic number or version in an otherwise good file
    Bytes b = fileOf(fmt, false); static const int ML[] = {4, 4, 4, 4, 8, 4, 4, 4, 0, 0, 4}; int vo = fmt == BGEO ? 5 : fmt == PTC ? 4 : fmt == BIN ? 254 : -1;
    if (vo >= 0 && choice("version", 2)) {
      if (fmt == BGEO) { u32 v = sym32("ver"); assume(v != 5); for (int i = 0; i < 4; i++) b[5 + i] = (u8)(v >> (24 - 8 * i)); }
      else if (fmt == PTC) { u32 v = sym32("ver"); assume((int)v > 2); for (int i = 0; i < 4; i++) b[4 + i] = (u8)(v >> (8 * i)); }
      else { u16 v = sym16("ver"); assume((short)v > 13); b[254] = (u8)v; b[255] = (u8)(v >> 8); }
    } else { bool same = true; for (int i = 0; i < ML[fmt]; i++) { u8 c = sym8("magic"); same &= c == b[i]; b[i] = c; } assume(!same); assume(b[0] != 0x1f || b[1] != 0x8b); }
    f = path("wrong." + extOf(fmt)); spit(f, b); long a = live(); check(tryBoth(f) == 0, "a wrong magic number or version is refused"); check(live() == a, "nothing stays allocated"); cover("end"); return;
  }
  if (mode == 4) { // a file of one format under another format's extension
    Bytes b = fileOf(fmt, false); static const int AS[] = {BGEO, PDB, PDB32, PDB64, PRT, BIN, PDC, PTC, MC, PDA}; int as = AS[choice("as", 10)]; bool p1 = fmt == PDB || fmt == PDB32 || fmt == PDB64, p2 = as == PDB || as == PDB32 || as == PDB64; assume(as != fmt && !(p1 && p2));
    f = path("foreign." + extOf(as)); spit(f, b); long a = live(); check(tryBoth(f) == 0, "a foreign file is refused"); check(live() == a, "nothing stays allocated"); cover("end"); return;
  }
  if (mode == 5) { // short arbitrary files
    int n = choice("len", cfgi("maxlen", 3) + 1); Bytes b; const char *pre = fmt == GEO ? "PGEOMETRY V5\nNPoints 2 NPointAttrib 1\nPointAttrib\n" : ""; if (cfgi("prefix", 0)) putS(b, pre, strlen(pre)); for (int i = 0; i < n; i++) b.push_back(sym8("byte"));
    f = path("tiny." + (cfgi("pts", 0) ? Str("pts") : extOf(fmt))); spit(f, b); long a = live(); tryBoth(f); check(live() == a, "nothing stays allocated"); cover("end"); return;
  }
  if (mode == 6) { // a path that cannot be written
    Model m = chooseModel(fmt); chooseValues(m, fmt); ParticlesDataMutable *p = mkset(m); std::ostringstream err; f = path(Str("nodir/x.") + EXT[fmt] + (gz ? ".gz" : "")); SX_ONLY(sx_flock(f.c_str());) write(f.c_str(), *p, false, true, err); check(fsize(f) <= 0, "nothing written"); sameSet(p, m); p->release(); cover("end"); return;
  }
  if (mode == 7) { // damaged compressed data
    Bytes b = fileOf(fmt, true); Bytes plain; { std::istream *i = Gzip_In(path("whole." + extOf(fmt) + ".gz"), std::ios::in | std::ios::binary); plain = drain(*i, 1, 512); delete i; }
    Bytes d(b.begin(), b.begin() + 10); size_t k = (size_t)choice("at", 3) * plain.size() / 3; int how = choice("how", 2); // good stored blocks up to k, then an impossible one
    if (k) { put8(d, 0); put16(d, (u16)k); put16(d, (u16)~k); d.insert(d.end(), plain.begin(), plain.begin() + k); }
    if (how) { put8(d, 1); u16 a = sym16("len"), c = sym16("nlen"); assume((u16)~a != c); put16(d, a); put16(d, c); } else { u8 c = sym8("block"); assume((c >> 1 & 3) == 3); put8(d, c); }
    d.insert(d.end(), plain.begin(), plain.end());
    f = path("damaged." + extOf(fmt) + ".gz"); spit(f, d); tryBoth(f); long a = live(); int got = tryBoth(f); check(live() == a, "nothing stays allocated"); check(got == 0 || textFmt(fmt) || got == 2, "damaged data is refused"); cover("end"); return;
  }
  if (mode == 8) { // a description of the data which is not one of the format's
    Model m = chooseModel(fmt); chooseValues(m, fmt); if (fmt != GEO) m = carried(m, fmt); Opts o; Bytes b; int na = (int)m.a.size();
    if (fmt == BGEO) { o.prims = choice("prims", 2); o.primattrs = choice("primattrs", 2); assume(na - 1 + (int)m.f.size() > 0); o.spoil = choice("attr", na - 1 + (int)m.f.size()); if (o.spoil >= na - 1) o.spoil += o.primattrs;  o.spoilType = sym32("type"); assume(o.spoilType != 0 && o.spoilType != 1 && o.spoilType != 4 && o.spoilType != 5); }
    else if (fmt == PRT) { o.spoil = choice("attr", na); o.spoilType = sym32("type"); assume(o.spoilType > 10); }
    else if (fmt == PTC) { o.version = choice("version", 3); if (na == 3 || choice("size", 2)) { o.sizeAdd = sym32("add"); assume(o.sizeAdd != 0); } else o.spoil = choice("attr", na - 3); }
    if (fmt == GEO) { // the word for the type
      Str t = "PGEOMETRY V5\nNPoints 2 NPrims 0\nNPointGroups 0 NPrimGroups 0\nNPointAttrib 2 NVertexAttrib 0 NPrimAttrib 0 NAttrib 0\nPointAttrib\n"; putN(b, t); int at = choice("attr", 2), w = choice("word", 6); static const char *G[] = {"string", "Float", "floats", "vec", "integer"};
      for (int i = 0; i < 2; i++) { putN(b, i ? "q 1 " : "p 2 "); if (i != at) putN(b, "float"); else if (w < 5) putN(b, G[w]); else { u8 d = 0, e = 0; for (int k = 0; k < 5; k++) { u8 c = sym8("word"); assume(c > 32 && c < 127); d |= c ^ "float"[k]; e |= c ^ "index"[k]; put8(b, c); } assume(d != 0); assume(e != 0); } putN(b, i ? " 0\n" : " 0 0\n"); }
      putN(b, "1 2 3 1 (1 2\t3)\n1 2 3 1 (1 2\t3)\nbeginExtra\nendExtra\n");
    } else b = refFile(fmt, m, o);
    f = path("bad." + extOf(fmt)); spit(f, b); long a = live(); check(tryBoth(f) == 0, "a file whose description of its data is not the format's is refused"); check(live() == a, "nothing stays allocated"); cover("end"); return;
  }
  if (mode == 9) { // less data than the header promises, inside a complete compressed stream or with other bytes behind it
    Bytes b;
    if (fmt == PRT) {
      Model m = chooseModel(PRT); chooseValues(m, PRT); m = carried(m, PRT); Bytes h = prtFile(m, Opts(), false), d = prtParticles(m); if (d.empty() || choice("more", 2)) { h[48] = (u8)(m.n + 1 + choice("by", 3)); if (choice("huge", 2)) h[49] = 3; } else d.resize((size_t)choice("cut", (int)d.size()));
      Bytes z = zdeflate(d); h.insert(h.end(), z.begin(), z.end()); int tail = choice("tail", 3); for (int i = 0; i < tail * 5; i++) h.push_back(sym8("tail")); b = h;
    } else { Bytes q = fileOf(fmt, false); q.resize((size_t)choice("cut", (int)q.size())); const u8 h[10] = {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}; b.assign(h, h + 10); deflateStored(b, q); gzTrailer(b, q); if (choice("tail", 2)) for (int i = 0; i < 5; i++) b.push_back(sym8("tail")); }
    f = path("short." + extOf(fmt) + (fmt == PRT ? "" : ".gz")); spit(f, b); long a = live(); int got = tryBoth(f); check(live() == a, "nothing stays allocated"); if (fmt == PRT) check(got == 2, "fewer particles than promised are refused"); cover("end"); return;
  }
}
