#include "schemas.h"
#include "gz.h"
// Write a set, read it back, compare with what the format carries; and/or compare readHeaders with read.
void harness() {
  int fmt = cfgi("fmt", BGEO), what = cfgi("what", 1), comp = cfgi("comp", 0), ext = cfgi("ext", fmt), rext = cfgi("rext", ext);
  std::ostringstream err;
  Model m = chooseModel(fmt); chooseValues(m, fmt);
  ParticlesDataMutable *p = mkset(m, cfgi("backend", 0), cfgi("order", 0));
  // 0 plain, 1 forceCompressed, 2 .gz name
  Str f = path(Str("out.") + EXT[ext] + (comp == 2 ? ".gz" : "")), g = f;
  write(f.c_str(), *p, comp == 1, true, err);
  if (ext != rext) { g = path(Str("out2.") + EXT[rext]); spit(g, slurp(f)); }
  if (fmt == PRT && m.n == 0) { check(fsize(f) < 0, "no file for an empty set"); p->release(); cover("end"); return; }
  if (comp) { // the compressed file holds exactly the bytes of the plain one
    Str pl = path(Str("plain.") + EXT[ext]); write(pl.c_str(), *p, false, true, err); Bytes raw = slurp(f); check(raw.size() > 18 && raw[0] == 0x1f && raw[1] == 0x8b, "compressed output is a gzip file");
    std::istream *i = Gzip_In(f, std::ios::in | std::ios::binary); check(i != 0, "gzip input stream opens"); if (i) { sameBytes(drain(*i, 1, 512), slurp(pl), "the compressed file decodes to the plain file"); delete i; }
  }
  Model c = carried(m, fmt);
  ParticlesDataMutable *r = read(g.c_str(), true, err); check(r != 0, "the written file is read"); if (!r) return;
  if (what & 1) sameSet(r, c, SCHEMA_ORDER | STRTABLE | (textFmt(fmt) ? TEXT6 : 0));
  if (what & 1) { Model o = m; sameSet(p, o, SCHEMA_ORDER | STRTABLE); }
  if (what & 2) { ParticlesInfo *h = readHeaders(g.c_str(), true, err); check(h != 0, "readHeaders accepts what read accepts"); if (h) { sameInfo(h, r); h->release(); } }
  r->release(); p->release(); cover("end");
}
