#include "ref.h"
#include "gz.h"
// P33: the library against independent encoders of the binary formats
void harness() {
  int fmt = cfgi("fmt", BGEO), mode = cfgi("mode", 0); std::ostringstream err; Str f = path(Str("a.") + EXT[fmt]); bool gz = cfgi("gz", 0);
  if (mode == 0) { // bytes written
    Model m = chooseModel(fmt); chooseValues(m, fmt); if (fmt == PTC) for (auto &a : m.a) if (a.name == "position") for (auto &v : a.v) v = b_of(latf("lattice", 10) / 8.f); // the bounding box is computed from these
    ParticlesDataMutable *p = mkset(m, choice("backend", 2)); Model c = carried(m, fmt);
    if (fmt == BGEO) c = m; // positions come first for every point whatever their place among the attributes
    if (fmt == PTC) { c = carried(m, fmt); }
    write(f.c_str(), *p, false, true, err); Bytes got = slurp(f), want; p->release();
    if (fmt == PRT) { if (m.n == 0) { cover("end"); return; } want = prtFile(c, Opts(), false); check(got.size() > want.size(), "header and data"); if (got.size() <= want.size()) return; bool whole; Bytes d = zinflate(got, want.size(), whole); check(whole, "the data ends with its compressed stream"); sameBytes(d, prtParticles(c), "particle bytes"); got.resize(want.size()); sameBytes(got, want, "header bytes"); cover("end"); return; }
    want = refFile(fmt, c, Opts()); sameBytes(got, want, "the bytes of the format"); cover("end"); return;
  }
  // files of other applications
  Opts o; o.any = cfgi("any", 1); Model m; int rf = cfgi("rext", fmt);
  if (fmt == BIN) { o.version = cfgi("vlo", 2) + choice("version", cfgi("vhi", 13) - cfgi("vlo", 2) + 1); m = binModel(o.version); m.n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 2) - cfgi("nmin", 0) + 1); fillModel(m); }
  else if (fmt == PTC) { o.version = choice("version", 3); static const char *X[] = {"f1 a", "f3 Cd f1 a", "v3 vec f16 xf", ""}; m = parseSchema((Str("v3 position v3 normal f1 radius ") + X[choice("schema", 4)]).c_str()); m.n = choice("particles", cfgi("nmax", 2) + 1); chooseValues(m, fmt); }
  else if (cfgi("concrete", 0)) { m = chooseModel(fmt); u32 x = 1; for (auto *v : {&m.a, &m.f}) for (auto &a : *v) for (int i = 0; i < (v == &m.a ? m.n : 1) * a.count; i++) { x = x * 1664525u + 1013904223u; a.v.push_back(a.type == INDEXEDSTR ? x >> 9 & 1 : x & 0xbfffffffu); } m = carried(m, fmt); }
  else { m = chooseModel(fmt); chooseValues(m, fmt); m = carried(m, fmt); }
  if (fmt == BGEO) { o.prims = cfgi("prims", -1) < 0 ? choice("prims", 3) : cfgi("prims", 0); o.primattrs = cfgi("primattrs", -1) < 0 ? choice("primattrs", 4) : cfgi("primattrs", 0); }
  if (cfgi("badprim", 0)) { if (o.primattrs && choice("badattr", 2)) { o.spoil = (int)m.a.size() - 1 + choice("spoil", o.primattrs); o.spoilType = sym32("type"); assume(o.spoilType != 0 && o.spoilType != 1 && o.spoilType != 4 && o.spoilType != 5); } else { o.primType = sym32("type"); assume(o.primType != 0x8000); } } // primitives the reader cannot skip: the points are there, what follows is not
  if (fmt == PDB || fmt == PDB32 || fmt == PDB64) o.skipchan = choice("skip", 2);
  Bytes b = refFile(fmt, m, o); f = path(Str("a.") + EXT[rf] + (gz ? ".gz" : "")); if (gz) { const u8 h[10] = {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}; Bytes q = b; b.assign(h, h + 10); deflateStored(b, q); gzTrailer(b, q); } spit(f, b);
  if (cfgi("badprim", 0)) m.f.clear();
  ParticlesDataMutable *p = read(f.c_str(), true, err); check(p != 0, "a file of the format is read"); if (!p) return; ParticlesInfo *h = readHeaders(f.c_str(), true, err); check(h != 0, "its headers are read"); if (!h) return;
  sameSet(p, m, SCHEMA_ORDER | STRTABLE); sameInfo(h, p); p->release(); h->release(); cover("end");
}
