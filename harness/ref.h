// Independent encoders of the binary formats, written from the formats' descriptions.
// Bytes the readers must ignore are arbitrary when `any` is set.
#ifndef REF_H
#define REF_H
#include "schemas.h"
#include <zlib.h>
struct Opts { bool any = false; int prims = 0, primattrs = 0, version = -1; bool skipchan = false; int bits = 32; bool wideIndex = false; int spoil = -1; u32 spoilType = 0, sizeAdd = 0, primType = 0x8000; }; // spoil: the attribute, counted over the whole file, whose type is spoilType
static inline u8 j8(const Opts &o, u8 v) { return o.any ? sym8("ignored") : v; }
static inline u16 j16(const Opts &o, u16 v) { return o.any ? sym16("ignored") : v; }
static inline u32 j32(const Opts &o, u32 v) { return o.any ? sym32("ignored") : v; }
static inline void putN(Bytes &b, const Str &s) { putS(b, s.c_str(), s.size()); }
// ---- Houdini binary geometry, version 5: big endian
static inline void bgeoDefs(Bytes &b, const std::vector<const MAttr *> &as, const Opts &o, int &index) {
  for (auto a : as) {
    bool bad = index++ == o.spoil; put16(b, (u16)a->name.size(), true); putN(b, a->name); put16(b, (u16)a->count, true); put32(b, bad ? o.spoilType : a->type == FLOAT ? 0 : a->type == INT ? 1 : a->type == VECTOR ? 5 : 4, true);
    if (a->type == INDEXEDSTR) { put32(b, (u32)a->strs.size(), true); for (auto &s : a->strs) { put16(b, (u16)s.size(), true); putN(b, s); } }
    else for (int k = 0; k < a->count; k++) put32(b, j32(o, 0), true);
  }
}
static inline Bytes bgeoFile(const Model &m, const Opts &o) {
  std::vector<const MAttr *> pt, fx, pr; const MAttr *pos = 0; for (auto &a : m.a) if (a.name == "position") pos = &a; else pt.push_back(&a); for (auto &a : m.f) fx.push_back(&a);
  static MAttr P[3]; P[0] = mattr("prf", FLOAT, 2); P[1] = mattr("prs", INDEXEDSTR, 1); P[1].strs.clear(); P[1].strs.push_back("one"); P[1].strs.push_back("second"); P[2] = mattr("pri", INT, 1); for (int i = 0; i < o.primattrs; i++) pr.push_back(&P[i]);
  int index = 0; Bytes b; putN(b, "BgeoV"); put32(b, 5, true); put32(b, (u32)m.n, true); put32(b, (u32)o.prims, true); put32(b, j32(o, 0), true); put32(b, j32(o, 0), true); put32(b, (u32)pt.size(), true); put32(b, 0, true); put32(b, (u32)pr.size(), true); put32(b, (u32)fx.size(), true);
  bgeoDefs(b, pt, o, index);
  for (int i = 0; i < m.n; i++) { for (int k = 0; k < 3; k++) put32(b, pos->v[i * 3 + k], true); put32(b, j32(o, b_of(1.f)), true); for (auto a : pt) for (int k = 0; k < a->count; k++) put32(b, a->v[i * a->count + k], true); }
  bgeoDefs(b, pr, o, index);
  for (int q = 0; q < o.prims; q++) { // particle system primitives: vertex numbers, then the primitive's attributes
    int nv = q == 0 ? (m.n < 4 ? m.n : 4) : cfgi("vertices", 1); put32(b, q == o.prims - 1 ? o.primType : 0x8000, true); put32(b, (u32)nv, true); for (int k = 0; k < nv; k++) if (m.n >= 65536) put32(b, j32(o, (u32)k), true); else put16(b, j16(o, (u16)k), true);
    for (auto a : pr) for (int k = 0; k < a->count; k++) put32(b, j32(o, 1), true);
  }
  bgeoDefs(b, fx, o, index); for (auto a : fx) for (int k = 0; k < a->count; k++) put32(b, a->v[k], true);
  put8(b, 0); put8(b, 0xff); return b;
}
// ---- Maya PDB, with the layout of a 32 or 64 bit machine: little endian structures
static inline void ptr(Bytes &b, const Opts &o) { if (o.bits == 64) { u64 v = o.any && cfgi("anyptr", 1) ? inp("ignored", 64) : 0; put64(b, v); } else put32(b, cfgi("anyptr", 1) ? j32(o, 0) : 0); }
static inline void padTo(Bytes &b, size_t from, size_t n) { while (b.size() - from < n) put8(b, 0); }
static inline Bytes pdbFile(const Model &m, const Opts &o) {
  Bytes b; bool w = o.bits == 64; int nch = (int)m.a.size() + (o.skipchan ? 1 : 0);
  put32(b, 670); put16(b, j16(o, 1)); put16(b, 0); put32(b, j32(o, b_of(1.f))); put32(b, j32(o, 0)); put32(b, (u32)m.n); put32(b, (u32)nch); for (int k = 0; k < 32; k++) put8(b, j8(o, 0)); padTo(b, 0, 56); ptr(b, o);
  int skipAt = o.skipchan ? choice("skipat", nch) : -1; size_t ai = 0;
  for (int c = 0; c < nch; c++) {
    const MAttr *a = c == skipAt ? 0 : &m.a[ai++];
    put8(b, j8(o, 0)); put8(b, 0); put16(b, 1); put8(b, 0); put8(b, 0);
    size_t s = b.size(); u32 ty = !a ? 4 : a->type == VECTOR ? 1 : a->type == FLOAT ? 2 : 3;
    ptr(b, o); put32(b, ty); put32(b, j32(o, 0)); put32(b, o.any && cfgi("anyptr", 1) ? sym32("ignored") : 0); put32(b, j32(o, (u32)m.n - 1)); put8(b, j8(o, 0)); put8(b, j8(o, 0)); padTo(b, s, w ? 32 : 24); ptr(b, o); ptr(b, o); ptr(b, o);
    putN(b, a ? a->name : Str("skipped")); put8(b, 0);
    size_t d = b.size(); u32 ds = a ? (u32)a->count * 4 : (u32)cfgi("skipsize", 5); put32(b, ty); put32(b, ds); put32(b, j32(o, (u32)m.n)); put32(b, j32(o, 1)); padTo(b, d, 16); ptr(b, o);
    if (a) for (u32 v : a->v) put32(b, v); else for (int i = 0; i < m.n * (int)ds; i++) put8(b, j8(o, 7));
  }
  return b;
}
// ---- PDC: magic " CDP" as a little endian word, everything else big endian, values as doubles
static inline Bytes pdcFile(const Model &m, const Opts &o) {
  Bytes b; putN(b, "PDC "); put32(b, j32(o, 1), true); put32(b, j32(o, 1), true); put32(b, j32(o, 0), true); put32(b, j32(o, 0), true); put32(b, (u32)m.n, true); put32(b, (u32)m.a.size(), true);
  for (auto &a : m.a) { put32(b, (u32)a.name.size(), true); putN(b, a.name); put32(b, a.type == VECTOR ? 5 : 3, true); for (u32 v : a.v) put64(b, b_of((double)f_of(v)), true); }
  return b;
}
// ---- point cloud: little endian
static inline Bytes ptcFile(const Model &m, const Opts &o) {
  Bytes b; putN(b, "pptc"); int ver = o.version < 0 ? 0 : o.version; put32(b, (u32)ver); put64(b, b_of((double)m.n));
  auto get = [&](const char *n) -> const MAttr * { for (auto &a : m.a) if (a.name == n) return &a; return 0; };
  const MAttr *pos = get("position"), *rad = get("radius");
  for (int s = 0; s < 2; s++) for (int k = 0; k < 3; k++) { // bounding box
    if (o.any) { put32(b, sym32("ignored")); continue; }
    float v = s ? -std::numeric_limits<float>::max() : std::numeric_limits<float>::max(); for (int i = 0; i < m.n; i++) { float x = f_of(pos->v[i * 3 + k]); if (s ? x > v : x < v) v = x; } put32(b, b_of(v)); }
  if (ver >= 1) for (int k = 0; k < 4; k++) put32(b, j32(o, 0)); if (ver >= 2) for (int k = 0; k < 33; k++) put32(b, j32(o, 0));
  for (int i = 0; i < 16; i++) put32(b, j32(o, b_of(i % 5 ? 0.f : 1.f)));
  static const float E2S[16] = {1.8f, 0, 0, 0, 0, 2.41f, 0, 0, 0, 0, 1, 1, 0, 0, -.1f, 0}; for (int i = 0; i < 16; i++) put32(b, j32(o, b_of(E2S[i])));
  put32(b, j32(o, b_of(640.f))); put32(b, j32(o, b_of(480.f))); put32(b, j32(o, b_of(300.f)));
  std::vector<const MAttr *> v; int ds = 0; for (auto &a : m.a) if (a.name != "position" && a.name != "normal" && a.name != "radius") { v.push_back(&a); ds += a.count; }
  put32(b, (u32)v.size()); put32(b, (u32)ds + o.sizeAdd); int index = 0; for (auto a : v) { bool bad = index++ == o.spoil; static const char *V3[] = {"vector ", "point ", "normal "}; if (bad) { const char *N = "vector"; int w = choice("word", 3); putN(b, w == 0 ? Str("") : w == 1 ? Str("string") : Str()); if (w == 2) { u8 d = 0; for (int k = 0; k < 6; k++) { u8 c = sym8("word"); assume((c != 32) & (c != 10) & (c != 0)); d |= c ^ N[k]; put8(b, c); } const char *P[] = {"normal", "matrix"}; for (auto q : P) { u8 e = 0; for (int k = 0; k < 6; k++) e |= b[b.size() - 6 + k] ^ q[k]; assume(e != 0); } assume(d != 0); } put8(b, 32); }
    else putN(b, a->type == VECTOR && o.version >= 0 ? V3[choice("kind", 3)] : a->count == 1 ? "float " : a->count == 3 ? "color " : "matrix "); putN(b, a->name); put8(b, '\n'); }
  if (ver >= 1) for (int k = 0; k < 2; k++) put32(b, j32(o, 0));
  for (int i = 0; i < m.n; i++) { for (int k = 0; k < 3; k++) put32(b, pos->v[i * 3 + k]); put16(b, 65535); put16(b, 65535); put32(b, rad ? rad->v[i] : b_of(1.f)); for (auto a : v) for (int k = 0; k < a->count; k++) put32(b, a->v[i * a->count + k]); }
  return b;
}
// ---- RealFlow BIN: little endian, packed
static inline Bytes binFile(const Model &m, const Opts &o) {
  Bytes b; int ver = o.version < 0 ? 11 : o.version; put32(b, 0xfabada); for (int i = 0; i < 250; i++) put8(b, o.any ? j8(o, 0) : i < 12 ? (u8)"partioExport"[i] : 0); put16(b, (u16)ver); put32(b, j32(o, b_of(1.f))); put32(b, j32(o, 9)); put32(b, j32(o, b_of(0.0416666f))); put32(b, j32(o, 1)); put32(b, j32(o, 24)); put32(b, (u32)m.n); put32(b, j32(o, b_of(0.1f)));
  for (int i = 0; i < 9; i++) put32(b, j32(o, b_of(1.f))); if (ver >= 7) for (int i = 0; i < 9; i++) put32(b, j32(o, i < 6 ? 0 : b_of(1.f)));
  for (int i = 0; i < m.n; i++) for (auto &a : m.a) {
    for (int k = 0; k < a.count; k++) put32(b, a.v[i * a.count + k]);
    if (a.name == "uvw") put16(b, j16(o, 7)); // info bits
    if (a.name == "id" && ver >= 12) put32(b, j32(o, 0));
  }
  put32(b, 0); put8(b, 0); put8(b, 0); return b; // no additional data per particle, no RealFlow 4 or 5 data
}
static inline Model binModel(int ver) { Model m = parseSchema(S_BIN[0]), r; for (auto &a : m.a) { if ((a.name == "vorticity" && ver < 9) || (a.name == "normal" && ver < 3) || (a.name == "neighbors" && ver < 4) || (a.name == "uvw" && ver < 5)) continue; r.a.push_back(a); } return r; }
// ---- Krakatoa PRT: little endian header, zlib compressed particles
static inline Bytes zdeflate(const Bytes &p) {
  z_stream z; memset(&z, 0, sizeof z); deflateInit(&z, Z_DEFAULT_COMPRESSION); Bytes out; u8 buf[512]; z.next_in = p.empty() ? (Bytef *)buf : (Bytef *)&p[0]; z.avail_in = (uInt)p.size(); int r;
  do { z.next_out = buf; z.avail_out = sizeof buf; r = deflate(&z, Z_FINISH); out.insert(out.end(), buf, buf + (sizeof buf - z.avail_out)); } while (r == Z_OK); deflateEnd(&z); return out;
}
static inline Bytes zinflate(const Bytes &b, size_t at, bool &whole) {
  z_stream z; memset(&z, 0, sizeof z); inflateInit(&z); Bytes out; u8 buf[512]; z.next_in = (Bytef *)&b[at]; z.avail_in = (uInt)(b.size() - at); int r; whole = false;
  for (;;) { z.next_out = buf; z.avail_out = sizeof buf; r = inflate(&z, Z_NO_FLUSH); out.insert(out.end(), buf, buf + (sizeof buf - z.avail_out)); if (r == Z_STREAM_END) { whole = z.avail_in == 0; break; } if (r != Z_OK) break; }
  inflateEnd(&z); return out;
}
static inline Bytes prtHead(u64 n, u32 nch, const Opts &o, u32 headsize = 56, u32 chansize = 44) {
  static const u8 mg[8] = {192, 'P', 'R', 'T', '\r', '\n', 26, '\n'}; Bytes b(mg, mg + 8); put32(b, headsize); Str sig = "Extensible Particle Format"; sig.resize(32); putN(b, sig); put32(b, j32(o, 1)); put64(b, n); for (u32 i = 56; i < headsize; i++) put8(b, j8(o, 0)); put32(b, o.any ? j32(o, 4) : 4); put32(b, nch); put32(b, chansize); return b;
}
static inline void prtChan(Bytes &b, const Str &name, u32 type, u32 arity, u32 off) { Str n = name; n.resize(32); putN(b, n); put32(b, type); put32(b, arity); put32(b, off); }
static inline Str upFirst(Str s) { if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] = (char)(s[0] - 32); return s; }
static inline Bytes prtParticles(const Model &m) { Bytes p; for (int i = 0; i < m.n; i++) for (auto &a : m.a) for (int k = 0; k < a.count; k++) put32(p, a.v[i * a.count + k]); return p; }
static inline Bytes prtFile(const Model &m, const Opts &o, bool data = true) {
  Bytes b = prtHead((u64)m.n, (u32)m.a.size(), o); u32 off = 0; int index = 0; for (auto &a : m.a) { prtChan(b, upFirst(a.name), index++ == o.spoil ? o.spoilType : a.type == INT ? 1 : 4, (u32)a.count, off); off += 4 * (u32)a.count; }
  if (data) { Bytes z = zdeflate(prtParticles(m)); b.insert(b.end(), z.begin(), z.end()); } return b;
}
static inline Bytes refFile(int fmt, const Model &m, const Opts &o) {
  Opts p = o; if (fmt == PDB64) p.bits = 64;
  switch (fmt) { case BGEO: return bgeoFile(m, p); case PDB: case PDB32: case PDB64: return pdbFile(m, p); case PDC: return pdcFile(m, p); case PTC: return ptcFile(m, p); case BIN: return binFile(m, p); default: return prtFile(m, p); }
}
#endif
