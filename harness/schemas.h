// Attribute schemas exercised by the file-format harnesses, one list per format.
#ifndef SCHEMAS_H
#define SCHEMAS_H
#include "model.h"
enum { BGEO, PDB, PDB32, PDB64, PRT, BIN, PDC, PTC, GEO, PDA, NFMT };
static const char *EXT[NFMT] = {"bgeo", "pdb", "pdb32", "pdb64", "prt", "bin", "pdc", "ptc", "geo", "pda"};
// "type count name" words; types: v f i s, a + marks a fixed attribute
static const char *S_BGEO[] = {"v3 position", "v3 position f1 a", "i1 id v3 position v3 vel f2 uv", "v3 position s1 tag f1 a", "s2 tags f1 r v3 position i3 q", "v3 v f5 m v3 position i1 id s1 t",
                               "v3 position +f1 g", "v3 position i1 id +i2 h +v3 w +s1 name", "s1 t v3 position +s2 u +f4 m +s1 x +i1 k", 0};
static const char *S_PDB[] = {"v3 position", "v3 position f1 a", "i1 id v3 position v3 vel", "f1 a i1 b f1 c v3 p", "", "f1 x", "f2 uv i3 q v3 position", 0};
static const char *S_PRT[] = {"v3 position", "v3 position f1 a", "i1 id v3 position v3 vel", "f2 uv i3 q v3 position f1 w", "f16 matrix i1 id", "v3 position s1 tag f1 a", "s1 tag i1 id", "f1 abcdefghijklmnopqrstuvwxyzabcde v3 position", 0};
static const char *S_BIN[] = {"v3 position v3 velocity v3 force v3 vorticity v3 normal i1 neighbors v3 uvw f1 age f1 isolationTime f1 viscosity f1 density f1 pressure f1 mass f1 temperature i1 id",
                              "v3 position i1 id f1 mass", "f1 age v3 velocity f1 viscosity", "v3 position", "i1 id f1 temperature i1 neighbors v3 uvw v3 position f1 pressure", 0};
static const char *S_PDC[] = {"v3 position", "v3 position f1 a", "f1 id v3 position v3 vel", "", "f1 a f1 longername f1 b", 0};
static const char *S_PTC[] = {"v3 position f1 radius", "f1 radius v3 position f1 a", "f3 Cd v3 position f1 a f1 radius", "v3 position f16 xf f1 radius f3 c f1 b", "v3 position f1 a", "v3 position v3 normal f1 radius f3 Cs", 0};
static const char *S_GEO[] = {"v3 position f1 a", "i1 id v3 position v3 vel f2 uv", "v3 position s1 tag f1 a", "s1 tag i1 k v3 position s1 u", "f3 a i2 b v3 position", "v3 position", "s2 tags f1 r v3 position", 0};
static const char *S_PDA[] = {"v3 position", "v3 position f1 a", "i1 id v3 position v3 vel", "f1 a i1 b f1 c v3 p", "f1 x", 0};
static const char **SCH[NFMT] = {S_BGEO, S_PDB, S_PDB, S_PDB, S_PRT, S_BIN, S_PDC, S_PTC, S_GEO, S_PDA};
static const char *STRS[] = {"x", "", "a b", "q\"u", "back\\slash", "x\\\\\"", "longer string value"};
static inline bool textFmt(int f) { return f == GEO || f == PDA; }
static inline Model parseSchema(const char *s) {
  Model m; std::string w; std::vector<Str> ws; for (const char *p = s;; p++) { if (*p == ' ' || !*p) { if (!w.empty()) ws.push_back(w); w = ""; if (!*p) break; } else w += *p; }
  int ns = cfgi("strings", 3), s0 = cfgi("string0", 0);
  for (size_t i = 0; i + 1 < ws.size(); i += 2) {
    bool fx = ws[i][0] == '+'; const char *t = ws[i].c_str() + fx; int c = atoi(t + 1);
    MAttr a = mattr(ws[i + 1], *t == 'v' ? VECTOR : *t == 'f' ? FLOAT : *t == 'i' ? INT : INDEXEDSTR, c);
    if (a.type == INDEXEDSTR) for (int k = 0; k < ns; k++) { a.strs.push_back(STRS[(s0 + k + (fx ? 1 : 0)) % 7]); if (k >= 7) { a.strs.back() += "#"; for (int d = k; d; d /= 10) a.strs.back() += (char)('0' + d % 10); } }
    if (a.type == INDEXEDSTR && cfgi("dup", 0)) { a.strs.insert(a.strs.begin() + 1, a.strs[0]); a.strs.push_back(a.strs[0]); }
    (fx ? m.f : m.a).push_back(a);
  }
  return m;
}
// what the format keeps of the set, in the order it reads back
static inline Model carried(const Model &m, int fmt) {
  Model r; r.n = m.n;
  if (fmt == BGEO || fmt == GEO) { for (auto &a : m.a) if (a.name == "position") r.a.push_back(a); for (auto &a : m.a) if (a.name != "position") r.a.push_back(a); if (fmt == BGEO) r.f = m.f; return r; }
  if (fmt == PRT) { for (auto &a : m.a) if (a.type != INDEXEDSTR) r.a.push_back(a); return r; }
  if (fmt == BIN) {
    Model b = parseSchema(S_BIN[0]);
    for (auto &a : b.a) { const MAttr *f = 0; for (auto &x : m.a) if (x.name == a.name) f = &x;
      if (f) { r.a.push_back(*f); continue; }
      a.v.clear(); for (int i = 0; i < m.n; i++) for (int k = 0; k < a.count; k++) a.v.push_back(a.name == "id" ? (u32)i : a.type == FLOAT && a.name != "age" ? b_of(1.f) : 0u);
      r.a.push_back(a); }
    return r;
  }
  if (fmt == PTC) {
    const char *std3[3] = {"position", "normal", "radius"};
    for (int j = 0; j < 3; j++) { const MAttr *f = 0; for (auto &x : m.a) if (x.name == std3[j]) f = &x; if (f) r.a.push_back(*f); else { MAttr a = mattr(std3[j], j < 2 ? VECTOR : FLOAT, j < 2 ? 3 : 1); for (int i = 0; i < m.n * a.count; i++) a.v.push_back(j == 2 ? b_of(1.f) : 0u); r.a.push_back(a); } }
    for (auto &a : m.a) if (a.name != "position" && a.name != "normal" && a.name != "radius") r.a.push_back(a);
    return r;
  }
  r.a = m.a; return r;
}
// what a format keeps of a set of any schema (ok becomes false when it cannot be written): attributes it has no form for are left out or become numbers
static inline Model kept(const Model &m, int fmt, bool *ok = 0) {
  Model x; x.n = m.n; x.f = m.f; bool pos = false;
  for (auto &a : m.a) {
    MAttr b = a; bool fl = a.type == FLOAT || a.type == VECTOR; auto first = [&]() { b.count = 1; b.v.clear(); for (int i = 0; i < m.n; i++) b.v.push_back(a.v[i * a.count]); };
    if (a.name == "position" && (fmt == BGEO || fmt == GEO || fmt == PTC)) { if (a.count != 3 || !fl) continue; pos = true; b.type = VECTOR; x.a.push_back(b); continue; }
    if (fmt == PDB || fmt == PDB32 || fmt == PDB64 || (fmt == PDA && a.count == (a.type == VECTOR ? 3 : 1))) { if (a.type == INDEXEDSTR) { b.type = INT; b.strs.clear(); } }
    else if (fmt == PDA) continue;
    else if (fmt == PRT) { if (a.type == INDEXEDSTR) continue; if (a.type == FLOAT && a.count == 3) b.type = VECTOR; }
    else if (fmt == PDC) { if (a.type != VECTOR) { first(); b.type = FLOAT; b.strs.clear(); if (!fl) for (auto &v : b.v) v = b_of((float)(int)v); } }
    else if (fmt == PTC) { if (!fl) continue; if (a.name == "normal") { if (a.count != 3) continue; b.type = VECTOR; } else if (a.name == "radius") first(); else { if (a.count != 1 && a.count != 3 && a.count != 16) continue; b.type = FLOAT; } if (a.name == "radius") b.type = FLOAT; }
    else if (fmt == BIN) { Model r = parseSchema(S_BIN[0]); const MAttr *c = 0; for (auto &q : r.a) if (q.name == a.name) c = &q; if (!c || (c->type == INT ? a.type != INT : !fl) || a.count < c->count) continue; b.type = c->type; b.count = c->count; b.v.clear(); for (int i = 0; i < m.n; i++) for (int k = 0; k < b.count; k++) b.v.push_back(a.v[i * a.count + k]); }
    x.a.push_back(b);
  }
  if (ok) *ok = pos || (fmt != BGEO && fmt != GEO && fmt != PTC);
  Model r = carried(x, fmt); if (fmt != BGEO) r.f.clear(); return r;
}
static inline Model chooseModel(int fmt) {
  int nsch = 0; while (SCH[fmt][nsch]) nsch++;
  int lo = cfgi("schema", 0), hi = cfgi("schemahi", cfgi("schema", nsch - 1)); if (hi >= nsch) hi = nsch - 1;
  Model m = parseSchema(SCH[fmt][lo + choice("schema", hi - lo + 1)]);
  m.n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 2) - cfgi("nmin", 0) + 1);
  // two arbitrary characters in the name of the last attribute that is not position / in the first string
  if (cfgi("symname", 0)) for (size_t i = m.a.size(); i-- > 0;) if (m.a[i].name != "position") { for (int k = 0; k < 2; k++) { char c = (char)sym8("namechar"); assume(c != 0); if (textFmt(fmt) || fmt == PTC) assume(c > 32); m.a[i].name += c; } break; }
  if (int ex = cfgi("manyattrs", 0)) for (int k = 0; k < ex; k++) { Str nm = "extra"; for (int d = k + 1; d; d /= 10) nm += (char)('0' + d % 10); bool num = fmt != PDC && fmt != PTC; m.a.push_back(k % 3 == 1 && fmt != PTC ? mattr(nm, VECTOR, 3) : mattr(nm, num && k % 3 == 2 ? INT : FLOAT, 1)); if (fmt == BGEO && k % 8 == 3) { m.f.push_back(mattr(nm, k % 16 == 3 ? INT : FLOAT, 2)); } }
  if (int ln = cfgi("longname", 0)) for (auto *v : {&m.a, &m.f}) for (auto &a : *v) if (a.name != "position" && a.name != "radius" && a.name != "normal") { while ((int)a.name.size() < ln) a.name += (char)('a' + a.name.size() % 26); }
  if (int ls = cfgi("longstr", 0)) for (auto *v : {&m.a, &m.f}) for (auto &a : *v) for (size_t k = 0; k < a.strs.size(); k++) { if (k & 1) continue; while ((int)a.strs[k].size() < ls) a.strs[k] += (char)(33 + (a.strs[k].size() * 7 + k) % 90); }
  if (int wd = cfgi("wide", 0)) m.a.push_back(mattr("widest", FLOAT, wd)), m.a.push_back(mattr("wideint", INT, wd + 1));
  // another name for an attribute: a word that has a meaning somewhere in a format with arbitrary characters behind it (names=1), or 1..names arbitrary characters
  if (int nm = cfgi("names", 0)) {
    static const char *W[] = {"TYPES", "ATTRIBUTES", "NUMBER_OF_PARTICLES:", "BEGIN", "PDA", "position", "normal", "radius", "P", "N", "v", "id", "float", "vector", "beginExtra", "generator", "Pw", "pp", "PP"};
    std::vector<size_t> at; for (size_t i = 0; i < m.a.size(); i++) if (m.a[i].name != "position" && !(fmt == PTC && (m.a[i].name == "normal" || m.a[i].name == "radius"))) at.push_back(i);
    if (!at.empty()) {
      MAttr &a = m.a[at[(size_t)choice("which", (int)at.size())]]; int extra = 1; if (nm == 1) { a.name = W[choice("word", 19)]; extra = choice("more", 2); } else { a.name.clear(); extra = 1 + choice("chars", nm - 1); }
      for (int k = 0; k < extra; k++) { char c = (char)sym8("namechar"); assume(c != 0); if (textFmt(fmt) || fmt == PTC) assume(c > 32); a.name += c; }
      for (auto &b : m.a) if (&b != &a) assume(b.name != a.name);
      for (const char *w : {"position", "normal", "radius"}) if (fmt == PTC || fmt == BGEO || fmt == GEO) assume(a.name != w);
      if (fmt == PDA) for (const char *w : {"TYPES"}) assume(a.name != w);
      if (fmt == PRT) { char c = a.name[0]; assume(c < 'A' || c > 'Z'); } // the reader folds the first letter
    }
  }
  if (cfgi("symstr", 0)) { int n = cfgi("symstr", 0), done = 0; for (auto *v : {&m.a, &m.f}) for (auto &a : *v) if (a.type == INDEXEDSTR && !done++) { Str s; for (int k = 0; k < n; k++) { char c = (char)sym8("strchar"); assume(c != 0); s += c; } for (size_t j = 1; j < a.strs.size(); j++) assume(s != a.strs[j]); a.strs[0] = s; } }
  return m;
}
// values for the set: every bit pattern where the format is binary, finite floats where it is text
// (PDC passes through double, which changes the bits of a signalling NaN; PTC takes part in arithmetic for its bounding box and encodes normals)
static inline void chooseValues(Model &m, int fmt) {
  if (cfgi("lastany", 0)) { // of very many particles, only the last one's values are arbitrary
    for (auto &a : m.a) { MAttr l = a; fillAttr(l, 1, !textFmt(fmt) && fmt != PDC && fmt != PTC); for (int i = 0; i + 1 < m.n; i++) for (int k = 0; k < a.count; k++) a.v.push_back(a.type == INDEXEDSTR ? (u32)(i % a.strs.size()) : a.type == INT ? (u32)(i * 3 - 7 + k) : b_of((float)((i * 5 + k * 3) % 1021) * 0.25f - 9)); a.v.insert(a.v.end(), l.v.begin(), l.v.end()); }
    for (auto &a : m.f) fillAttr(a, 1, true); return;
  }
  for (auto &a : m.a) {
    if (fmt == PTC && a.name == "normal") { a.v.assign((size_t)m.n * a.count, 0u); continue; }
    // (the writer compares positions: of many particles only the last has an arbitrary one)
    if (fmt == PTC && a.name == "position" && m.n > 8) { for (int i = 0; i < m.n * a.count; i++) a.v.push_back(i / a.count == m.n - 1 ? b_of(symf("position")) : b_of((float)((i * 7) % 31) * 0.375f - 4)); continue; }
    fillAttr(a, m.n, !textFmt(fmt) && fmt != PDC && !(fmt == PTC && a.name == "position"));
  }
  for (auto &a : m.f) fillAttr(a, 1, true);
}
#endif
