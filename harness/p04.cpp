#include "h.h"
// Indexed-string tables: histories over symbolic strings, cfg fixed 0/1.
static ParticlesDataMutable *p; static ParticleAttribute pa[2]; static FixedAttribute fa[2]; static int fixedm;
static int reg(int a, const Str &s) { return fixedm ? p->registerFixedIndexedStr(fa[a], s.c_str()) : p->registerIndexedStr(pa[a], s.c_str()); }
static int look(int a, const Str &s) { return fixedm ? p->lookupFixedIndexedStr(fa[a], s.c_str()) : p->lookupIndexedStr(pa[a], s.c_str()); }
static void set(int a, int t, const Str &s) { if (fixedm) p->setFixedIndexedStr(fa[a], t, s.c_str()); else p->setIndexedStr(pa[a], t, s.c_str()); }
static const std::vector<Str> &tab(int a) { return fixedm ? p->fixedIndexedStrs(fa[a]) : p->indexedStrs(pa[a]); }
void harness() {
  p = cfgi("backend", 0) ? createInterleave() : create(); fixedm = cfgi("fixed", 0); int K = cfgi("k", 4), first = cfgi("first", 0);
  for (int i = 0; i < 2; i++) { if (fixedm) fa[i] = p->addFixedAttribute(i ? "s1" : "s0", INDEXEDSTR, 1); else pa[i] = p->addAttribute(i ? "s1" : "s0", INDEXEDSTR, 1); }
  // three strings; one always longer than the small-string buffer when long=1
  std::vector<Str> S; int ns = cfgi("strings", 3);
  if (cfgi("plain", 0)) for (int i = 0; i < ns; i++) S.push_back(Str(i == 1 ? "a string that is not short" : "x") + (char)('a' + i));
  else for (int i = 0; i < ns; i++) { Str s; int l = choice("len", 2) + (i == 2); for (int k = 0; k < l; k++) { char c = (char)sym8("c"); assume(c != 0); s.push_back(c); } if (i == 1) s += "a rather long suffix"; S.push_back(s); }
  std::vector<Str> M[2]; for (int i = 0; i < cfgi("pre", 0); i++) { Str s; for (int d = i + 1; d; d /= 3) s += (char)('a' + d % 3); if (i % 5 == 4) s += "_and_a_rather_long_tail"; check(reg(0, s) == i, "a new string gets a new token"); M[0].push_back(s); }
  for (int k = 0; k < K; k++) {
    int op = k == 0 ? 0 : k == 1 ? first : choice("op", cfgi("ops", 3)); int a = choice("table", k == 0 ? 1 : cfgi("tables", 2)); const Str &s = S[choice("str", ns)];
    if (op == 0) {
      int t = reg(a, s); int e = -1; for (size_t i = 0; i < M[a].size(); i++) if (M[a][i] == s) { e = (int)i; break; }
      if (e < 0) { check(t == (int)M[a].size(), "a new string gets a new token"); M[a].push_back(s); } else check(t >= 0 && t < (int)M[a].size() && M[a][t] == s, "registering a known string returns its token");
    } else if (op == 1) {
      if (M[a].empty()) assume(false); int t = choice("tok", (int)M[a].size()); Str old = M[a][t]; set(a, t, s); M[a][t] = s; 
      if (old != s) { int r = look(a, old); check(r != t, "lookup of the replaced string does not return the token"); } cover("rename");
    } else { int t = symi("badtok"); assume(t < 0 || t >= (int)M[a].size()); set(a, t, s); }
    for (int b = 0; b < 2; b++) {
      const std::vector<Str> &T = tab(b); check(T.size() == M[b].size(), "table size"); for (size_t i = 0; i < T.size(); i++) check(T[i] == M[b][i], "table entry");
      for (int j = 0; j < ns; j++) { int r = look(b, S[j]); bool in = false; for (auto &x : M[b]) if (x == S[j]) in = true; check(in ? (r >= 0 && r < (int)M[b].size() && M[b][r] == S[j]) : r == -1, "lookup agrees with the table"); }
    }
  }
  p->release(); cover("end");
}
