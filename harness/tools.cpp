#include "schemas.h"
#include <iomanip>
#include <set>
#define main partattr_main
#include "../tools/partattr.cpp"
#undef main
#define main partinfo_main
#include "../tools/partinfo.cpp"
#undef main
// P45: what the command-line tools say about a file
static Str outText, errText;
static int run(int (*f)(int, char **), const std::vector<Str> &args) {
  std::vector<char *> a; static char prog[] = "tool"; a.push_back(prog); std::vector<Str> c = args; for (auto &s : c) a.push_back(&s[0]); a.push_back(0);
  std::ostringstream o, e; std::streambuf *so = std::cout.rdbuf(o.rdbuf()), *se = std::cerr.rdbuf(e.rdbuf()); int r = f((int)a.size() - 1, &a[0]); std::cout.rdbuf(so); std::cerr.rdbuf(se); outText = o.str(); errText = e.str(); return r;
}
static Str num(const MAttr &a, int i) { std::ostringstream o; if (a.type == INT) o << (int)a.v[i]; else if (a.type == INDEXEDSTR) o << (int)a.v[i]; else o << f_of(a.v[i]); return o.str(); }
static std::vector<Str> words(const Str &t, size_t at, size_t end) { std::vector<Str> w; Str s; for (size_t i = at; i <= end && i <= t.size(); i++) { char c = i < end && i < t.size() ? t[i] : ' '; if (c == ' ' || c == '\n' || c == '\t' || c == ',' || c == '[' || c == ']') { if (!s.empty()) w.push_back(s); s.clear(); } else s += c; } return w; }
static Str quoted(const MAttr &a, u32 t) { return t < a.strs.size() ? "'" + a.strs[t] + "'" : Str("<out-of-bounds>"); }
static int intArg(int k, Str &s) { static const int A[6] = {1, 0, -1, 5, 100, 2}; std::ostringstream o; o << A[k]; s = o.str(); return A[k]; }
static Str N(int i) { std::ostringstream o; o << i; return o.str(); }
void harness() {
  std::ostringstream err; int mode = cfgi("mode", 0);
  Model m = parseSchema("v3 position f1 a i1 id f2 uv s1 tag i2 q s2 tags"); m.n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 3) - cfgi("nmin", 0) + 1); Model g = parseSchema(cfgi("manyfixed", 0) ? "+i2 g +f1 h +v3 k +i1 l +f5 n" : cfgi("fixed", 1) ? "+i2 g +f1 h" : ""); m.f = g.f;
  for (auto &a : m.a) for (auto &s : a.strs) if (s.empty() || s == "a b") s = s.empty() ? "none" : "ab";
  for (auto &a : m.a) fillAttr(a, m.n, false); for (auto &a : m.f) fillAttr(a, 1, false);
  if (cfgi("badtoken", 0)) for (auto &a : m.a) if (a.type == INDEXEDSTR && m.n) { u32 t = sym32("badtoken"); assume(t >= (u32)a.strs.size()); a.v[(size_t)choice("bad", m.n) * a.count] = t; }
  ParticlesDataMutable *p = mkset(m); Str f = path("a.bgeo"); write(f.c_str(), *p, false, true, err); p->release(); Bytes before = slurp(f);
  if (mode == 0) { // partattr
    const MAttr &a = m.a[choice("attribute", (int)m.a.size())]; std::vector<Str> args = {f, a.name}; int lim = 10; Str s; if (choice("limited", 2)) { lim = intArg(choice("limit", 6), s); args.push_back(s); }
    int r = run(partattr_main, args); check(r == 0, "success"); Str want;
    for (int i = 0; i < m.n && i < lim; i++) {
      want += a.name + "[" + N(i) + "]="; if (a.type == INT) want += num(a, i * a.count) + "\n"; else if (a.type == INDEXEDSTR) want += quoted(a, a.v[i * a.count]) + "\n"; else { want += "("; for (int k = 0; k < a.count; k++) want += (k ? "," : "") + num(a, i * a.count + k); want += ")\n"; }
    }
    check(outText.size() == want.size(), "as much output as values"); bool same = outText.size() == want.size(); for (size_t i = 0; same && i < want.size(); i++) same = same & (outText[i] == want[i]); check(same, "the values of the attribute");
  } else if (mode == 1) { // partinfo of single particles
    std::vector<Str> args; int which[2] = {0, 0}, k = 1 + choice("several", 2); bool all = choice("all", 2); if (all) args.push_back("-a"); args.push_back(f); for (int i = 0; i < k; i++) { which[i] = choice("index", 5); if (i && which[1] == which[0]) assume(false); args.push_back(N(which[i])); }
    int r = run(partinfo_main, args); check(r == 0, "success"); std::vector<int> want; if (all) for (int i = 0; i < m.n; i++) want.push_back(i); else { want.assign(which, which + k); std::sort(want.begin(), want.end()); }
    size_t at = outText.find("Particle 0:") < outText.size() ? 0 : 0; int n = 0; { size_t q = 0; while ((q = outText.find("\nParticle ", q)) != Str::npos) { n++; q++; } } check(n == (int)want.size(), "one block per particle asked for");
    { std::vector<Str> head = words(outText, 0, outText.find("Type")); check(!head.empty() && head.back() == N(m.n), "the number of particles"); }
    for (int i : want) {
      at = outText.find("Particle " + N(i) + ":"); check(at != Str::npos, "the particle asked for"); if (at == Str::npos) return; size_t end = outText.find("-----------", at); if (end == Str::npos) end = outText.size();
      std::vector<Str> w = words(outText, at, end), e; e.push_back("Particle"); e.push_back(N(i) + ":");
      if (i < m.n) for (auto &a : m.a) { e.push_back(TypeName(a.type)); e.push_back(a.name); for (int c = 0; c < a.count; c++) e.push_back(a.type == INDEXEDSTR ? num(a, i * a.count + c) + "=" + quoted(a, a.v[i * a.count + c]) : num(a, i * a.count + c)); }
      else { e.push_back("OUT"); e.push_back("OF"); e.push_back("RANGE"); }
      check(w.size() == e.size(), "one entry per value"); bool same = w.size() == e.size(); for (size_t j = 0; same && j < e.size(); j++) { if (w[j].size() != e[j].size()) same = false; else for (size_t c = 0; c < e[j].size(); c++) same = same & (w[j][c] == e[j][c]); } check(same, "type, name and values of the particle");
    }
  } else if (mode == 2) { // partinfo of a file
    bool str = choice("strings", 2); std::vector<Str> args; if (str) args.push_back("--strings"); args.push_back(f); int r = run(partinfo_main, args); check(r == 0, "success");
    size_t at = outText.find("Type"); check(at != Str::npos, "table"); if (at == Str::npos) return; { std::vector<Str> h = words(outText, 0, at); check(!h.empty() && h.back() == N(m.n), "the number of particles"); }
    std::vector<Str> w = words(outText, at, outText.size()); size_t j = 6; for (auto &a : m.a) { check(j + 2 < w.size() && w[j] == TypeName(a.type) && w[j + 1] == N(a.count) && w[j + 2] == a.name, "a line per attribute"); j += 3; }
    if (!m.f.empty()) at = outText.find("Fixed Attributes"); else check(outText.find("Fixed Attributes") == Str::npos, "no fixed attributes"); check(at != Str::npos, "fixed attributes"); if (at == Str::npos) return; w = words(outText, at, outText.size()); j = 8; if (m.f.empty()) j = w.size(); for (auto &a : m.f) { check(j + 2 < w.size() && w[j] == TypeName(a.type) && w[j + 1] == N(a.count) && w[j + 2] == a.name, "a line per fixed attribute"); j += 3; }
    for (auto &a : m.f) { check(j + 1 < w.size() && w[j] == TypeName(a.type) && w[j + 1] == a.name, "values of a fixed attribute"); j += 2; for (int k = 0; k < a.count; k++, j++) { Str e = num(a, k); bool same = j < w.size() && w[j].size() == e.size(); for (size_t c = 0; same && c < e.size(); c++) same = same & (w[j][c] == e[c]); check(same, "fixed value"); } }
    int big = cfgi("strings", 3); for (auto &a : m.a) if (a.type == INDEXEDSTR) { Str h = a.name + " (" + N(big) + ") = ["; at = outText.find(h); check(at != Str::npos, "the table of a string attribute"); if (at == Str::npos) return; size_t end = outText.find("]\n", at); w = words(outText, at + h.size(), end); int shown = str ? big : std::min(5, big); check((int)w.size() >= shown, "strings"); for (int k = 0; k < shown && k < (int)w.size(); k++) { Str e = a.strs[(size_t)k]; std::vector<Str> ew = words(e, 0, e.size()); if (ew.size() == 1) check(w[(size_t)k] == ew[0], "string of the table"); else break; } }
  } else { // wrong calls
    int k = choice("call", 9), r;
    if (k == 0) r = run(partattr_main, {}); else if (k == 1) r = run(partattr_main, {f}); else if (k == 2) r = run(partattr_main, {f, "a", "3", "4"}); else if (k == 3) r = run(partattr_main, {path("missing.bgeo"), "a"}); else if (k == 4) r = run(partattr_main, {f, "nothere"});
    else if (k == 5) r = run(partinfo_main, {}); else if (k == 6) r = run(partinfo_main, {"-a"}); else if (k == 7) r = run(partinfo_main, {path("missing.bgeo")}); else r = run(partinfo_main, {path("a.xyz"), "1"});
    check(r != 0, "a wrong call is refused"); check(!errText.empty(), "it says what is wrong"); check(outText.empty(), "and nothing else");
  }
  Bytes after = slurp(f); bool same = after.size() == before.size(); for (size_t i = 0; same && i < after.size(); i++) same = same & (before[i] == after[i]); check(same, "the file is left alone"); cover("end");
}
