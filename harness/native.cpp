// Native side of h.h: inputs come from a vector file, files live in a scratch directory.
#include "h.h"
#include <sys/stat.h>
#include <unistd.h>
#include <locale>
#include <sanitizer/allocator_interface.h>
#include <cstdio>
static std::map<Str, u64> vec; static std::map<Str, int> cnt, cfgm; static Str dir; static bool zeroDefault = true; static long missing;
u64 inp(const char *n, int bits) { int k = cnt[n]++; Str s = n; if (k) s += "#" + std::to_string(k); auto it = vec.find(s); if (it == vec.end()) { missing++; return 0; } return bits < 64 ? it->second & ((1ull << bits) - 1) : it->second; }
int choice(const char *n, int k) { int v = (int)inp(n, 32); if (v < 0 || v >= k) { v = 0; } return v; }
void h_assume(bool c, const char *f, int l) { if (!c) { fprintf(stderr, "ASSUME-FALSE %s:%d\n", f, l); fflush(stderr); _exit(11); } }
void h_check(bool c, const char *m, const char *f, int l) { if (!c) { fprintf(stderr, "CHECK-FAILED %s (%s:%d)\n", m, f, l); fflush(stderr); _exit(10); } }
void h_cover(const char *t) { fprintf(stderr, "COVER %s\n", t); }
int cfgi(const char *k, int d) { auto it = cfgm.find(k); return it == cfgm.end() ? d : it->second; }
Str path(const Str &n) { return dir + "/" + n; }
long fsize(const Str &p) { struct stat st; return stat(p.c_str(), &st) ? -1 : (long)st.st_size; }
Bytes slurp(const Str &p) { std::ifstream i(p.c_str(), std::ios::binary); Bytes b; char c; while (i.get(c)) b.push_back((u8)c); return b; }
void spit(const Str &p, const Bytes &b) { std::ofstream o(p.c_str(), std::ios::binary); if (!b.empty()) o.write((const char *)&b[0], (std::streamsize)b.size()); }
void fdel(const Str &p) { unlink(p.c_str()); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
bool alive(const void *p) { return !__asan_address_is_poisoned(p); }
#else
bool alive(const void *) { return true; }
#endif
#endif
void rewindInputs() { cnt.clear(); }
long live() { return (long)__sanitizer_get_current_allocated_bytes(); }
extern "C" { void ns_spawn(void (*f)(void *), void *) __attribute__((weak)); void ns_run(const unsigned *sched, int n) __attribute__((weak)); }
void spawn(void (*f)(void *), void *a) { if (ns_run) ns_spawn(f, a); }
void joinAll() { unsigned c[256]; for (unsigned &x : c) x = (unsigned)inp("sched", 32); if (ns_run) ns_run(c, 256); }
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
void foreignLocale(bool on) { static std::locale f(std::locale::classic(), new Comma); std::locale::global(on ? f : std::locale::classic()); }
// usage: prog vectorfile scratchdir [key=value...]
int main(int argc, char **argv) {
  if (argc < 3) return 12;
  { std::ifstream i(argv[1]); Str l; while (std::getline(i, l)) { size_t b = l.rfind(' '); if (b != Str::npos) vec[l.substr(0, b)] = strtoull(l.c_str() + b + 1, 0, 10); } }
  dir = argv[2];
  for (int i = 3; i < argc; i++) { Str s = argv[i]; size_t e = s.find('='); if (e != Str::npos) cfgm[s.substr(0, e)] = atoi(s.c_str() + e + 1); }
  harness();
  fprintf(stderr, "HARNESS-DONE missing=%ld\n", missing); fflush(stderr);
  _exit(0);
}
