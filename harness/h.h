// Common part of all harnesses.  The same source is compiled twice: with -DSX
// for the symbolic executor, and natively (real libstdc++, zlib, sanitizers)
// to replay solver models against the real code.
#ifndef VERIF_H
#define VERIF_H
#include <Partio.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <cstdint>
#include <climits>
#include <limits>
#include <algorithm>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef std::string Str;
typedef std::vector<u8> Bytes;
using namespace Partio;

#ifdef SX
extern "C" {
unsigned long long __sx_input(const char *name, int bits); int __sx_choice(const char *name, int n); void __sx_assume(int c); void __sx_check(int c, const char *msg);
void __sx_cover(const char *tag); unsigned long long __sx_uf(const char *name, int bits, unsigned long long a, unsigned long long b); long __sx_live(void); void __sx_unsupported(const char *msg);
int __sx_cfg(const char *key, int def); void __sx_print(const char *m, unsigned long long v); int __sx_decide(unsigned long long c); void __sx_thread(int); void __sx_race(int); int __sx_held(void); unsigned long long __sx_pick(unsigned long long); unsigned __sx_fkey(unsigned); int __sx_alive(const void *);
void __sx_spawn(void (*f)(void *), void *arg); void __sx_join_all(void);
long sx_fsize(const char *n); char *sx_fdata(const char *n); void sx_fput(const char *n, const void *d, long len); void sx_fdel(const char *n); void sx_flock(const char *n); void sx_global_locale(int k);
}
static inline u64 inp(const char *n, int bits) { return __sx_input(n, bits); }
static inline int choice(const char *n, int k) { return __sx_choice(n, k); }
#define assume(c) __sx_assume(!!(c))
#define check(c, msg) __sx_check(!!(c), msg)
#define cover(t) __sx_cover(t)
static inline int cfgi(const char *k, int d) { return __sx_cfg(k, d); }
static inline Str path(const Str &n) { return "/sx/" + n; }
static inline long fsize(const Str &p) { return sx_fsize(p.c_str()); }
static inline Bytes slurp(const Str &p) { long n = sx_fsize(p.c_str()); Bytes b; if (n > 0) { b.resize(n); memcpy(&b[0], sx_fdata(p.c_str()), n); } return b; }
static inline void spit(const Str &p, const Bytes &b) { sx_fput(p.c_str(), b.empty() ? 0 : &b[0], (long)b.size()); }
static inline void fdel(const Str &p) { sx_fdel(p.c_str()); }
static inline long live() { return __sx_live(); }
static inline bool alive(const void *p) { return __sx_alive(p); }
static inline void foreignLocale(bool on) { sx_global_locale(on ? 1 : 0); }
static inline u64 pick(u64 v) { return __sx_pick(v); }
static inline void spawn(void (*f)(void *), void *a) { __sx_spawn(f, a); }
static inline void joinAll() { __sx_join_all(); }
static inline bool sxmode() { return true; }
#define NATIVE_ONLY(x)
#define SX_ONLY(x) x
#else
u64 inp(const char *n, int bits); int choice(const char *n, int k); void h_assume(bool c, const char *file, int line); void h_check(bool c, const char *msg, const char *file, int line); void h_cover(const char *t);
#define assume(c) h_assume(!!(c), __FILE__, __LINE__)
#define check(c, msg) h_check(!!(c), msg, __FILE__, __LINE__)
#define cover(t) h_cover(t)
int cfgi(const char *k, int d); Str path(const Str &n); long fsize(const Str &p); Bytes slurp(const Str &p); void spit(const Str &p, const Bytes &b); void fdel(const Str &p); long live(); bool alive(const void *p); void foreignLocale(bool on);
void rewindInputs(); // the next input is the first again
// threads: spawn() prepares one, joinAll() runs them all, in an order the inputs named "sched" choose
void spawn(void (*f)(void *), void *a); void joinAll();
static inline u64 pick(u64 v) { return v; }
static inline bool sxmode() { return false; }
#define NATIVE_ONLY(x) x
#define SX_ONLY(x)
#endif
void harness();

static inline u8 sym8(const char *n) { return (u8)inp(n, 8); }
static inline u16 sym16(const char *n) { return (u16)inp(n, 16); }
static inline u32 sym32(const char *n) { return (u32)inp(n, 32); }
static inline int symi(const char *n) { return (int)inp(n, 32); }
static inline float f_of(u32 b) { float f; memcpy(&f, &b, 4); return f; }
static inline u32 b_of(float f) { u32 b; memcpy(&b, &f, 4); return b; }
static inline double d_of(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static inline u64 b_of(double f) { u64 b; memcpy(&b, &f, 8); return b; }
// any 32-bit pattern, NaN payloads included: handle by bits
static inline u32 symbits(const char *n) { return (u32)inp(n, 32); }
// a finite float
static inline float symf(const char *n) { u32 b = (u32)inp(n, 32); assume((b & 0x7f800000u) != 0x7f800000u); return f_of(b); }
// an integer in [lo,hi] held as a float
static inline float symlat(const char *n, int lo, int hi) { int i = (int)inp(n, 32); assume(i >= lo && i <= hi); return (float)i; }
// any finite float, -0 excepted, by its position in the order of floats
static inline float symford(const char *n) {
  u32 k = (u32)inp(n, 32); assume(k >= 0x00800001u && k <= 0xff7fffffu);
#ifdef SX
  return f_of(__sx_fkey(k));
#else
  return f_of(k >= 0x80000000u ? k ^ 0x80000000u : (0x80000000u - k) | 0x80000000u);
#endif
}
// an integer of the given width held as a float: exact, so that the arithmetic on it stays exact
static inline float latf(const char *n, int bits) { int i = (int)((u32)inp(n, bits) << (32 - bits)) >> (32 - bits); return (float)i; }
static inline int symrange(const char *n, int lo, int hi) { int i = (int)inp(n, 32); assume(i >= lo && i <= hi); return i; }
// comparison without a branch on symbolic data
static inline bool eq32(u32 a, u32 b) { return a == b; }
template <class P> static inline u32 ldu32(const P *p) { u32 b; memcpy(&b, p, 4); return b; }
// value read back from a text format which printed `digits` significant digits
static inline bool textEq(float got, float orig, int digits = 6) {
#ifdef SX
  char nm[5] = {'r', 't', (char)('0' + digits / 10), (char)('0' + digits % 10), 0};
  u32 g = b_of(got), o = b_of(orig);
  return (g == o) | (g == (u32)__sx_uf(nm, 32, o, 0)) | (g == (u32)__sx_uf("rt07", 32, o, 0)) | (g == (u32)__sx_uf("rt08", 32, o, 0));
#else
  if (b_of(got) == b_of(orig) || got == orig) return true;
  double t = std::pow(10.0, -(digits - 1)); return std::fabs((double)got - (double)orig) <= t * std::fabs((double)orig);
#endif
}
// leak check around f, which must not draw inputs
template <class F> static inline void leakfree(F f, const char *msg) {
#ifndef SX
  f();
#endif
  long a = live(); f(); check(live() == a, msg);
}
static inline void put8(Bytes &b, u8 v) { b.push_back(v); }
static inline void put16(Bytes &b, u16 v, bool be = false) { u8 t[2] = {(u8)v, (u8)(v >> 8)}; if (be) std::swap(t[0], t[1]); b.insert(b.end(), t, t + 2); }
static inline void put32(Bytes &b, u32 v, bool be = false) { u8 t[4] = {(u8)v, (u8)(v >> 8), (u8)(v >> 16), (u8)(v >> 24)}; if (be) { std::swap(t[0], t[3]); std::swap(t[1], t[2]); } b.insert(b.end(), t, t + 4); }
static inline void put64(Bytes &b, u64 v, bool be = false) { for (int i = 0; i < 8; i++) b.push_back((u8)(v >> (be ? 56 - 8 * i : 8 * i))); }
static inline void putS(Bytes &b, const char *s, size_t n) { b.insert(b.end(), (const u8 *)s, (const u8 *)s + n); }
static inline u32 get32(const Bytes &b, size_t o, bool be = false) { u32 v = 0; for (int i = 0; i < 4; i++) v |= (u32)b[o + i] << (be ? 24 - 8 * i : 8 * i); return v; }
static inline u16 get16(const Bytes &b, size_t o, bool be = false) { return be ? (u16)(b[o] << 8 | b[o + 1]) : (u16)(b[o + 1] << 8 | b[o]); }
#endif
