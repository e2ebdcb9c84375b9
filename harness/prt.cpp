#include "ref.h"
// P34: PRT files of other applications: all channel types, arities, offsets and orders
static const int SZ[11] = {2, 4, 8, 2, 4, 8, 2, 4, 8, 1, 1};
static bool isInt(int t) { return t < 3 || t > 5; }
// the value of a half float, from its definition
static u32 halfBits(u16 h) {
  u32 s = (u32)(h >> 15) << 31, e = h >> 10 & 31, f = h & 1023;
  if (e == 31) return s | 0x7f800000u | f << 13; if (e) return s | (e + 112) << 23 | f << 13;
  if (!f) return s; u32 k = 0; while (!(f & 1024)) { f <<= 1; k++; } return s | (113 - k) << 23 | (f & 1023) << 13;
}
void harness() {
  std::ostringstream err; Opts o; o.any = true; int n = cfgi("nmin", 0) + choice("particles", cfgi("nmax", 2) - cfgi("nmin", 0) + 1), nch = cfgi("channels", 2), half = cfgi("half", 0);
  struct Ch { int type, arity; u32 off; Str name; std::vector<u64> v; }; std::vector<Ch> ch;
  static const int AR[] = {1, 3, 2, 4, 16};
  for (int i = 0; i < nch; i++) { Ch c; c.type = half ? 3 : cfgi("type", -1) >= 0 ? (cfgi("type", 0) + 4 * i) % 11 : choice("type", 11); c.arity = half ? 1 : AR[(cfgi("arity", 0) + i * cfgi("arstep", 1)) % 5]; c.name = i == 0 ? "Position" : i == 1 ? "id" : i == 2 ? "Velocity" : "x"; c.off = 0; ch.push_back(c); }
  // offsets: channels in the file's order or the reverse, with gaps
  u32 off = 0; bool rev = half ? false : choice("reverse", 2); int gap = half ? 3 : choice("gap", 2) * 3; for (int i = 0; i < nch; i++) { Ch &c = ch[rev ? nch - 1 - i : i]; if (gap && (i || rev)) off += (u32)gap; c.off = off; off += (u32)(SZ[c.type] * c.arity); }
  u32 headsize = 56 + 8 * (u32)(half ? 1 : choice("bighead", 2)), chansize = 44 + 4 * (u32)(half ? 0 : choice("bigchan", 2));
  for (auto &c : ch) for (int i = 0; i < n * c.arity; i++) {
    u64 v; if (half) { v = (u64)choice("high", 64) << 10 | inp("low", 10); } else if (c.type == 3) { v = (u64)(i % 64) * 1031 + 7; } // the table itself is looked at with half=1
    else { v = inp("value", 8 * SZ[c.type]); if (c.type == 5) { assume((v & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); } }
    c.v.push_back(v);
  }
  Bytes p((size_t)off * (size_t)n); for (auto &b : p) b = 0xee; for (int i = 0; i < n; i++) for (auto &c : ch) for (int k = 0; k < c.arity; k++) for (int q = 0; q < SZ[c.type]; q++) p[(size_t)i * off + c.off + (size_t)(k * SZ[c.type] + q)] = (u8)(c.v[i * c.arity + k] >> (8 * q));
  Bytes b = prtHead((u64)n, (u32)nch, o, headsize, chansize); for (auto &c : ch) { prtChan(b, c.name, (u32)c.type, (u32)c.arity, c.off); for (u32 i = 44; i < chansize; i++) put8(b, sym8("ignored")); } Bytes z = zdeflate(p); b.insert(b.end(), z.begin(), z.end());
  Str f = path("a.prt"); spit(f, b); ParticlesDataMutable *r = read(f.c_str(), true, err); check(r != 0, "a well-formed PRT file is read"); if (!r) return; ParticlesInfo *h = readHeaders(f.c_str(), true, err); check(h != 0, "its headers are read"); if (!h) return;
  sameInfo(h, r); check(r->numParticles() == n && r->numAttributes() == nch, "particles and channels"); if (r->numParticles() != n) return;
  for (int j = 0; j < nch; j++) {
    Ch &c = ch[j]; ParticleAttribute a; Str nm = c.name; if (nm[0] >= 'A' && nm[0] <= 'Z') nm[0] = (char)(nm[0] + 32); bool ok = r->attributeInfo(nm.c_str(), a); check(ok, "attribute named after the channel"); if (!ok) return;
    check(a.count == c.arity && a.type == (isInt(c.type) ? INT : c.arity == 3 ? VECTOR : FLOAT), "attribute type and count");
    for (int i = 0; i < n; i++) for (int k = 0; k < c.arity; k++) {
      u64 v = c.v[i * c.arity + k]; u32 got = ldu32(r->data<float>(a, i) + k), want;
      switch (c.type) { case 0: want = (u32)(int)(short)v; break; case 1: case 2: case 7: case 8: want = (u32)v; break; case 6: want = (u16)v; break; case 9: want = (u32)(int)(signed char)v; break; case 10: want = (u8)v; break; case 3: want = half ? 0 : halfBits((u16)v); break; case 4: want = (u32)v; break; default: want = b_of((float)d_of(v)); }
      if (half) { u16 hv = (u16)v; u32 e = hv >> 10 & 31; // decided per sign and exponent; the fraction is free
        u32 s = (u32)(hv >> 15) << 31, f = hv & 1023; if (e == 31) { check(f == 0 ? got == (s | 0x7f800000u) : (got & 0x7f800000u) == 0x7f800000u && (got & 0x7fffffu) != 0, "half infinity or NaN"); } else if (e) check(got == (s | (e + 112) << 23 | f << 13), "half float value"); else { // f / 2^24
          u32 w = b_of((float)(int)f); w = f ? w - (24u << 23) : 0; check(got == (s | w), "subnormal half float value"); } }
      else if ((c.type == 3) && (want & 0x7f800000u) == 0x7f800000u && (want & 0x7fffffu)) check((got & 0x7f800000u) == 0x7f800000u && (got & 0x7fffffu) != 0, "half NaN"); else check(got == want, "channel value");
    }
  }
  r->release(); h->release(); cover("end");
}
