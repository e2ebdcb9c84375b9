// Reference gzip encoder: RFC 1952 header, stored deflate blocks (RFC 1951), trailer.
#ifndef GZ_H
#define GZ_H
#include "h.h"
#include <zlib.h>
#include "io/ZIP.h"
static inline void deflateStored(Bytes &b, const Bytes &p, size_t block = 65535) {
  size_t o = 0; do { size_t k = std::min(block, p.size() - o); put8(b, o + k == p.size()); put16(b, (u16)k); put16(b, (u16)~k); b.insert(b.end(), p.begin() + o, p.begin() + o + k); o += k; } while (o < p.size());
}
static inline void gzTrailer(Bytes &b, const Bytes &p) { put32(b, p.empty() ? 0 : (u32)crc32(0, &p[0], (uInt)p.size())); put32(b, (u32)p.size()); }
static inline Bytes symBytes(const char *n, size_t k) { Bytes b(k); for (size_t i = 0; i < k; i++) b[i] = sym8(n); return b; }
// all that a stream gives, read in one of several ways
static inline Bytes drain(std::istream &s, int how, int chunk = 100) {
  Bytes b;
  if (how == 0) { char c; while (s.get(c)) b.push_back((u8)c); }
  else if (how == 1) { std::vector<char> t((size_t)chunk); for (;;) { s.read(&t[0], chunk); std::streamsize g = s.gcount(); b.insert(b.end(), (u8 *)&t[0], (u8 *)&t[0] + g); if (g < chunk) break; } }
  else { // look ahead, take, and put back up to four bytes now and then
    char c; int k = 0;
    while (s.peek() != EOF && s.get(c)) { b.push_back((u8)c); if (++k % 7 == 0) for (int u = 0; u < 1 + k % 3; u++) { s.unget(); if (!s) return b; b.pop_back(); } }
  }
  return b;
}
static inline void sameBytes(const Bytes &got, const Bytes &want, const char *msg) { check(got.size() == want.size(), msg); if (got.size() != want.size()) return; bool same = true; for (size_t i = 0; i < want.size(); i++) same &= got[i] == want[i]; check(same, msg); }
#endif
