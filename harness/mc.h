// Reference encoder of Maya nCache (.mc) particle files: big-endian IFF chunks.
#ifndef MC_H
#define MC_H
#include "h.h"
struct McArray { Str name; bool vec; std::vector<u64> d; std::vector<u32> f; u32 n; const char *type; }; // bit patterns
static inline void mcTag(Bytes &b, const char *t) { putS(b, t, 4); }
// nul: whether the stored name length counts a terminator
static inline Bytes mcFile(const std::vector<McArray> &as, bool nul, int ticks = 0) {
  Bytes body; mcTag(body, "MYCH");
  for (auto &a : as) {
    mcTag(body, "CHNM"); u32 len = (u32)a.name.size() + (nul ? 1 : 0); put32(body, len, true); putS(body, a.name.c_str(), a.name.size()); for (u32 i = (u32)a.name.size(); i < ((len + 3) & ~3u); i++) put8(body, 0);
    mcTag(body, "SIZE"); put32(body, 4, true); put32(body, a.n, true); mcTag(body, a.type ? a.type : a.vec ? "FVCA" : "DBLA");
    if (a.vec) { put32(body, (u32)a.f.size() * 4, true); for (u32 v : a.f) put32(body, v, true); } else { put32(body, (u32)a.d.size() * 8, true); for (u64 v : a.d) put64(body, v, true); }
  }
  Bytes b; mcTag(b, "FOR4"); put32(b, 40, true); mcTag(b, "CACH"); mcTag(b, "VRSN"); put32(b, 4, true); mcTag(b, "0.1"); mcTag(b, "STIM"); put32(b, 4, true); put32(b, (u32)ticks, true); mcTag(b, "ETIM"); put32(b, 4, true); put32(b, (u32)ticks, true);
  mcTag(b, "FOR4"); put32(b, (u32)body.size(), true); b.insert(b.end(), body.begin(), body.end()); return b;
}
#endif
