#include "gz.h"
// P29: members added to an archive are listed and read back unchanged; absent members give no stream
static const int LEN[] = {0, 1, 3, 507, 508, 509, 512, 1016, 1017, 1500};
void harness() {
  int vary = cfgi("vary", 1), k = cfgi("members", 2), order = choice("readorder", 2), nlen = cfgi("nlen", 10);
  std::vector<Str> names; std::vector<Bytes> data; Str f = path("a.zip");
  for (int i = 0; i < k; i++) {
    Str n; int l = cfgi("longname", 0) ? cfgi("longname", 0) : 1 + i; for (int j = 0; j < l; j++) { u8 c = j < 3 && i < cfgi("symnames", 2) ? sym8("name") : (u8)('a' + (i + j) % 26); assume(c != 0); n += (char)c; }
    for (auto &o : names) assume(!(n == o));
    names.push_back(n);
    int len = cfgi("len", -1); if (len < 0) len = LEN[choice("len", nlen)];
    data.push_back(symBytes("payload", (size_t)len));
    // bytes that no compressor shortens, holding the archive's own signatures
    if (cfgi("sig", 0) && len >= 507) { u32 x = 2463534242u + (u32)i; for (int q = 12; q < len; q++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; data.back()[(size_t)q] = (u8)(x >> 11); } static const u8 S[] = {0x50, 0x4b, 5, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0x50, 0x4b, 3, 4, 0x50, 0x4b, 1, 2}; for (size_t q = 0; q < sizeof S; q++) data.back()[(size_t)(cfgi("sig", 0) == 1 ? 0 : len - 20) + q] = S[q]; }
  }
  {
    ZipFileWriter w(f);
    for (int i = 0; i < k; i++) { std::ostream *o = w.Add_File(names[i]); check(o != 0, "member stream"); if (!o) return; const Bytes &d = data[i]; size_t h = (vary ? choice("split", 2) : 1) ? d.size() / 2 : 0; if (h) { o->write((const char *)&d[0], (std::streamsize)h); o->flush(); } if (d.size() - h) o->write((const char *)&d[h], (std::streamsize)(d.size() - h)); check(!o->fail(), "member written"); delete o; }
  }
  ZipFileReader r(f);
  std::vector<Str> l; l.push_back("junk"); r.Get_File_List(l); check((int)l.size() == k, "archive lists every member once");
  for (auto &n : names) { bool found = false; for (auto &x : l) found |= x == n; check(found, "member listed by name"); }
  for (int j = 0; j < k; j++) {
    int i = order ? k - 1 - j : j; std::istream *s = r.Get_File(names[i]); check(s != 0, "member opens"); if (!s) return;
    sameBytes(drain(*s, vary ? choice("reads", 3) : 1, 300), data[i], "member reads back as written"); delete s;
  }
  if (cfgi("again", 1) && k) { std::istream *s = r.Get_File(names[0]); check(s != 0, "member opens again"); if (s) { sameBytes(drain(*s, 1, 64), data[0], "member reads back again"); delete s; } }
  Str ab; int al = choice("absentlen", cfgi("absent", 3)); for (int j = 0; j < al; j++) { u8 c = sym8("absent"); assume(c != 0); ab += (char)c; }
  for (auto &n : names) assume(!(ab == n));
  check(r.Get_File(ab) == 0, "absent member gives no stream");
  cover("end");
}
