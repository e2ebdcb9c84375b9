#include "gz.h"
// P28: gzip streams.  mode 0 writer and reader, 1 any legal header, 2 plain files through the same entry, 3 truncated files
static const int LEN[] = {0, 1, 2, 3, 504, 507, 508, 509, 512, 513, 1016, 1020, 1021, 1524, 4096, 5000};
void harness() {
  int mode = cfgi("mode", 0), how = cfgi("how", -1);
  Str f = path("a.gz");
  if (mode == 0) {
    int n = cfgi("len", -1); if (n < 0) n = LEN[choice("len", 16)];
    Bytes p = symBytes("payload", (size_t)n);
    int cut = choice("writes", 4); // in one go, byte by byte, with a flush in the middle, in chunks with flushes
    std::ostream *o = Gzip_Out(f, std::ios::out | std::ios::binary); check(o && *o, "gzip output stream opens"); if (!o) return;
    const char *d = n ? (const char *)&p[0] : 0;
    if (cut == 0) { if (n) o->write(d, n); }
    else if (cut == 1) for (int i = 0; i < n; i++) o->put(d[i]);
    else if (cut == 2) { int h = n / 2; if (h) o->write(d, h); o->flush(); if (n - h) o->write(d + h, n - h); }
    else for (int i = 0; i < n; i += 300) { o->write(d + i, std::min(300, n - i)); o->flush(); }
    check(!o->fail(), "gzip output succeeds"); delete o;
    Bytes raw = slurp(f); check(raw.size() >= 18 && raw[0] == 0x1f && raw[1] == 0x8b && raw[2] == 8, "gzip magic and method");
    if (raw.size() >= 18) { check(get32(raw, raw.size() - 4) == (u32)n, "gzip length trailer"); check(get32(raw, raw.size() - 8) == (n ? (u32)crc32(0, &p[0], (uInt)n) : 0u), "gzip crc trailer"); }
    std::istream *i = Gzip_In(f, std::ios::in | std::ios::binary); check(i != 0, "gzip input stream opens"); if (!i) return;
    Bytes g = drain(*i, how < 0 ? choice("reads", 3) : how, 100 + 412 * choice("chunk", 2)); sameBytes(g, p, "what is read is what was written"); delete i;
  } else if (mode == 1 || mode == 3) {
    Bytes b; u8 fl = mode == 1 ? (u8)choice("flags", 32) : (u8)(choice("flags3", 2) * 0x1e);
    put8(b, 0x1f); put8(b, 0x8b); put8(b, 8); put8(b, fl); for (int k = 0; k < 6; k++) put8(b, sym8("mtime_xfl_os"));
    if (fl & 4) { int n = mode == 1 ? (int[]){0, 1, 3, 700}[choice("extra", 4)] : 2; put16(b, (u16)n); for (int k = 0; k < n; k++) put8(b, sym8("extra")); }
    for (int q = 3; q <= 4; q++) if (fl & (1 << q)) { int n = mode == 1 ? (int[]){0, 1, 3, 600}[choice("text", cfgi("longtext", 0) ? 4 : 3)] : 2; for (int k = 0; k < n; k++) { u8 c = k % 50 ? 'n' : sym8("text"); assume(c != 0); put8(b, c); } put8(b, 0); }
    if (fl & 2) put16(b, sym16("hcrc"));
    int n = mode == 3 ? 6 : (int[]){0, 5, 600}[choice("len", 3)]; if (mode == 3 && cfgi("len", 0)) n = cfgi("len", 0);
    Bytes p = symBytes("payload", (size_t)n); deflateStored(b, p, mode == 3 ? 4 + (size_t)n / 3 : (size_t)(choice("block", 2) ? 65535 : 3 + n / 3));
    gzTrailer(b, p);
    if (mode == 3) { int lo = cfgi("lo", 0); size_t c = (size_t)(lo + choice("cut", std::min(cfgi("span", 1000000), (int)b.size() - lo))); b.resize(c); }
    spit(f, b);
    std::istream *i = Gzip_In(f, std::ios::in | std::ios::binary); check(i != 0, "gzip input stream opens"); if (!i) return;
    Bytes g = drain(*i, how < 0 ? choice("reads", 3) : how);
    if (mode == 1) sameBytes(g, p, "a gzip file with any legal header decodes to its payload");
    else { // payload so far, or the bytes of a file too short to be a gzip file
      bool ok = g.size() <= p.size(); for (size_t k = 0; k < g.size() && k < p.size(); k++) ok = ok & (g[k] == p[k]);
      bool raw = g.size() <= b.size(); for (size_t k = 0; k < g.size() && k < b.size(); k++) raw = raw & (g[k] == b[k]);
      check(b.size() < 20 ? (bool)(ok | raw) : ok, "a truncated gzip file gives a prefix of its payload"); check(i->fail() || i->eof(), "a truncated gzip file ends the stream");
    }
    delete i;
  } else if (mode == 2) {
    int n = (int[]){2, 3, 9, 10, 11, 600, 5000}[choice("len", 7)]; Bytes p = symBytes("payload", (size_t)n);
    assume(p[0] != 0x1f || p[1] != 0x8b);
    spit(f, p); std::istream *i = Gzip_In(f, std::ios::in | std::ios::binary); check(i != 0, "stream opens"); if (!i) return;
    sameBytes(drain(*i, how < 0 ? choice("reads", 3) : how), p, "an uncompressed file is passed through"); delete i;
  }
  cover("end");
}
