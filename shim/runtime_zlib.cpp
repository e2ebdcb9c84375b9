// zlib for symbolic execution.  The compressor emits genuine RFC 1951 stored
// blocks (so that files produced here are readable by the real zlib) and
// chooses, per stream, whether it emits as it goes or holds everything back
// until the final call.  The decompressor understands stored blocks.
// crc32 over symbolic bytes is an uninterpreted step function.
#include <zlib.h>
#include <cstring>
#include <cstdlib>
#include "sx_streams.h"

struct DState { unsigned char *buf; long n, cap; unsigned char *out; long on, op, ocap; int hold, finished, wrap; unsigned adler; };
struct IState { int st; int final_; unsigned len, cnt; unsigned char hdr[4]; int wrap; };

extern "C" {
static void oput(DState *s, const unsigned char *p, long n) {
  if (s->on + n > s->ocap) { long c = s->on + n + 1024; unsigned char *d = (unsigned char *)malloc((unsigned long)c); if (s->on) memcpy(d, s->out, (size_t)s->on); free(s->out); s->out = d; s->ocap = c; }
  if (n) memcpy(s->out + s->on, p, (size_t)n); s->on += n;
}
static void block(DState *s, int fin) { // one stored block from the pending input
  do {
    long k = s->n > 65535 ? 65535 : s->n; unsigned char h[5] = {(unsigned char)(fin && k == s->n ? 1 : 0), (unsigned char)(k & 255), (unsigned char)(k >> 8), (unsigned char)(~k & 255), (unsigned char)((~k >> 8) & 255)};
    oput(s, h, 5); oput(s, s->buf, k); if (k < s->n) memmove(s->buf, s->buf + k, (size_t)(s->n - k)); s->n -= k;
  } while (s->n);
}
static unsigned adlerstep(unsigned a, unsigned char b) { if (__sx_is_symbolic(a) || __sx_is_symbolic(b)) return (unsigned)__sx_uf("adlerstep", 32, a, b); unsigned x = ((a & 0xffff) + b) % 65521, y = ((a >> 16) + x) % 65521; return y << 16 | x; }
static int dinit(z_streamp z, int wb) {
  if (wb > 15) __sx_unsupported("deflate with a gzip wrapper");
  DState *s = (DState *)malloc(sizeof(DState)); memset(s, 0, sizeof *s); s->hold = __sx_cfg("hold", -1); if (s->hold < 0) s->hold = __sx_choice("zlib_hold", 2); s->wrap = wb > 0; s->adler = 1;
  if (s->wrap) { unsigned char h[2] = {0x78, 0x01}; oput(s, h, 2); }
  z->state = (struct internal_state *)s; z->msg = 0; z->total_in = z->total_out = 0; return Z_OK;
}
int deflateInit2_(z_streamp z, int, int, int wb, int, int, const char *, int) { return dinit(z, wb); }
int deflateInit_(z_streamp z, int, const char *, int) { return dinit(z, 15); }
int deflate(z_streamp z, int flush) {
  DState *s = (DState *)z->state; if (!s || !z->next_out || (z->avail_in && !z->next_in)) return Z_STREAM_ERROR;
  if (z->avail_out == 0) return Z_BUF_ERROR;
  if (s->finished && (flush != Z_FINISH || z->avail_in)) return s->op < s->on ? Z_BUF_ERROR : Z_STREAM_ERROR;
  bool progress = z->avail_in != 0 || flush != Z_NO_FLUSH || s->op < s->on;
  if (z->avail_in) {
    if (s->n + (long)z->avail_in > s->cap) { long c = s->n + z->avail_in + 1024; unsigned char *d = (unsigned char *)malloc((unsigned long)c); if (s->n) memcpy(d, s->buf, (size_t)s->n); free(s->buf); s->buf = d; s->cap = c; }
    memcpy(s->buf + s->n, z->next_in, z->avail_in); if (s->wrap) for (unsigned i = 0; i < z->avail_in; i++) s->adler = adlerstep(s->adler, z->next_in[i]);
    s->n += z->avail_in; z->next_in += z->avail_in; z->total_in += z->avail_in; z->avail_in = 0;
    if (!s->hold && flush == Z_NO_FLUSH) block(s, 0);
  }
  if (flush == Z_FINISH && !s->finished) { block(s, 1); s->finished = 1; if (s->wrap) { unsigned char t[4] = {(unsigned char)(s->adler >> 24), (unsigned char)(s->adler >> 16), (unsigned char)(s->adler >> 8), (unsigned char)s->adler}; oput(s, t, 4); } }
  else if (flush != Z_NO_FLUSH && flush != Z_FINISH && s->n) block(s, 0);
  long k = s->on - s->op; if (k > (long)z->avail_out) k = z->avail_out;
  if (k) { memcpy(z->next_out, s->out + s->op, (size_t)k); s->op += k; z->next_out += k; z->avail_out -= (unsigned)k; z->total_out += (unsigned long)k; }
  if (s->finished && s->op == s->on) return Z_STREAM_END;
  return progress ? Z_OK : Z_BUF_ERROR;
}
int deflateEnd(z_streamp z) { DState *s = (DState *)z->state; if (!s) return Z_STREAM_ERROR; int r = s->n || s->op < s->on || !s->finished ? Z_DATA_ERROR : Z_OK; free(s->buf); free(s->out); free(s); z->state = 0; return r; }
int inflateInit2_(z_streamp z, int wb, const char *, int) {
  if (wb > 15) __sx_unsupported("inflate with a gzip wrapper");
  IState *s = (IState *)malloc(sizeof(IState)); memset(s, 0, sizeof *s); s->wrap = wb > 0; if (s->wrap) s->st = 5; z->state = (struct internal_state *)s; z->msg = 0; z->total_in = z->total_out = 0; return Z_OK;
}
int inflateInit_(z_streamp z, const char *v, int n) { return inflateInit2_(z, 15, v, n); }
// states: 0 block header, 1 length bytes, 2 data, 3 done, 4 error, 5 zlib header, 6 zlib trailer (its checksum is not verified)
int inflate(z_streamp z, int flush) {
  IState *s = (IState *)z->state; if (!s || !z->next_out || (z->avail_in && !z->next_in)) return Z_STREAM_ERROR;
  unsigned in0 = z->avail_in, out0 = z->avail_out;
  for (;;) {
    if (s->st == 3) return Z_STREAM_END;
    if (s->st == 4) { z->msg = (char *)"invalid data"; return Z_DATA_ERROR; }
    if (s->st == 2) {
      unsigned k = s->len - s->cnt; if (k > z->avail_in) k = z->avail_in; if (k > z->avail_out) k = z->avail_out;
      if (k) { memcpy(z->next_out, z->next_in, k); z->next_out += k; z->next_in += k; z->avail_in -= k; z->avail_out -= k; z->total_in += k; z->total_out += k; s->cnt += k; }
      if (s->cnt == s->len) { s->cnt = 0; s->st = s->final_ ? (s->wrap ? 6 : 3) : 0; if (flush == Z_BLOCK && s->st != 3) return Z_OK; continue; }
      break;
    }
    if (!z->avail_in) break;
    unsigned char c = *z->next_in++; z->avail_in--; z->total_in++;
    if (s->st == 5) {
      s->hdr[s->cnt++] = c;
      if (s->cnt == 2) { s->cnt = 0; if (__sx_decide((((unsigned)s->hdr[0] << 8 | s->hdr[1]) % 31 != 0) | ((s->hdr[0] & 15) != 8) | (s->hdr[0] > 0x78) | ((s->hdr[1] & 32) != 0))) { s->st = 4; continue; } s->st = 0; if (flush == Z_BLOCK) return Z_OK; }
    } else if (s->st == 6) { if (++s->cnt == 4) { s->cnt = 0; s->st = 3; }
    } else if (s->st == 0) {
      c = (unsigned char)__sx_pick(c); unsigned ty = (c >> 1) & 3;
      if (ty == 3) { s->st = 4; continue; }
      if (ty != 0) __sx_unsupported("compressed (not stored) deflate block");
      s->final_ = c & 1; s->cnt = 0; s->st = 1;
    } else {
      s->hdr[s->cnt++] = c;
      if (s->cnt == 4) {
        unsigned l = s->hdr[0] | (s->hdr[1] << 8), m = s->hdr[2] | (s->hdr[3] << 8);
        if (__sx_decide((l ^ 0xffffu) != m)) { s->st = 4; continue; }
        s->len = (unsigned)__sx_pick(l); s->cnt = 0; s->st = 2;
      }
    }
  }
  return (in0 != z->avail_in || out0 != z->avail_out) ? Z_OK : Z_BUF_ERROR;
}
int inflateEnd(z_streamp z) { if (!z->state) return Z_STREAM_ERROR; free(z->state); z->state = 0; return Z_OK; }
uLong crc32(uLong crc, const Bytef *p, uInt n) {
  if (!p) return 0;
  unsigned c = (unsigned)crc;
  for (uInt i = 0; i < n; i++) {
    if (__sx_is_symbolic(c) || __sx_is_symbolic(p[i])) c = (unsigned)__sx_uf("crcstep", 32, c, p[i]);
    else { unsigned x = ~c ^ p[i]; for (int k = 0; k < 8; k++) x = (x >> 1) ^ (0xedb88320u & (0u - (x & 1))); c = ~x; }
  }
  return c;
}
}
