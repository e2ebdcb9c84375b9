// In-memory model of the C++ stream library (char streams only), used when
// the code is executed symbolically.  Files live in a table, numbers printed
// from symbolic values become opaque tokens that parse back to the value.
#ifndef SX_STREAMS_H
#define SX_STREAMS_H
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <exception>
#include <bits/localefwd.h>
#include <bits/char_traits.h>
#include <bits/exception_ptr.h>
#include <system_error>

extern "C" {
unsigned long long __sx_input(const char *name, int bits);
int __sx_choice(const char *name, int n);
void __sx_assume(int c);
void __sx_check(int c, const char *msg);
void __sx_cover(const char *tag);
int __sx_is_symbolic(unsigned long long v);
unsigned long long __sx_pick(unsigned long long v);
unsigned long long __sx_uf(const char *name, int bits, unsigned long long a, unsigned long long b);
long __sx_live(void);
void __sx_unsupported(const char *msg);
void __sx_note(const char *msg);
int __sx_cfg(const char *key, int def);
int __sx_decide(unsigned long long c);
unsigned long long __sx_uninit(int bits);
int __sx_format(char *buf, int cap, int kind, unsigned long long bits, int prec, int ff);
unsigned long long __sx_parse(const char *s, int kind);
void __sx_print(const char *m, unsigned long long v);
void *__sx_ialloc(unsigned long n);
void __sx_ifree(void *p);
}

namespace std {

class locale {
public:
  class facet { public: virtual ~facet() {} explicit facet(size_t = 0) {} };
  class id {};
  typedef int category;
  static const category none = 0, ctype = 1, numeric = 2, collate = 4, time = 8, monetary = 16, messages = 32, all = 63;
  int kind_; // 0: the classic "C" locale, 1: decimal comma and digit grouping
  locale() noexcept;
  locale(const locale &o) noexcept : kind_(o.kind_) {}
  explicit locale(const char *n);
  explicit locale(const string &n) : locale(n.c_str()) {}
  locale(const locale &o, const char *n, category c) : kind_(o.kind_) { if (c & numeric) kind_ = locale(n).kind_; }
  locale(const locale &o, const locale &p, category c) : kind_((c & numeric) ? p.kind_ : o.kind_) {}
  template <class F> locale(const locale &o, F *f) : kind_(f ? 1 : o.kind_) {}
  struct foreign_tag {};
  explicit locale(foreign_tag) : kind_(1) {}
  const locale &operator=(const locale &o) noexcept { kind_ = o.kind_; return *this; }
  bool operator==(const locale &o) const { return kind_ == o.kind_; }
  bool operator!=(const locale &o) const { return kind_ != o.kind_; }
  string name() const { return kind_ ? "*" : "C"; }
  static const locale &classic();
  static locale global(const locale &l);
};
struct ctype_base { typedef unsigned short mask; };
template <class C> inline bool isspace(C c, const locale &) { return c == ' ' || (c >= 9 && c <= 13); }
template <class C> inline bool isdigit(C c, const locale &) { return c >= '0' && c <= '9'; }
template <class C> inline C toupper(C c, const locale &) { return (c >= 'a' && c <= 'z') ? C(c - 32) : c; }
template <class C> inline C tolower(C c, const locale &) { return (c >= 'A' && c <= 'Z') ? C(c + 32) : c; }
template <class C> inline bool isalpha(C c, const locale &) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
template <class C> inline bool isalnum(C c, const locale &l) { return isalpha(c, l) || isdigit(c, l); }
template <class C> inline bool isupper(C c, const locale &) { return c >= 'A' && c <= 'Z'; }
template <class C> inline bool islower(C c, const locale &) { return c >= 'a' && c <= 'z'; }

class ios_base {
public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir; typedef int io_state; typedef int open_mode; typedef int seek_dir;
  typedef std::streampos streampos; typedef std::streamoff streamoff;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static const iostate badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public system_error { public: explicit failure(const string &s, const error_code & = error_code()); explicit failure(const char *s, const error_code & = error_code()); virtual ~failure() noexcept; virtual const char *what() const noexcept; };
  class Init { public: Init() {} ~Init() {} };
  enum event { erase_event, imbue_event, copyfmt_event };
  typedef void (*event_callback)(event, ios_base &, int);
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize p) { streamsize o = width_; width_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  locale imbue(const locale &l) { locale o = loc_; loc_ = l; return o; }
  locale getloc() const { return loc_; }
  virtual ~ios_base() {}
  fmtflags fl_; streamsize prec_, width_; locale loc_; iostate st_, exc_;
protected:
  ios_base() : fl_(skipws | dec), prec_(6), width_(0), st_(goodbit), exc_(goodbit) {}
private:
  ios_base(const ios_base &); ios_base &operator=(const ios_base &);
};
enum class io_errc { stream = 1 };

inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }

template <> class basic_streambuf<char, char_traits<char>> {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  virtual ~basic_streambuf();
  locale pubimbue(const locale &l) { locale o = loc_; imbue(l); loc_ = l; return o; }
  locale getloc() const { return loc_; }
  basic_streambuf *pubsetbuf(char *s, streamsize n) { return setbuf(s, n); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
  pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekpos(p, m); }
  int pubsync() { return sync(); }
  streamsize in_avail() { return gp_ < ge_ ? ge_ - gp_ : showmanyc(); }
  int_type snextc() { if (sbumpc() == traits_type::eof()) return traits_type::eof(); return sgetc(); }
  int_type sbumpc() { if (gp_ < ge_) return traits_type::to_int_type(*gp_++); return uflow(); }
  int_type sgetc() { if (gp_ < ge_) return traits_type::to_int_type(*gp_); return underflow(); }
  streamsize sgetn(char *s, streamsize n) { return xsgetn(s, n); }
  int_type sputbackc(char c) { if (gb_ < gp_ && traits_type::eq(c, gp_[-1])) return traits_type::to_int_type(*--gp_); return pbackfail(traits_type::to_int_type(c)); }
  int_type sungetc() { if (gb_ < gp_) return traits_type::to_int_type(*--gp_); return pbackfail(); }
  int_type sputc(char c) { if (pp_ < pe_) { *pp_++ = c; return traits_type::to_int_type(c); } return overflow(traits_type::to_int_type(c)); }
  streamsize sputn(const char *s, streamsize n) { return xsputn(s, n); }
  void stossc() { if (gp_ < ge_) ++gp_; else uflow(); }
  // protected in the standard; public here so that helper templates can use it
  basic_streambuf() : gb_(0), gp_(0), ge_(0), pb_(0), pp_(0), pe_(0) {}
  basic_streambuf(const basic_streambuf &) = default;
  basic_streambuf &operator=(const basic_streambuf &) = default;
  void swap(basic_streambuf &o) { basic_streambuf t(o); o = *this; *this = t; }
  char *eback() const { return gb_; } char *gptr() const { return gp_; } char *egptr() const { return ge_; }
  void gbump(int n) { gp_ += n; } void __safe_gbump(streamsize n) { gp_ += n; }
  void setg(char *b, char *n, char *e) { gb_ = b; gp_ = n; ge_ = e; }
  char *pbase() const { return pb_; } char *pptr() const { return pp_; } char *epptr() const { return pe_; }
  void pbump(int n) { pp_ += n; } void __safe_pbump(streamsize n) { pp_ += n; }
  void setp(char *b, char *e) { pb_ = pp_ = b; pe_ = e; }
protected:
  virtual void imbue(const locale &) {}
  virtual basic_streambuf *setbuf(char *, streamsize) { return this; }
  virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
  virtual pos_type seekpos(pos_type, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
  virtual int sync() { return 0; }
  virtual streamsize showmanyc() { return 0; }
  virtual streamsize xsgetn(char *s, streamsize n);
  virtual int_type underflow() { return traits_type::eof(); }
  virtual int_type uflow() { if (underflow() == traits_type::eof()) return traits_type::eof(); return traits_type::to_int_type(*gp_++); }
  virtual int_type pbackfail(int_type = traits_type::eof()) { return traits_type::eof(); }
  virtual streamsize xsputn(const char *s, streamsize n);
  virtual int_type overflow(int_type = traits_type::eof()) { return traits_type::eof(); }
public:
  char *gb_, *gp_, *ge_, *pb_, *pp_, *pe_; locale loc_;
};

template <> class basic_ios<char, char_traits<char>> : public ios_base {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_ios(streambuf *b) : sb_(0), tie_(0), fill_(' ') { init(b); }
  virtual ~basic_ios() {}
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = sb_ ? s : (s | badbit); if (exc_ & st_) throw_(); }
  void setstate(iostate s) { clear(st_ | s); }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (badbit | failbit); } bool bad() const { return st_ & badbit; }
  iostate exceptions() const { return exc_; } void exceptions(iostate e) { exc_ = e; clear(st_); }
  ostream *tie() const { return tie_; } ostream *tie(ostream *t) { ostream *o = tie_; tie_ = t; return o; }
  streambuf *rdbuf() const { return sb_; } streambuf *rdbuf(streambuf *b) { streambuf *o = sb_; sb_ = b; clear(); return o; }
  basic_ios &copyfmt(const basic_ios &o) { if (this != &o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; loc_ = o.loc_; tie_ = o.tie_; fill_ = o.fill_; exc_ = o.exc_; } return *this; }
  char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
  locale imbue(const locale &l) { locale o = loc_; ios_base::imbue(l); if (sb_) sb_->pubimbue(l); return o; }
  char narrow(char c, char) const { return c; } char widen(char c) const { return c; }
  void throw_();
  streambuf *sb_; ostream *tie_; char fill_;
protected:
  basic_ios() : sb_(0), tie_(0), fill_(' ') {}
  void init(streambuf *b) { sb_ = b; fl_ = skipws | dec; prec_ = 6; width_ = 0; tie_ = 0; fill_ = ' '; exc_ = goodbit; st_ = b ? goodbit : badbit; loc_ = locale(); }
  void set_rdbuf(streambuf *b) { sb_ = b; }
};

template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_ostream(streambuf *b) { init(b); }
  virtual ~basic_ostream() {}
  class sentry { public: explicit sentry(basic_ostream &o); ~sentry(); explicit operator bool() const { return ok_; } bool ok_; basic_ostream &o_; };
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(long n) { return putInt_((long long)n, true); }
  basic_ostream &operator<<(unsigned long n) { return putInt_((long long)n, false); }
  basic_ostream &operator<<(bool n);
  basic_ostream &operator<<(short n) { return putInt_((fl_ & (oct | hex)) ? (long long)(unsigned short)n : n, true); }
  basic_ostream &operator<<(unsigned short n) { return putInt_(n, false); }
  basic_ostream &operator<<(int n) { return putInt_((fl_ & (oct | hex)) ? (long long)(unsigned int)n : n, true); }
  basic_ostream &operator<<(unsigned int n) { return putInt_(n, false); }
  basic_ostream &operator<<(long long n) { return putInt_(n, true); }
  basic_ostream &operator<<(unsigned long long n) { return putInt_((long long)n, false); }
  basic_ostream &operator<<(double f) { return putDouble_(f); }
  basic_ostream &operator<<(float f) { return putDouble_((double)f); }
  basic_ostream &operator<<(long double f) { return putDouble_((double)f); }
  basic_ostream &operator<<(const void *p) { return putPad_("0x", 2); }
  basic_ostream &operator<<(nullptr_t) { return putPad_("nullptr", 7); }
  basic_ostream &operator<<(streambuf *b);
  basic_ostream &put(char c);
  basic_ostream &write(const char *s, streamsize n);
  basic_ostream &flush();
  pos_type tellp() { return fail() ? pos_type(off_type(-1)) : sb_->pubseekoff(0, ios_base::cur, ios_base::out); }
  basic_ostream &seekp(pos_type p) { if (!fail()) { if (sb_->pubseekpos(p, ios_base::out) == pos_type(off_type(-1))) setstate(failbit); } return *this; }
  basic_ostream &seekp(off_type o, ios_base::seekdir d) { if (!fail()) { if (sb_->pubseekoff(o, d, ios_base::out) == pos_type(off_type(-1))) setstate(failbit); } return *this; }
  basic_ostream &putInt_(long long v, bool sgn);
  basic_ostream &putDouble_(double d);
  basic_ostream &putPad_(const char *s, streamsize n);
protected:
  basic_ostream() {}
};

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_istream(streambuf *b) : gc_(0) { init(b); }
  virtual ~basic_istream() { gc_ = 0; }
  class sentry { public: explicit sentry(basic_istream &i, bool noskip = false); explicit operator bool() const { return ok_; } bool ok_; };
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(bool &n);
  basic_istream &operator>>(short &n) { long long v; if (getInt_(v, -32768, 32767, true)) n = (short)v; return *this; }
  basic_istream &operator>>(unsigned short &n) { long long v; if (getInt_(v, 0, 65535, false)) n = (unsigned short)v; return *this; }
  basic_istream &operator>>(int &n) { long long v; if (getInt_(v, -2147483647LL - 1, 2147483647LL, true)) n = (int)v; return *this; }
  basic_istream &operator>>(unsigned int &n) { long long v; if (getInt_(v, 0, 4294967295LL, false)) n = (unsigned)v; return *this; }
  basic_istream &operator>>(long &n) { long long v; if (getInt_(v, -9223372036854775807LL - 1, 9223372036854775807LL, true)) n = (long)v; return *this; }
  basic_istream &operator>>(unsigned long &n) { long long v; if (getInt_(v, 0, -1, false)) n = (unsigned long)v; return *this; }
  basic_istream &operator>>(long long &n) { long long v; if (getInt_(v, -9223372036854775807LL - 1, 9223372036854775807LL, true)) n = v; return *this; }
  basic_istream &operator>>(unsigned long long &n) { long long v; if (getInt_(v, 0, -1, false)) n = (unsigned long long)v; return *this; }
  basic_istream &operator>>(float &f);
  basic_istream &operator>>(double &f);
  basic_istream &operator>>(long double &f) { double d; if (*this >> d) f = d; return *this; }
  basic_istream &operator>>(void *&p) { __sx_unsupported("istream >> void*"); return *this; }
  basic_istream &operator>>(streambuf *b);
  streamsize gcount() const { return gc_; }
  int_type get();
  basic_istream &get(char &c);
  basic_istream &get(char *s, streamsize n) { return get(s, n, '\n'); }
  basic_istream &get(char *s, streamsize n, char delim);
  basic_istream &get(streambuf &b, char delim = '\n');
  basic_istream &getline(char *s, streamsize n) { return getline(s, n, '\n'); }
  basic_istream &getline(char *s, streamsize n, char delim);
  basic_istream &ignore(streamsize n = 1, int_type delim = -1);
  int_type peek();
  basic_istream &read(char *s, streamsize n);
  streamsize readsome(char *s, streamsize n);
  basic_istream &putback(char c);
  basic_istream &unget();
  int sync() { if (!sb_) return -1; if (sb_->pubsync() == -1) { setstate(badbit); return -1; } return 0; }
  pos_type tellg();
  basic_istream &seekg(pos_type p);
  basic_istream &seekg(off_type o, ios_base::seekdir d);
  bool getInt_(long long &v, long long mn, long long mx, bool sgn);
  bool getFloat_(double &d, float &f, bool isf);
  streamsize gc_;
protected:
  basic_istream() : gc_(0) {}
};

template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>> {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_iostream(streambuf *b) : istream(b), ostream() { init(b); }
  virtual ~basic_iostream() {}
protected:
  basic_iostream() {}
};

ostream &operator<<(ostream &o, char c);
inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
ostream &operator<<(ostream &o, const char *s);
inline ostream &operator<<(ostream &o, const signed char *s) { return o << (const char *)s; }
inline ostream &operator<<(ostream &o, const unsigned char *s) { return o << (const char *)s; }
inline ostream &operator<<(ostream &o, const string &s) { return o.putPad_(s.data(), (streamsize)s.size()); }
template <class C, class T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
template <class C, class T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
template <class C, class T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
istream &operator>>(istream &i, char &c);
inline istream &operator>>(istream &i, signed char &c) { return i >> (char &)c; }
inline istream &operator>>(istream &i, unsigned char &c) { return i >> (char &)c; }
istream &operator>>(istream &i, char *s);
inline istream &operator>>(istream &i, unsigned char *s) { return i >> (char *)s; }
istream &sx_ws_(istream &i);
template <class C, class T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { return static_cast<basic_istream<C, T> &>(sx_ws_(i)); }
#if __cplusplus >= 201103L
template <class S, class T> inline typename enable_if<is_base_of<ios_base, S>::value && !is_same<S, ostream>::value && !is_lvalue_reference<S>::value, ostream &>::type operator<<(S &&s, const T &v) { ostream &o = s; o << v; return o; }
template <class S, class T> inline typename enable_if<is_base_of<ios_base, S>::value && !is_same<S, istream>::value && !is_lvalue_reference<S>::value, istream &>::type operator>>(S &&s, T &&v) { istream &i = s; i >> v; return i; }
#endif

struct SxSetW_ { int n; }; struct SxSetP_ { int n; }; struct SxFill_ { char c; }; struct SxBase_ { int b; }; struct SxFlag_ { ios_base::fmtflags f; }; struct SxRFlag_ { ios_base::fmtflags f; };
inline SxSetW_ setw(int n) { return SxSetW_{n}; } inline SxSetP_ setprecision(int n) { return SxSetP_{n}; } inline SxFill_ setfill(char c) { return SxFill_{c}; } inline SxBase_ setbase(int b) { return SxBase_{b}; }
inline SxFlag_ setiosflags(ios_base::fmtflags f) { return SxFlag_{f}; } inline SxRFlag_ resetiosflags(ios_base::fmtflags f) { return SxRFlag_{f}; }
inline ostream &operator<<(ostream &o, SxSetW_ m) { o.width(m.n); return o; } inline istream &operator>>(istream &o, SxSetW_ m) { o.width(m.n); return o; }
inline ostream &operator<<(ostream &o, SxSetP_ m) { o.precision(m.n); return o; } inline ostream &operator<<(ostream &o, SxFill_ m) { o.fill(m.c); return o; }
inline ostream &operator<<(ostream &o, SxBase_ m) { o.setf(m.b == 16 ? ios_base::hex : m.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
inline istream &operator>>(istream &o, SxBase_ m) { o.setf(m.b == 16 ? ios_base::hex : m.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
inline ostream &operator<<(ostream &o, SxFlag_ m) { o.setf(m.f); return o; } inline ostream &operator<<(ostream &o, SxRFlag_ m) { o.unsetf(m.f); return o; }

extern istream cin; extern ostream cout, cerr, clog;

namespace __cxx11 {
template <> class basic_stringbuf<char, char_traits<char>, allocator<char>> : public basic_streambuf<char, char_traits<char>> {
public:
  explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : m_(m), gpos_(0), ppos_(0) {}
  explicit basic_stringbuf(const string &s, ios_base::openmode m = ios_base::in | ios_base::out) : m_(m), gpos_(0), ppos_(0) { str(s); }
  string str() const { return s_; }
  void str(const string &s) { s_ = s; gpos_ = 0; ppos_ = (m_ & (ios_base::ate | ios_base::app)) ? s.size() : 0; if (m_ & ios_base::in) sync_(); else setg(0, 0, 0); }
  void sync_() { char *b = &s_[0]; setg(b, b + gpos_, b + s_.size()); }
protected:
  virtual int_type underflow();
  virtual int_type overflow(int_type c = -1);
  virtual streamsize xsputn(const char *s, streamsize n);
  virtual int_type pbackfail(int_type c = -1) { if (gp_ > gb_) { --gp_; if (c != -1) *gp_ = (char)c; return c == -1 ? 0 : c; } return -1; }
  virtual streampos seekoff(streamoff o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out);
  virtual streampos seekpos(streampos p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(p, ios_base::beg, m); }
  string s_; ios_base::openmode m_; size_t gpos_, ppos_;
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char, char_traits<char>> {
public:
  explicit basic_istringstream(ios_base::openmode m = ios_base::in) : b_(m | ios_base::in) { init(&b_); }
  explicit basic_istringstream(const string &s, ios_base::openmode m = ios_base::in) : b_(s, m | ios_base::in) { init(&b_); }
  stringbuf *rdbuf() const { return const_cast<stringbuf *>(&b_); } string str() const { return b_.str(); } void str(const string &s) { b_.str(s); }
  stringbuf b_;
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char, char_traits<char>> {
public:
  explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : b_(m | ios_base::out) { init(&b_); }
  explicit basic_ostringstream(const string &s, ios_base::openmode m = ios_base::out) : b_(s, m | ios_base::out) { init(&b_); }
  stringbuf *rdbuf() const { return const_cast<stringbuf *>(&b_); } string str() const { return b_.str(); } void str(const string &s) { b_.str(s); }
  stringbuf b_;
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char, char_traits<char>> {
public:
  explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) : b_(m) { init(&b_); }
  explicit basic_stringstream(const string &s, ios_base::openmode m = ios_base::in | ios_base::out) : b_(s, m) { init(&b_); }
  stringbuf *rdbuf() const { return const_cast<stringbuf *>(&b_); } string str() const { return b_.str(); } void str(const string &s) { b_.str(s); }
  stringbuf b_;
};
}

struct SxFile; // file table entry (runtime)
template <> class basic_filebuf<char, char_traits<char>> : public basic_streambuf<char, char_traits<char>> {
public:
  basic_filebuf() : f_(0), m_(0), pos_(0), snap_(0), snapn_(0), wr_(0), wn_(0), wcap_(0) {}
  virtual ~basic_filebuf() { close(); }
  bool is_open() const { return f_ != 0; }
  basic_filebuf *open(const char *n, ios_base::openmode m);
  basic_filebuf *open(const string &n, ios_base::openmode m) { return open(n.c_str(), m); }
  basic_filebuf *close();
protected:
  virtual int_type underflow();
  virtual int_type overflow(int_type c = -1);
  virtual int_type pbackfail(int_type c = -1) { if (gp_ > gb_) { --gp_; if (c != -1) *gp_ = (char)c; return c == -1 ? 0 : c; } return -1; }
  virtual streamsize xsputn(const char *s, streamsize n);
  virtual streampos seekoff(streamoff o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out);
  virtual streampos seekpos(streampos p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(p, ios_base::beg, m); }
  virtual int sync();
  void snapshot_(); bool flush_();
  SxFile *f_; ios_base::openmode m_; long pos_; char *snap_; long snapn_; char *wr_; long wn_, wcap_;
};
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char, char_traits<char>> {
public:
  basic_ifstream() { init(&b_); }
  explicit basic_ifstream(const char *n, ios_base::openmode m = ios_base::in) { init(&b_); open(n, m); }
  explicit basic_ifstream(const string &n, ios_base::openmode m = ios_base::in) { init(&b_); open(n.c_str(), m); }
  filebuf *rdbuf() const { return const_cast<filebuf *>(&b_); } bool is_open() const { return b_.is_open(); }
  void open(const char *n, ios_base::openmode m = ios_base::in) { if (!b_.open(n, m | ios_base::in)) setstate(failbit); else clear(); }
  void open(const string &n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  void close() { if (!b_.close()) setstate(failbit); }
  filebuf b_;
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char, char_traits<char>> {
public:
  basic_ofstream() { init(&b_); }
  explicit basic_ofstream(const char *n, ios_base::openmode m = ios_base::out) { init(&b_); open(n, m); }
  explicit basic_ofstream(const string &n, ios_base::openmode m = ios_base::out) { init(&b_); open(n.c_str(), m); }
  filebuf *rdbuf() const { return const_cast<filebuf *>(&b_); } bool is_open() const { return b_.is_open(); }
  void open(const char *n, ios_base::openmode m = ios_base::out) { if (!b_.open(n, m | ios_base::out)) setstate(failbit); else clear(); }
  void open(const string &n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
  void close() { if (!b_.close()) setstate(failbit); }
  filebuf b_;
};
template <> class basic_fstream<char, char_traits<char>> : public basic_iostream<char, char_traits<char>> {
public:
  basic_fstream() { init(&b_); }
  explicit basic_fstream(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { init(&b_); open(n, m); }
  explicit basic_fstream(const string &n, ios_base::openmode m = ios_base::in | ios_base::out) { init(&b_); open(n.c_str(), m); }
  filebuf *rdbuf() const { return const_cast<filebuf *>(&b_); } bool is_open() const { return b_.is_open(); }
  void open(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { if (!b_.open(n, m)) setstate(failbit); else clear(); }
  void open(const string &n, ios_base::openmode m = ios_base::in | ios_base::out) { open(n.c_str(), m); }
  void close() { if (!b_.close()) setstate(failbit); }
  filebuf b_;
};
} // namespace std
#endif
