// Model of the parts of the C and C++ run-time libraries that are not in
// headers.  Interpreted by the symbolic executor together with the code
// under test.
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <string>
#include <new>
#include <map>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>

template class std::__cxx11::basic_string<char>;
typedef unsigned long long u64;
typedef long long i64;

// ------------------------------------------------------------ C strings
// names that the system headers already overload or define inline
extern "C" {
char *sx_strchr(const char *s, int c) __asm__("strchr"); char *sx_strrchr(const char *s, int c) __asm__("strrchr");
void *sx_memchr(const void *p, int c, size_t n) __asm__("memchr"); char *sx_strstr(const char *a, const char *b) __asm__("strstr"); char *sx_strpbrk(const char *s, const char *k) __asm__("strpbrk");
double sx_atof(const char *s) __asm__("atof"); int sx_atoi(const char *s) __asm__("atoi"); long sx_atol(const char *s) __asm__("atol"); long long sx_atoll(const char *s) __asm__("atoll");
}
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && low((unsigned char)*a) == low((unsigned char)*b)) { a++; b++; } return low((unsigned char)*a) - low((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *sx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *sx_strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *sx_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *sx_strstr(const char *a, const char *b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return 0; } }
size_t strspn(const char *s, const char *k) { size_t n = 0; while (s[n] && strchr(k, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *k) { size_t n = 0; while (s[n] && !strchr(k, s[n])) n++; return n; }
char *sx_strpbrk(const char *s, const char *k) { s += strcspn(s, k); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
static char *tokSave;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokSave); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isgraph(int c) { return c > 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int *__errno_location() { static int e; return &e; }
char *getenv(const char *) { return 0; }
char *setlocale(int, const char *) { return (char *)"C"; }
int rand() { static unsigned s = 12345; s = s * 1103515245u + 12345u; return (int)((s >> 16) & 0x7fff); }
void srand(unsigned) {}
time_t time(time_t *t) { if (t) *t = 0; return 0; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = (char *)base; char *t = (char *)__sx_ialloc(sz ? sz : 1);
  for (size_t i = 1; i < n; i++) { size_t j = i; while (j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0) { memcpy(t, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, t, sz); j--; } }
  __sx_ifree(t);
}
double frexp(double x, int *e) {
  union { double d; u64 u; } v; v.d = x; int ex = (int)((v.u >> 52) & 2047);
  if (x == 0 || ex == 2047) { *e = 0; return x; }
  if (!ex) { v.d = x * 18014398509481984.0; ex = (int)((v.u >> 52) & 2047) - 54; }
  *e = ex - 1022; v.u = (v.u & ~(2047ull << 52)) | (1022ull << 52); return v.d;
}
float frexpf(float x, int *e) { return (float)frexp(x, e); }
double ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x *= 0.5; e++; } return x; }
float ldexpf(float x, int e) { return (float)ldexp(x, e); }
double fmin(double a, double b) { return a < b || b != b ? a : b; }
double fmax(double a, double b) { return a > b || b != b ? a : b; }
float fminf(float a, float b) { return a < b || b != b ? a : b; }
float fmaxf(float a, float b) { return a > b || b != b ? a : b; }
}

// ------------------------------------------------------------ number tokens
// A number printed from a symbolic value is written as  \x01 K A B \x02 ,
// an index into this table.
struct SxTok { u64 bits; int kind; int prec; int loc; int ff; }; // kind 0 signed, 1 unsigned, 2 double
static SxTok *toks; static long ntok, captok;
extern "C" u64 __sx_exprid(u64);
// the same value printed the same way gives the same text
static struct { u64 id; int idx; } tokTab[8192];
static int sxTokAdd(const SxTok &t);
static int sxTokNew(const SxTok &t) {
  u64 id = __sx_exprid(t.bits), h = (id * 0x9e3779b97f4a7c15ull) >> 51;
  for (;; h = (h + 1) & 8191) {
    if (!tokTab[h].idx) break;
    const SxTok &o = toks[tokTab[h].idx - 1];
    if (tokTab[h].id == id && o.kind == t.kind && o.prec == t.prec && o.loc == t.loc && o.ff == t.ff) return tokTab[h].idx - 1;
  }
  int i = sxTokAdd(t); tokTab[h].id = id; tokTab[h].idx = i + 1; return i;
}
static int sxTokAdd(const SxTok &t) {
  if (ntok == captok) { long c = captok ? captok * 2 : 32; SxTok *n = (SxTok *)__sx_ialloc(c * sizeof(SxTok)); for (long i = 0; i < ntok; i++) n[i] = toks[i]; __sx_ifree(toks); toks = n; captok = c; }
  toks[ntok] = t; return (int)ntok++;
}
static char sxTokC(int v) { return (char)(v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : '0' + v - 52); }
static int sxTokV(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : -100000; }
static int sxTokText(char *b, const SxTok &t) { int i = sxTokNew(t); b[0] = 1; b[1] = 'n'; b[2] = sxTokC(i / 62 % 62); b[3] = sxTokC(i % 62); b[4] = 2; b[5] = 0; if (i >= 62 * 62) __sx_unsupported("number token table"); return 5; }
static double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float b2f(unsigned b) { float d; memcpy(&d, &b, 4); return d; }
static unsigned f2b(float d) { unsigned b; memcpy(&b, &d, 4); return b; }
// value of a token read as a floating point number
static double sxTokD(const SxTok &t, int loc, bool asFloat, float &f) {
  if (t.ff & 8) { if (t.kind != 2) { f = b2f((unsigned)__sx_uninit(32)); return b2d(__sx_uninit(64)); } }
  if (t.kind == 2) {
    if (t.loc != loc) { f = b2f((unsigned)__sx_uninit(32)); return b2d(__sx_uninit(64)); }
    double d = b2d(t.bits);
    int exact = (t.ff & 3) == 3 ? 99 : (t.ff & 3) == 2 ? t.prec + 1 : (t.ff & 3) == 1 ? 0 : t.prec;
    if (asFloat && exact >= 9) { f = (float)d; return d; }
    if (!asFloat && exact >= 17) { f = (float)d; return d; }
    char nm[8]; nm[0] = 'r'; nm[1] = (t.ff & 3) == 1 ? 'f' : 't'; int p = (t.ff & 3) == 1 ? t.prec : exact; nm[2] = (char)('0' + p / 10); nm[3] = (char)('0' + p % 10); nm[4] = 0;
    f = b2f((unsigned)__sx_uf(nm, 32, (u64)f2b((float)d), 0)); return (double)f;
  }
  if (t.loc != loc && t.loc) { i64 v = (i64)t.bits; if (__sx_decide(!(v > -1000 && v < 1000))) { f = b2f((unsigned)__sx_uninit(32)); return b2d(__sx_uninit(64)); } }
  if (t.kind == 0) { f = (float)(int)(i64)t.bits; if ((u64)(i64)(int)(i64)t.bits != t.bits) f = (float)(i64)t.bits; return (double)(i64)t.bits; }
  f = (float)(u64)t.bits; return (double)(u64)t.bits;
}
static i64 sxTokI(const SxTok &t, int loc) {
  if (t.kind == 2) { if (t.loc != loc) return (i64)__sx_uninit(64); return (i64)b2d(t.bits); }
  if (t.ff & (8 | 32)) return (i64)__sx_uninit(64);
  if (t.loc != loc && t.loc) { i64 v = (i64)t.bits; if (__sx_decide(!(v > -1000 && v < 1000))) return (i64)__sx_uninit(64); }
  return (i64)t.bits;
}
static bool numch(char c) { return isdigit((unsigned char)c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E' || c == 1; }
// parse at s (after white space); returns characters consumed, 0 if none
static int sxScanTok(const char *s, const SxTok *&t) {
  if (s[0] == 1 && s[1] == 'n' && s[2] && s[3] && s[4] == 2) { int i = sxTokV(s[2]) * 62 + sxTokV(s[3]); if (i >= 0 && i < ntok) { t = &toks[i]; return 5; } }
  return 0;
}
static const char *skipsp(const char *s) { while (isspace((unsigned char)*s)) s++; return s; }
static double cparse(const char *s0, const char **end, bool isf, float &f) {
  const char *s = skipsp(s0); const SxTok *t; int n = sxScanTok(s, t);
  if (n) { if (end) *end = s + n; if (numch(s[n])) { f = b2f((unsigned)__sx_uninit(32)); return b2d(__sx_uninit(64)); } return sxTokD(*t, 0, isf, f); }
  char b[128]; int k = 0; const char *p = s; bool dig = false;
  if (*p == '+' || *p == '-') b[k++] = *p++;
  if ((low((unsigned char)p[0]) == 'i' && low((unsigned char)p[1]) == 'n' && low((unsigned char)p[2]) == 'f') || (low((unsigned char)p[0]) == 'n' && low((unsigned char)p[1]) == 'a' && low((unsigned char)p[2]) == 'n')) { b[k++] = p[0]; b[k++] = p[1]; b[k++] = p[2]; p += 3; dig = true; }
  else {
    while (isdigit((unsigned char)*p) && k < 100) { b[k++] = (char)__sx_pick((unsigned char)*p++); dig = true; }
    if (*p == '.') { b[k++] = *p++; while (isdigit((unsigned char)*p) && k < 110) { b[k++] = (char)__sx_pick((unsigned char)*p++); dig = true; } }
    if (dig && (*p == 'e' || *p == 'E')) { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit((unsigned char)*q)) { while (p < q) b[k++] = (char)__sx_pick((unsigned char)*p++); while (isdigit((unsigned char)*p) && k < 120) b[k++] = (char)__sx_pick((unsigned char)*p++); } }
  }
  b[k] = 0;
  if (!dig) { if (end) *end = s0; f = 0; return 0; }
  if (end) *end = p;
  f = b2f((unsigned)__sx_parse(b, 0)); return b2d(__sx_parse(b, 1));
}
static i64 iparse(const char *s0, const char **end, int base, bool &over) {
  over = false; const char *s = skipsp(s0); const SxTok *t; int n = sxScanTok(s, t);
  if (n) { if (end) *end = s + n; if (numch(s[n]) && s[n] != '.') return (i64)__sx_uninit(64); return sxTokI(*t, 0); }
  bool neg = false; if (*s == '-') { neg = true; s++; } else if (*s == '+') s++;
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) { s += 2; base = 16; }
  if (base == 0) base = *s == '0' ? 8 : 10;
  u64 v = 0; int d = 0;
  for (;; s++) { int c = (unsigned char)*s; int q; if (c >= '0' && c <= '9') q = c - '0'; else if (c >= 'a' && c <= 'z') q = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') q = c - 'A' + 10; else break; if (q >= base) break; if (d >= 18) over = true; v = v * base + q; d++; }
  if (end) *end = d ? s : s0;
  return neg ? -(i64)v : (i64)v;
}
extern "C" {
double strtod(const char *s, char **e) { float f; return cparse(s, (const char **)e, false, f); }
float strtof(const char *s, char **e) { float f; cparse(s, (const char **)e, true, f); return f; }
double sx_atof(const char *s) { return strtod(s, 0); }
long strtol(const char *s, char **e, int b) { bool o; return (long)iparse(s, (const char **)e, b, o); }
unsigned long strtoul(const char *s, char **e, int b) { bool o; return (unsigned long)iparse(s, (const char **)e, b, o); }
long long strtoll(const char *s, char **e, int b) { bool o; return iparse(s, (const char **)e, b, o); }
unsigned long long strtoull(const char *s, char **e, int b) { bool o; return (u64)iparse(s, (const char **)e, b, o); }
int sx_atoi(const char *s) { bool o; return (int)iparse(s, 0, 10, o); }
long sx_atol(const char *s) { bool o; return (long)iparse(s, 0, 10, o); }
long long sx_atoll(const char *s) { bool o; return iparse(s, 0, 10, o); }
static void fput(char *b, size_t n, size_t &k, char c) { if (k + 1 < n) b[k] = c; k++; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { (void)b; (void)n; (void)f; (void)ap; __sx_unsupported("printf family"); return 0; }
int snprintf(char *b, size_t n, const char *f, ...) { (void)b; (void)n; (void)f; __sx_unsupported("snprintf"); return 0; }
int sprintf(char *b, const char *f, ...) { (void)b; (void)f; __sx_unsupported("sprintf"); return 0; }
int sscanf(const char *b, const char *f, ...) { (void)b; (void)f; __sx_unsupported("sscanf"); return 0; }
}

// ------------------------------------------------------------ C++ support
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
const nothrow_t nothrow = nothrow_t();
static const char *xdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__sx_ialloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const string &s) { _M_p = xdup(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t) { _M_p = xdup(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define SX_EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::~logic_error() noexcept {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::~runtime_error() noexcept {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
SX_EXC(domain_error, logic_error) SX_EXC(invalid_argument, logic_error) SX_EXC(length_error, logic_error) SX_EXC(out_of_range, logic_error)
SX_EXC(range_error, runtime_error) SX_EXC(overflow_error, runtime_error) SX_EXC(underflow_error, runtime_error)
inline namespace _V2 {
error_category::~error_category() {}
bool error_category::equivalent(int, const error_condition &) const noexcept { return false; }
bool error_category::equivalent(const error_code &, int) const noexcept { return false; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct SxCat : error_category { const char *name() const noexcept { return "generic"; } string message(int) const { return "error"; } };
static SxCat sxcat;
const error_category &system_category() noexcept { return sxcat; }
const error_category &generic_category() noexcept { return sxcat; }
}
system_error::~system_error() noexcept {}
ios_base::failure::failure(const string &s, const error_code &c) : system_error(c, s) {}
ios_base::failure::failure(const char *s, const error_code &c) : system_error(c, s) {}
ios_base::failure::~failure() noexcept {}
const char *ios_base::failure::what() const noexcept { return "ios failure"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

// red-black tree: an unbalanced binary search tree with the same interface
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7919, 17389, 65521};
  size_t r = pr[14]; for (int i = 0; i < 15; i++) if (pr[i] >= n) { r = pr[i]; break; }
  _M_next_resize = r; return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || _M_next_resize == 0) {
    size_t mn = ne + ni; if (!_M_next_resize && mn < 11) mn = 11;
    if (mn >= nb) { size_t g = nb * 2; return pair<bool, size_t>(true, _M_next_bkt(mn + 1 > g ? mn + 1 : g)); }
    _M_next_resize = nb; return pair<bool, size_t>(false, 0);
  }
  return pair<bool, size_t>(false, 0);
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ------------------------------------------------------------ locale
static int globalLocale;
locale::locale() noexcept : kind_(globalLocale) {}
locale::locale(const char *n) : kind_(0) { if (!n) __throw_runtime_error("locale: null"); if (strcmp(n, "C") && strcmp(n, "POSIX") && *n) { if (!strncmp(n, "C.", 2)) kind_ = 0; else if (!strncmp(n, "de_", 3) || !strncmp(n, "fr_", 3)) kind_ = 1; else __throw_runtime_error("locale::facet::_S_create_c_locale name not valid"); } }
const locale &locale::classic() { static const struct L { int k; } c = {0}; return *reinterpret_cast<const locale *>(&c); }
locale locale::global(const locale &l) { locale o; globalLocale = l.kind_; return o; }

// ------------------------------------------------------------ streambuf
basic_streambuf<char>::~basic_streambuf() {}
streamsize basic_streambuf<char>::xsgetn(char *s, streamsize n) {
  streamsize r = 0;
  while (r < n) {
    if (gp_ < ge_) { streamsize k = ge_ - gp_; if (k > n - r) k = n - r; memcpy(s + r, gp_, (size_t)k); gp_ += k; r += k; }
    else { int c = uflow(); if (c == -1) break; s[r++] = (char)c; }
  }
  return r;
}
streamsize basic_streambuf<char>::xsputn(const char *s, streamsize n) {
  streamsize r = 0;
  while (r < n) {
    if (pp_ < pe_) { streamsize k = pe_ - pp_; if (k > n - r) k = n - r; memcpy(pp_, s + r, (size_t)k); pp_ += k; r += k; }
    else { if (overflow((unsigned char)s[r]) == -1) break; r++; }
  }
  return r;
}
void basic_ios<char>::throw_() { throw ios_base::failure("basic_ios::clear"); }

struct SxNullBuf : streambuf {
protected:
  streamsize xsputn(const char *, streamsize n) { return n; }
  int overflow(int c) { return c == -1 ? 0 : c; }
};
static SxNullBuf nullOut, nullIn;
istream cin(&nullIn); ostream cout(&nullOut), cerr(&nullOut), clog(&nullOut);

// ------------------------------------------------------------ ostream
basic_ostream<char>::sentry::sentry(basic_ostream &o) : ok_(false), o_(o) { if (o.tie_ && o.good()) o.tie_->flush(); ok_ = o.good(); if (!ok_ && o.bad()) o.setstate(ios_base::failbit); if (!ok_) o.setstate(ios_base::failbit); }
basic_ostream<char>::sentry::~sentry() { if ((o_.fl_ & ios_base::unitbuf) && o_.sb_) if (o_.sb_->pubsync() == -1) o_.setstate(ios_base::badbit); }
static inline bool sink(ostream &o) { return o.sb_ == &nullOut; }
ostream &basic_ostream<char>::putPad_(const char *s, streamsize n) {
  if (sink(*this)) { width_ = 0; return *this; }
  sentry k(*this);
  if (k) {
    streamsize pad = width_ > n ? width_ - n : 0; bool left = (fl_ & adjustfield) == ios_base::left; bool ok = true;
    if (!left) for (streamsize i = 0; i < pad; i++) ok &= sb_->sputc(fill_) != -1;
    if (sb_->sputn(s, n) != n) ok = false;
    if (left) for (streamsize i = 0; i < pad; i++) ok &= sb_->sputc(fill_) != -1;
    width_ = 0; if (!ok) setstate(badbit);
  }
  return *this;
}
static int group(char *b, int n) { // insert '.' as a thousands separator into the integer part
  char t[600]; int st = (b[0] == '-' || b[0] == '+') ? 1 : 0; int e = st; while (e < n && isdigit((unsigned char)b[e])) e++;
  int k = 0; for (int i = 0; i < n; i++) { t[k++] = b[i]; if (i >= st && i + 1 < e && (e - i - 1) % 3 == 0) t[k++] = '.'; }
  t[k] = 0; memcpy(b, t, (size_t)k + 1); return k;
}
ostream &basic_ostream<char>::putInt_(long long v, bool sgn) {
  if (sink(*this)) { width_ = 0; return *this; }
  char b[640]; int n;
  int ff = ((fl_ & hex) ? 8 : 0) | ((fl_ & oct) ? 32 : 0) | ((fl_ & uppercase) ? 16 : 0);
  if (__sx_is_symbolic((u64)v)) { SxTok t = {(u64)v, sgn ? 0 : 1, 0, loc_.kind_, ff}; n = sxTokText(b, t); }
  else { int k = 0; if ((fl_ & showpos) && sgn && v >= 0 && !ff) b[k++] = '+'; if ((fl_ & showbase) && (fl_ & hex) && v) { b[k++] = '0'; b[k++] = (fl_ & uppercase) ? 'X' : 'x'; } if ((fl_ & showbase) && (fl_ & oct) && v) b[k++] = '0'; n = k + __sx_format(b + k, 600, sgn ? 0 : 1, (u64)v, 0, ff); if (loc_.kind_ == 1 && !(ff & 40)) n = group(b, n); }
  return putPad_(b, n);
}
ostream &basic_ostream<char>::operator<<(bool v) { if (fl_ & boolalpha) return v ? putPad_("true", 4) : putPad_("false", 5); return putInt_(v ? 1 : 0, true); }
ostream &basic_ostream<char>::putDouble_(double d) {
  if (sink(*this)) { width_ = 0; return *this; }
  char b[640]; int n; int fm = (fl_ & floatfield) == fixed ? 1 : (fl_ & floatfield) == scientific ? 2 : (fl_ & floatfield) ? 3 : 0;
  int pr = (int)prec_; if (fm == 0 && pr == 0) pr = 1;
  if (__sx_is_symbolic(d2b(d))) { SxTok t = {d2b(d), 2, pr, loc_.kind_, fm}; n = sxTokText(b, t); }
  else {
    if (fm == 3 || (fl_ & (showpoint | showpos))) __sx_unsupported("floating point format flags");
    n = __sx_format(b, 600, 2, d2b(d), pr, fm);
    if (loc_.kind_ == 1) { int st = 0; for (int i = 0; i < n; i++) if (b[i] == '.') { b[i] = ','; } (void)st; if (isdigit((unsigned char)b[0]) || (b[0] == '-' && isdigit((unsigned char)b[1]))) n = group(b, n); }
  }
  return putPad_(b, n);
}
ostream &basic_ostream<char>::put(char c) { if (sink(*this)) return *this; sentry k(*this); if (k) if (sb_->sputc(c) == -1) setstate(badbit); return *this; }
ostream &basic_ostream<char>::write(const char *s, streamsize n) { if (sink(*this)) return *this; sentry k(*this); if (k) if (sb_->sputn(s, n) != n) setstate(badbit); return *this; }
ostream &basic_ostream<char>::flush() { if (sink(*this)) return *this; if (sb_ && good()) if (sb_->pubsync() == -1) setstate(badbit); return *this; }
ostream &basic_ostream<char>::operator<<(streambuf *b) { sentry k(*this); if (k) { if (!b) { setstate(badbit); return *this; } long n = 0; for (int c = b->sgetc(); c != -1; c = b->snextc()) { if (sb_->sputc((char)c) == -1) break; n++; } if (!n) setstate(failbit); } return *this; }
ostream &operator<<(ostream &o, char c) { if (o.width()) return o.putPad_(&c, 1); return o.put(c); }
ostream &operator<<(ostream &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } if (sink(o)) { o.width(0); return o; } return o.putPad_(s, (streamsize)strlen(s)); }

// ------------------------------------------------------------ istream
basic_istream<char>::sentry::sentry(basic_istream &i, bool noskip) : ok_(false) {
  int err = 0;
  if (i.good()) { if (i.tie_) i.tie_->flush(); if (!noskip && (i.fl_ & skipws)) { int c = i.sb_->sgetc(); while (c != -1 && isspace(c)) c = i.sb_->snextc(); if (c == -1) err |= eofbit; } }
  if (i.good() && !err) ok_ = true; else i.setstate(err | failbit);
}
istream &sx_ws_(istream &i) { int c = i.rdbuf()->sgetc(); while (c != -1 && isspace(c)) c = i.rdbuf()->snextc(); if (c == -1) i.setstate(ios_base::eofbit); return i; }
static bool rdTok(streambuf *b, const SxTok *&t) { // at '\x01'
  char s[6]; for (int i = 0; i < 5; i++) { int c = b->sbumpc(); if (c == -1) return false; s[i] = (char)c; } s[5] = 0; return sxScanTok(s, t) == 5;
}
bool basic_istream<char>::getInt_(long long &v, long long mn, long long mx, bool sgn) {
  sentry k(*this); if (!k) return false;
  int err = 0; int c = sb_->sgetc(); bool ret = false;
  if (c == 1) {
    const SxTok *t = 0; if (!rdTok(sb_, t)) { setstate(failbit); return false; }
    c = sb_->sgetc(); if (c == -1) err |= eofbit;
    if (c != -1 && (isdigit(c) || c == 1)) v = (i64)__sx_uninit(64); else {
      v = sxTokI(*t, loc_.kind_);
      if (t->kind == 2) { SxTok tk = {(u64)v, 0, 0, 0, 0}; (void)tk; }
    }
    bool in = sgn ? (v >= mn && v <= mx) : ((u64)v <= (u64)mx);
    if (!__sx_decide(in)) { err |= failbit; v = sgn ? (__sx_decide(v < mn) ? mn : mx) : mx; }
    ret = true; // a value is stored either way
  } else {
    bool neg = false; int base = (fl_ & basefield) == oct ? 8 : (fl_ & basefield) == hex ? 16 : 10; int d = 0; u64 a = 0; bool over = false;
    if (c == '-' || c == '+') { neg = c == '-'; c = sb_->snextc(); }
    for (; c != -1; c = sb_->snextc()) {
      int q; if (c >= '0' && c <= '9') q = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') q = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') q = c - 'A' + 10;
      else if (loc_.kind_ == 1 && c == '.' && d) continue; else break;
      if (q >= base) break;
      if (d >= 18) over = true; else a = a * (u64)base + (u64)q; d++;
    }
    if (c == -1) err |= eofbit;
    if (!d) { v = 0; err |= failbit; ret = true; }
    else {
      if (c == 1) { sb_->sbumpc(); a = __sx_uninit(31); }
      i64 x = neg ? -(i64)a : (i64)a; if (!sgn && neg) x = (i64)((u64)x & (u64)mx);
      bool in = !over && (sgn ? (x >= mn && x <= mx) : ((u64)x <= (u64)mx));
      if (!__sx_decide(in)) { err |= failbit; x = sgn ? (neg ? mn : mx) : mx; }
      v = x; ret = true;
    }
  }
  if (err) setstate(err); return ret;
}
bool basic_istream<char>::getFloat_(double &dv, float &fv, bool isf) {
  sentry k(*this); if (!k) return false;
  int err = 0; int c = sb_->sgetc();
  if (c == 1) {
    const SxTok *t = 0; if (!rdTok(sb_, t)) { setstate(failbit); return false; }
    c = sb_->sgetc(); if (c == -1) err |= eofbit;
    if (c != -1 && (isdigit(c) || c == 1 || c == '.' || c == 'e' || c == 'E')) { fv = b2f((unsigned)__sx_uninit(32)); dv = b2d(__sx_uninit(64)); }
    else dv = sxTokD(*t, loc_.kind_, isf, fv);
    if (err) setstate(err); return true;
  }
  char b[160]; int n = 0; bool dig = false, dot = false, ex = false; char dp = loc_.kind_ == 1 ? ',' : '.';
  if (c == '-' || c == '+') { b[n++] = (char)__sx_pick((u64)c); c = sb_->snextc(); }
  for (; c != -1 && n < 150; c = sb_->snextc()) {
    if (c >= '0' && c <= '9') { b[n++] = (char)__sx_pick((u64)c); dig = true; }
    else if (c == dp && !dot && !ex) { b[n++] = '.'; dot = true; }
    else if (loc_.kind_ == 1 && c == '.' && !dot && !ex && dig) continue;
    else if ((c == 'e' || c == 'E') && dig && !ex) { b[n++] = 'e'; ex = true; int q = sb_->snextc(); if (q == '-' || q == '+') { b[n++] = (char)__sx_pick((u64)q); } else { c = q; if (q == -1) break; if (q >= '0' && q <= '9') { b[n++] = (char)__sx_pick((u64)q); continue; } break; } }
    else break;
  }
  b[n] = 0; if (c == -1) err |= eofbit;
  bool bad = !dig || (n && (b[n - 1] == 'e' || b[n - 1] == '-' || b[n - 1] == '+'));
  if (bad) { fv = 0; dv = 0; err |= failbit; } else if (c == 1) { sb_->sbumpc(); fv = b2f((unsigned)__sx_uninit(32)); dv = b2d(__sx_uninit(64)); } else { fv = b2f((unsigned)__sx_parse(b, 0)); dv = b2d(__sx_parse(b, 1)); }
  if (err) setstate(err); return true;
}
istream &basic_istream<char>::operator>>(float &f) { double d; float x; if (getFloat_(d, x, true)) f = x; return *this; }
istream &basic_istream<char>::operator>>(double &f) { double d; float x; if (getFloat_(d, x, false)) f = d; return *this; }
istream &basic_istream<char>::operator>>(bool &n) { long long v; if (fl_ & boolalpha) __sx_unsupported("boolalpha input"); if (getInt_(v, 0, 1, true)) n = v != 0; return *this; }
istream &basic_istream<char>::operator>>(streambuf *b) { sentry k(*this, false); if (k) { long n = 0; for (int c = sb_->sgetc(); c != -1; c = sb_->snextc()) { if (b->sputc((char)c) == -1) break; n++; } if (!n) setstate(failbit); } return *this; }
int basic_istream<char>::get() { gc_ = 0; sentry k(*this, true); int c = -1; if (k) { c = sb_->sbumpc(); if (c != -1) gc_ = 1; else setstate(eofbit | failbit); } return c; }
istream &basic_istream<char>::get(char &ch) { gc_ = 0; sentry k(*this, true); if (k) { int c = sb_->sbumpc(); if (c != -1) { gc_ = 1; ch = (char)c; } else setstate(eofbit | failbit); } return *this; }
istream &basic_istream<char>::get(char *s, streamsize n, char d) {
  gc_ = 0; sentry k(*this, true); int err = 0;
  if (k) { int c = sb_->sgetc(); while (gc_ + 1 < n && c != -1 && (char)c != d) { s[gc_++] = (char)c; c = sb_->snextc(); } if (c == -1) err |= eofbit; }
  if (n > 0) s[gc_] = 0; if (!gc_) err |= failbit; if (err) setstate(err); return *this;
}
istream &basic_istream<char>::get(streambuf &b, char d) { gc_ = 0; sentry k(*this, true); if (k) { int c = sb_->sgetc(); while (c != -1 && (char)c != d && b.sputc((char)c) != -1) { gc_++; c = sb_->snextc(); } if (c == -1) setstate(eofbit); } if (!gc_) setstate(failbit); return *this; }
istream &basic_istream<char>::getline(char *s, streamsize n, char d) {
  gc_ = 0; sentry k(*this, true); int err = 0; streamsize st = 0;
  if (k) {
    int c = sb_->sgetc();
    while (st + 1 < n && c != -1 && (char)c != d) { s[st++] = (char)c; gc_++; c = sb_->snextc(); }
    if (c == -1) err |= eofbit; else if ((char)c == d) { gc_++; sb_->sbumpc(); } else err |= failbit;
  }
  if (n > 0) s[st] = 0; if (!gc_) err |= failbit; if (err) setstate(err); return *this;
}
istream &basic_istream<char>::ignore(streamsize n, int d) {
  gc_ = 0; sentry k(*this, true);
  if (k) { bool inf = n == 9223372036854775807L; while (inf || gc_ < n) { int c = sb_->sbumpc(); if (c == -1) { setstate(eofbit); break; } gc_++; if (c == d) break; } }
  return *this;
}
int basic_istream<char>::peek() { gc_ = 0; sentry k(*this, true); int c = -1; if (k) { c = sb_->sgetc(); if (c == -1) setstate(eofbit); } return c; }
istream &basic_istream<char>::read(char *s, streamsize n) { gc_ = 0; sentry k(*this, true); if (k) { gc_ = sb_->sgetn(s, n); if (gc_ != n) setstate(eofbit | failbit); } return *this; }
streamsize basic_istream<char>::readsome(char *s, streamsize n) { gc_ = 0; sentry k(*this, true); if (k) { streamsize a = sb_->in_avail(); if (a > 0) gc_ = sb_->sgetn(s, a < n ? a : n); else if (a == -1) setstate(eofbit); } return gc_; }
istream &basic_istream<char>::putback(char c) { gc_ = 0; clear(rdstate() & ~eofbit); sentry k(*this, true); if (k) { if (sb_->sputbackc(c) == -1) setstate(badbit); } return *this; }
istream &basic_istream<char>::unget() { gc_ = 0; clear(rdstate() & ~eofbit); sentry k(*this, true); if (k) { if (sb_->sungetc() == -1) setstate(badbit); } return *this; }
streampos basic_istream<char>::tellg() { sentry k(*this, true); if (fail()) return streampos(streamoff(-1)); return sb_->pubseekoff(0, cur, in); }
istream &basic_istream<char>::seekg(pos_type p) { clear(rdstate() & ~eofbit); sentry k(*this, true); if (!fail()) if (sb_->pubseekpos(p, in) == streampos(streamoff(-1))) setstate(failbit); return *this; }
istream &basic_istream<char>::seekg(off_type o, ios_base::seekdir d) { clear(rdstate() & ~eofbit); sentry k(*this, true); if (!fail()) if (sb_->pubseekoff(o, d, in) == streampos(streamoff(-1))) setstate(failbit); return *this; }
istream &operator>>(istream &i, char &ch) { istream::sentry k(i); if (k) { int c = i.sb_->sbumpc(); if (c != -1) ch = (char)c; else i.setstate(ios_base::eofbit | ios_base::failbit); } return i; }
istream &operator>>(istream &i, char *s) {
  istream::sentry k(i); streamsize n = 0;
  if (k) { streamsize w = i.width() > 0 ? i.width() : 1l << 40; int c = i.sb_->sgetc(); while (n + 1 < w && c != -1 && !isspace(c)) { s[n++] = (char)c; c = i.sb_->snextc(); } if (c == -1) i.setstate(ios_base::eofbit); s[n] = 0; i.width(0); }
  if (!n) i.setstate(ios_base::failbit); return i;
}
template <> istream &operator>>(istream &i, string &s) {
  istream::sentry k(i); streamsize n = 0;
  if (k) { s.erase(); streamsize w = i.width() > 0 ? i.width() : 1l << 40; int c = i.sb_->sgetc(); while (n < w && c != -1 && !isspace(c)) { s.push_back((char)c); n++; c = i.sb_->snextc(); } if (c == -1) i.setstate(ios_base::eofbit); i.width(0); }
  if (!n) i.setstate(ios_base::failbit); return i;
}
template <> istream &getline(istream &i, string &s, char d) {
  istream::sentry k(i, true); long n = 0; int err = 0;
  if (k) { s.erase(); int c = i.sb_->sgetc(); while (c != -1 && (char)c != d) { s.push_back((char)c); n++; c = i.sb_->snextc(); } if (c == -1) err |= ios_base::eofbit; else { n++; i.sb_->sbumpc(); } }
  if (!n) err |= ios_base::failbit; if (err) i.setstate(err); return i;
}

// ------------------------------------------------------------ stringbuf
namespace __cxx11 {
int stringbuf::underflow() { if (!(m_ & ios_base::in)) return -1; gpos_ = gp_ ? (size_t)(gp_ - gb_) : gpos_; sync_(); return gp_ < ge_ ? (unsigned char)*gp_ : -1; }
streamsize stringbuf::xsputn(const char *s, streamsize n) {
  if (!(m_ & ios_base::out)) return 0;
  if (gp_) gpos_ = (size_t)(gp_ - gb_);
  if (m_ & ios_base::app) ppos_ = s_.size();
  if (ppos_ == s_.size()) s_.append(s, (size_t)n); else { if (ppos_ + (size_t)n > s_.size()) s_.resize(ppos_ + (size_t)n); memcpy(&s_[ppos_], s, (size_t)n); }
  ppos_ += (size_t)n; if (m_ & ios_base::in) sync_(); return n;
}
int stringbuf::overflow(int c) { if (c == -1) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? (c & 255) : -1; }
streampos stringbuf::seekoff(streamoff o, ios_base::seekdir d, ios_base::openmode m) {
  bool i = (m & ios_base::in) && (m_ & ios_base::in), w = (m & ios_base::out) && (m_ & ios_base::out);
  if (gp_) gpos_ = (size_t)(gp_ - gb_);
  long base = d == ios_base::beg ? 0 : d == ios_base::end ? (long)s_.size() : i ? (long)gpos_ : (long)ppos_; long p = base + (long)o;
  if ((!i && !w) || p < 0 || p > (long)s_.size()) return streampos(streamoff(-1));
  if (i) { gpos_ = (size_t)p; sync_(); } if (w) ppos_ = (size_t)p; return streampos(p);
}
}
} // namespace std

// ------------------------------------------------------------ files
namespace std { struct SxFile { char name[96]; size_t len; char *data; long size, cap; int exists, locked, dir; }; }
static const int MAXF = 24;
static std::SxFile ftab[MAXF]; static int nfiles;
static std::SxFile *ffind(const char *n, bool make) {
  size_t len = strlen(n);
  for (int i = 0; i < nfiles; i++) if (ftab[i].len == len && !__builtin_memcmp(ftab[i].name, n, len)) return &ftab[i];
  if (!make) return 0;
  if (nfiles == MAXF || len > 95) { __sx_unsupported("file table"); return 0; }
  std::SxFile *f = &ftab[nfiles++]; strcpy(f->name, n); f->len = len; f->data = 0; f->size = f->cap = 0; f->exists = 0; f->locked = 0; f->dir = 0; return f;
}
static void fappend(std::SxFile *f, const char *s, long n, long at) {
  if (at + n > f->cap) { long c = at + n + 512; char *d = (char *)__sx_ialloc((unsigned long)c); if (f->size) memcpy(d, f->data, (size_t)f->size); __sx_ifree(f->data); f->data = d; f->cap = c; }
  if (n) memcpy(f->data + at, s, (size_t)n); if (at + n > f->size) f->size = at + n;
}
extern "C" {
// file access for harnesses
long sx_fsize(const char *n) { std::SxFile *f = ffind(n, false); return f && f->exists ? f->size : -1; }
char *sx_fdata(const char *n) { std::SxFile *f = ffind(n, false); return f ? f->data : 0; }
void sx_fput(const char *n, const void *d, long len) { std::SxFile *f = ffind(n, true); f->exists = 1; f->size = 0; fappend(f, (const char *)d, len, 0); }
void sx_fdel(const char *n) { std::SxFile *f = ffind(n, false); if (f) { f->exists = 0; f->size = 0; } }
void sx_flock(const char *n) { std::SxFile *f = ffind(n, true); f->locked = 1; }
void sx_global_locale(int k) { std::globalLocale = k; }
int remove(const char *n) { std::SxFile *f = ffind(n, false); if (!f || !f->exists) return -1; f->exists = 0; f->size = 0; return 0; }
int unlink(const char *n) { return remove(n); }
}
namespace std {
filebuf *basic_filebuf<char>::open(const char *n, ios_base::openmode m) {
  if (f_) return 0;
  bool w = m & (ios_base::out | ios_base::app), r = m & ios_base::in;
  SxFile *f = ffind(n, w);
  if (!n[0]) return 0;
  if (w) { const char *sl = strrchr(n, '/'); (void)sl; if (!f || f->locked || f->dir) return 0; if (r && !(m & (ios_base::trunc | ios_base::app)) && !f->exists) return 0; if (!f->exists || (m & ios_base::trunc) || !(m & (ios_base::app | ios_base::in))) { f->exists = 1; f->size = 0; } }
  else if (!f || !f->exists || (f->locked & 2)) return 0;
  f_ = f; m_ = m; pos_ = (m & (ios_base::ate | ios_base::app)) ? f->size : 0; wn_ = 0;
  if (w) { wcap_ = 8191; if (!wr_) wr_ = (char *)__sx_ialloc(8191); }
  if (r) snapshot_(); else setg(0, 0, 0);
  return this;
}
void basic_filebuf<char>::snapshot_() {
  __sx_ifree(snap_); snapn_ = f_->size; snap_ = (char *)__sx_ialloc((unsigned long)(snapn_ ? snapn_ : 1)); if (snapn_) memcpy(snap_, f_->data, (size_t)snapn_);
  long p = pos_ < snapn_ ? pos_ : snapn_; setg(snap_, snap_ + p, snap_ + snapn_);
}
bool basic_filebuf<char>::flush_() { if (wn_) { if (m_ & ios_base::app) pos_ = f_->size; fappend(f_, wr_, wn_, pos_); pos_ += wn_; wn_ = 0; } return true; }
filebuf *basic_filebuf<char>::close() {
  if (!f_) return 0;
  flush_(); f_ = 0; __sx_ifree(snap_); snap_ = 0; __sx_ifree(wr_); wr_ = 0; setg(0, 0, 0); return this;
}
int basic_filebuf<char>::underflow() {
  if (!f_ || !(m_ & ios_base::in)) return -1;
  if (wn_) { flush_(); snapshot_(); }
  return gp_ < ge_ && pos_ <= snapn_ ? (unsigned char)*gp_ : -1;
}
streamsize basic_filebuf<char>::xsputn(const char *s, streamsize n) {
  if (!f_ || !(m_ & (ios_base::out | ios_base::app))) return 0;
  if (wn_ + n > wcap_) { flush_(); if (m_ & ios_base::app) pos_ = f_->size; if (n > wcap_ / 2) { fappend(f_, s, n, pos_); pos_ += n; return n; } }
  if (n) memcpy(wr_ + wn_, s, (size_t)n); wn_ += n; return n;
}
int basic_filebuf<char>::overflow(int c) { if (!f_ || !(m_ & (ios_base::out | ios_base::app))) return -1; if (c == -1) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? (c & 255) : -1; }
int basic_filebuf<char>::sync() { if (f_) flush_(); return 0; }
streampos basic_filebuf<char>::seekoff(streamoff o, ios_base::seekdir d, ios_base::openmode) {
  if (!f_) return streampos(streamoff(-1));
  long curp; if (m_ & ios_base::in) { if (!wn_) curp = (pos_ > snapn_ && gp_ == ge_) ? pos_ : (long)(gp_ - gb_); else curp = pos_ + wn_; } else curp = pos_ + wn_;
  if (o == 0 && d == ios_base::cur && !(wn_ && (m_ & ios_base::in))) return streampos(curp);
  flush_();
  long base = d == ios_base::beg ? 0 : d == ios_base::cur ? curp : f_->size; long p = base + (long)o;
  if (__sx_decide(p < 0)) return streampos(streamoff(-1));
  if (m_ & ios_base::in) { if (__sx_decide(p > f_->size)) { snapshot_(); pos_ = f_->size + 1; gp_ = ge_; } else { pos_ = (long)__sx_pick((u64)p); snapshot_(); } }
  else pos_ = (long)__sx_pick((u64)p);
  return streampos(p);
}
} // namespace std
