// Engine-side C library, libstdc++ support and file system model.
#include "sym.h"
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <list>
#include <map>
#include <exception>
#include <stdexcept>
#include <ctime>
#include <sys/stat.h>
#include <clocale>
#include <cerrno>
#include <typeinfo>

template class std::basic_string<char>;
std::string sym_str(const char* n, int len, unsigned char lo, unsigned char hi) {
  std::string s((size_t)len, ' ');
  for (int i = 0; i < len; i++) { s[i] = (char)__sym_rvar(n, 8, lo, hi); }
  return s; }
std::string sym_strv(const char* n, int a, int b, unsigned char lo, unsigned char hi) {
  std::string nm(n); nm += ".len"; int k = a == b ? a : a + sym_choice(nm.c_str(), b - a + 1); return sym_str(n, k, lo, hi); }
void sym_notev(const char* l, long v) { char b[32]; std::string s(l); s += "="; if (__sym_is_sym(v)) s += "?"; else { __rt_i64toa(v, b); s += b; } __sym_note(s.c_str()); }

// ---------------------------------------------------------------- files
struct __vfile { std::string name, data; bool exists, deny, noread; __vfile* next; };
static __vfile* g_files = 0;
static long g_space = -1;
static int g_errno;
extern "C" int* __errno_location() throw() { return &g_errno; }
static __vfile* vfind(const char* n, bool create) {
  for (__vfile* f = g_files; f; f = f->next) if (f->name == n) return f;
  if (!create) return 0;
  __vfile* f = new __vfile; f->name = n; f->exists = false; f->deny = false; f->noread = false; f->next = g_files; g_files = f; return f; }
__vfile* __vfs_open_read(const char* n) { __vfile* f = vfind(n, false); if (!f || !f->exists) { errno = ENOENT; return 0; } if (f->noread) { errno = EACCES; return 0; } return f; }
__vfile* __vfs_open_write(const char* n, bool must, bool rd, bool trunc) {
  if (!*n) { errno = ENOENT; return 0; }
  __vfile* f = vfind(n, true); if (f->deny) { errno = EACCES; return 0; }
  if (!f->exists && must) { errno = ENOENT; return 0; }
  if (f->exists && rd && f->noread) { errno = EACCES; return 0; }
  if (trunc || !f->exists) f->data.clear(); f->exists = true; return f; }
const char* __vfs_data(__vfile* f, unsigned long& n) { n = f->data.size(); return f->data.data(); }
bool __vfs_append(__vfile* f, const char* s, unsigned long n) {
  if (g_space < 0) { f->data.append(s, n); return true; }
  if ((long)n <= g_space) { g_space -= n; f->data.append(s, n); return true; }
  if (!__sym_is_sym((unsigned long)g_space)) f->data.append(s, (unsigned long)g_space);   // how much of it reached the disk is left open otherwise
  g_space = 0; return false; }
bool __vfs_write(__vfile* f, unsigned long at, const char* s, unsigned long n) {
  if (at >= f->data.size()) { if (at > f->data.size()) f->data.append(at - f->data.size(), '\0'); return __vfs_append(f, s, n); }
  unsigned long in = f->data.size() - at; if (in > n) in = n; f->data.replace(at, in, s, in);      // overwriting needs no space
  return in == n || __vfs_append(f, s + in, n - in); }
void vfs_put(const char* n, const std::string& d) { __vfile* f = vfind(n, true); f->exists = true; f->data = d; }
bool vfs_get(const char* n, std::string& d) { __vfile* f = vfind(n, false); if (!f || !f->exists) return false; d = f->data; return true; }
void vfs_space(long b) { g_space = b; }
void vfs_deny(const char* n, bool d) { vfind(n, true)->deny = d; }
void vfs_noread(const char* n) { vfind(n, true)->noread = true; }
extern "C" int stat(const char* n, struct stat* st) { __vfile* f = vfind(n, false); if (!f || !f->exists) { errno = ENOENT; return -1; } for (unsigned i = 0; i < sizeof *st; i++) ((char*)st)[i] = 0; st->st_mode = S_IFREG | 0644; return 0; }
extern "C" int access(const char* n, int) { __vfile* f = vfind(n, false); return f && f->exists ? 0 : -1; }

// ---------------------------------------------------------------- numbers
int __rt_u64toa(unsigned long v, char* b) {
  if (!__sym_is_sym(v)) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) b[i] = t[n - 1 - i]; b[n] = 0; return n; }
  int n = 1; unsigned long p = 10;
  while (n < 19 && v >= p) { n++; p *= 10; }
  if (n == 19) __sym_fail_engine("symbolic integer too wide to format");
  __sym_digits(v, n, b); b[n] = 0; return n; }
int __rt_i64toa(long v, char* b) { if (v < 0) { b[0] = '-'; return 1 + __rt_u64toa(-(unsigned long)v, b + 1); } return __rt_u64toa(v, b); }
static inline bool sp(unsigned char c) { return (c == ' ') | ((unsigned char)(c - 9) <= 4); }
extern "C" long strtol(const char* s, char** end, int base) throw() {
  const char* p = s; while (sp(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (base != 10) __sym_fail_engine("strtol base");
  long v = 0; int n = 0; bool big = false;
  if (__sym_is_sym((unsigned char)*p)) {      // digits produced by the model's own integer formatting
    int k = 0; while ((unsigned char)(p[k] - '0') <= 9) k++;
    if (k && __sym_undigits(p, k, &v)) { if (end) *end = (char*)(p + k); return neg ? -v : v; }
  }
  for (;;) { unsigned char d = (unsigned char)(*p - '0'); if (d > 9) break; n++; if (n <= 18) v = v * 10 + d; else { if (v > (9223372036854775807L - d) / 10) big = true; else v = v * 10 + d; } p++; }
  if (end) *end = (char*)(n ? p : s);
  if (big) { g_errno = ERANGE; return neg ? -9223372036854775807L - 1 : 9223372036854775807L; }
  return neg ? -v : v; }
static bool lit(const char* p, const char* q) { while (*q) { unsigned char c = (unsigned char)*p; if (c >= 'A' && c <= 'Z') c += 32; if (c != (unsigned char)*q) return false; p++; q++; } return true; }
double __rt_strtod(const char* s, char** end) {
  // locate the extent of the numeric prefix
  const char* p = s; while (sp(*p)) p++;
  bool sym = false; bool neg = false; const char* b = p;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) {
    // hexadecimal prefix: "0x" followed by a hex digit is consumed by strtod; without one only the 0 is
    const char* q = p + 2; int hd = 0; bool dot = false; double v = 0, sc = 1;
    for (;;) { unsigned char c = (unsigned char)*q; int d = -1; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
      if (d >= 0) { hd++; v = v * 16 + d; if (dot) sc *= 16; q++; } else if (c == '.' && !dot) { dot = true; q++; } else break; }
    if (hd) { if ((*q == 'p' || *q == 'P')) { const char* e = q + 1; bool en = false; if (*e == '-' || *e == '+') en = *e++ == '-'; int ev = 0, k = 0; while ((unsigned char)(*e - '0') <= 9) { ev = ev * 10 + (unsigned char)(*e - '0'); e++; k++; if (k > 4) __sym_fail_engine("hex float exponent"); } if (k) { q = e; while (ev-- > 0) v = en ? v / 2 : v * 2; } }
      if (end) *end = (char*)q; v /= sc; return neg ? -v : v; }
  }
  if (*p == 'i' || *p == 'I') { int n = lit(p, "infinity") ? 8 : lit(p, "inf") ? 3 : 0; if (end) *end = (char*)(n ? p + n : s); return n ? (neg ? -__builtin_inf() : __builtin_inf()) : 0.0; }
  if (*p == 'n' || *p == 'N') { int n = lit(p, "nan") ? 3 : 0; if (n && p[3] == '(') { const char* q = p + 4; for (;;) { unsigned char c = (unsigned char)*q; if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_') q++; else break; } if (*q == ')') n = (int)(q + 1 - p); } if (end) *end = (char*)(n ? p + n : s); return n ? __builtin_nan("") : 0.0; }
  long m = 0; int nd = 0, sig = 0, frac = 0; bool dot = false; bool toolong = false;
  for (;;) {
    unsigned char c = (unsigned char)*p; unsigned char d = (unsigned char)(c - '0');
    if (d <= 9) { nd++; if (__sym_is_sym(d)) sym = true; if (sig < 15) { m = m * 10 + d; if (__sym_is_sym(m) || m) sig++; if (dot) frac++; } else { toolong = true; if (!dot) frac--; } p++; continue; }
    if (c == '.' && !dot) { dot = true; p++; continue; }
    break; }
  if (!nd) { if (end) *end = (char*)s; return 0.0; }
  int ev = 0; bool en = false; const char* mend = p;
  if (*p == 'e' || *p == 'E') {
    const char* e = p + 1; if (*e == '-') { en = true; e++; } else if (*e == '+') e++;
    int k = 0; while ((unsigned char)(*e - '0') <= 9) { unsigned char d = (unsigned char)(*e - '0'); if (__sym_is_sym(d)) sym = true; if (k < 5) ev = ev * 10 + d; e++; k++; }
    if (k) p = e; }
  (void)mend;
  if (end) *end = (char*)p;
  if (!sym) { std::string t(b, p - b); unsigned long used; return __sym_strtodc(t.c_str(), &used); }
  { std::string ds; int ex = 0; bool dt = false, lead = true;       // digits of a value registered by sym_dec
    for (const char* q = b; q < mend; ++q) { char c = *q; if (c == '.') { dt = true; continue; } if (!__sym_is_sym((unsigned char)c) && (c < '0' || c > '9')) continue; if (lead && !__sym_is_sym((unsigned char)c) && c == '0') { if (dt) ex--; continue; } lead = false; ds += c; if (dt) ex--; }
    while (ds.size() > 1 && !__sym_is_sym((unsigned char)ds[ds.size() - 1]) && ds[ds.size() - 1] == '0') { ds.erase(ds.size() - 1); ex++; }
    unsigned long ok = 0; int xv = (int)__sym_concretize((unsigned)ev); double r = __sym_undec(ds.data(), ds.size(), ex + (en ? -xv : xv), &ok); if (ok) return neg ? -r : r; }
  if (toolong) __sym_fail_engine("symbolic decimal with more than 15 digits");
  ev = (int)__sym_concretize((unsigned)ev); if (en) ev = -ev;
  ev -= frac;
  double v = (double)m, pw = 1; int a = ev < 0 ? -ev : ev; 
  if (a > 22) { 
    // outside the exactly rounded range: magnitude only, via repeated scaling
    if (a > 340) { v = ev < 0 ? 0.0 : (m == 0 ? 0.0 : __builtin_inf()); return neg ? -v : v; }
    __sym_note("inexact scaling"); for (int i = 0; i < a; i++) v = ev < 0 ? v / 10 : v * 10; return neg ? -v : v; }
  for (int i = 0; i < a; i++) pw *= 10;
  v = ev < 0 ? v / pw : v * pw;
  return neg ? -v : v; }
extern "C" double strtod(const char* s, char** end) throw() { return __rt_strtod(s, end); }
extern "C" double atof(const char* s) throw() { return __rt_strtod(s, 0); }
extern "C" int atoi(const char* s) throw() { return (int)strtol(s, 0, 10); }
extern "C" long atol(const char* s) throw() { return strtol(s, 0, 10); }

// ---------------------------------------------------------------- ctype / string
extern "C" int isspace(int c) throw() { return (c == ' ') | ((unsigned)(c - 9) <= 4); }
extern "C" int isdigit(int c) throw() { return (unsigned)(c - '0') <= 9; }
extern "C" int isalpha(int c) throw() { return (unsigned)((c | 32) - 'a') <= 25; }
extern "C" int isalnum(int c) throw() { return isalpha(c) | isdigit(c); }
extern "C" int isprint(int c) throw() { return (unsigned)(c - 32) <= 94; }
extern "C" int isupper(int c) throw() { return (unsigned)(c - 'A') <= 25; }
extern "C" int islower(int c) throw() { return (unsigned)(c - 'a') <= 25; }
extern "C" int toupper(int c) throw() { return islower(c) ? c - 32 : c; }
extern "C" int tolower(int c) throw() { return isupper(c) ? c + 32 : c; }
extern "C" char* strcpy(char* d, const char* s) throw() { char* r = d; while ((*d++ = *s++)) {} return r; }
extern "C" char* strncpy(char* d, const char* s, size_t n) throw() { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
extern "C" char* strcat(char* d, const char* s) throw() { strcpy(d + strlen(d), s); return d; }
extern "C" int strncmp(const char* a, const char* b, size_t n) throw() { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
#undef strchr
#undef strstr
extern "C" char* __rt_strchr(const char* s, int c) asm("strchr");
extern "C" char* __rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }

// sprintf(locale, "%.79s", cp)
static char g_loc[80] = "C";
extern "C" char* setlocale(int cat, const char* n) throw() { (void)cat; if (n) { std::string t(n); if (t.size() > 70) return 0; for (size_t i = 0; i <= t.size(); i++) g_loc[i] = t.c_str()[i]; } return g_loc; }
void rt_set_locale(const char* n) { setlocale(LC_ALL, n); }
static long g_now = 1420070400;
extern "C" time_t time(time_t* t) throw() { if (t) *t = g_now; return g_now; }
static struct tm g_tm;
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r) throw() { __sym_gmtime(*t, r); return r; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) throw() { __sym_gmtime(*t, r); return r; }
extern "C" struct tm* gmtime(const time_t* t) throw() { __sym_gmtime(*t, &g_tm); return &g_tm; }
extern "C" struct tm* localtime(const time_t* t) throw() { __sym_gmtime(*t, &g_tm); return &g_tm; }
extern "C" char* strerror(int) throw() { return (char*)"error"; }
extern "C" int puts(const char*) { return 1; }
extern "C" int printf(const char*, ...) { return 0; }
extern "C" int putchar(int c) { return c; }
extern "C" int remove(const char* n) throw() { __vfile* f = vfind(n, false); if (!f || !f->exists) return -1; f->exists = false; return 0; }
extern "C" int unlink(const char* n) throw() { return remove(n); }

// ---------------------------------------------------------------- libstdc++ support
namespace std {
  template class basic_ios<char, char_traits<char> >;
  ostream cout, cerr, clog; istream cin;
  template<> istream& getline(istream& in, string& s, char d) {
    if (!in._sentry(true)) return in;
    s.erase(); unsigned long n; const char* p = in._src(n); bool any = false; ios_base::iostate st = 0;
    for (;;) { if ((unsigned long)in._pos >= n) { st |= ios_base::eofbit; break; } char c = p[in._pos++]; any = true; if (c == d) break; s.push_back(c); }
    if (!any) st |= ios_base::failbit;
    if (st) in.setstate(st);
    return in; }
  template<> istream& operator>>(istream& in, string& s) {
    if (!in._sentry(false)) return in;
    s.erase(); unsigned long n; const char* p = in._src(n); ios_base::iostate st = 0;
    for (;;) { if ((unsigned long)in._pos >= n) { st |= ios_base::eofbit; break; } char c = p[in._pos]; if (sp((unsigned char)c)) break; in._pos++; s.push_back(c); }
    if (s.empty()) st |= ios_base::failbit;
    if (st) in.setstate(st);
    return in; }
  exception::~exception() noexcept {}
  const char* exception::what() const noexcept { return "std::exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
  struct __rt_logic_error : exception { const char* m; __rt_logic_error(const char* s) : m(s) {} const char* what() const noexcept override { return m; } };
  struct out_of_range_ : __rt_logic_error { out_of_range_(const char* s) : __rt_logic_error(s) {} };
  struct length_error_ : __rt_logic_error { length_error_(const char* s) : __rt_logic_error(s) {} };
  struct logic_error_ : __rt_logic_error { logic_error_(const char* s) : __rt_logic_error(s) {} };
  void __throw_out_of_range_fmt(const char* f, ...) { throw out_of_range_(f); }
  void __throw_out_of_range(const char* f) { throw out_of_range_(f); }
  void __throw_length_error(const char* f) { throw length_error_(f); }
  void __throw_logic_error(const char* f) { throw logic_error_(f); }
  void __throw_invalid_argument(const char* f) { throw logic_error_(f); }
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_alloc(); }
  void __throw_bad_cast() { throw bad_cast(); }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
      if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
      else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
    void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
  }
  // an unbalanced but ordered search tree is observably identical through std::map / std::set
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; 
    } else {
      if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
      if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
    }
    return z; }
}
// dynamic_cast over the compiler generated type information
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[], _ZTVN10__cxxabiv117__class_type_infoE[];
static long ti_up(const void* const* t, const void* dst, long off) {   // offset of dst inside t or -1
  if (t == dst) return off;
  const char* vt = (const char*)t[0];
  if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return ti_up((const void* const*)t[2], dst, off);
  if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
    unsigned n = ((const unsigned*)t)[5];
    for (unsigned i = 0; i < n; i++) { const void* const* b = (const void* const*)t[3 + 2 * i]; long of = (long)t[4 + 2 * i] >> 8; long r = ti_up(b, dst, off + of); if (r >= 0) return r; } }
  return -1; }
extern "C" void* __dynamic_cast(const void* p, const void*, const void* dst, long) {
  const void* const* vptr = *(const void* const* const*)p; long top = (long)vptr[-2]; const void* const* ti = (const void* const*)vptr[-1];
  long o = ti_up(ti, dst, 0); if (o < 0) return 0; return (char*)p + top + o; }
