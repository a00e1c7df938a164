// Harness interface: the same harness source is compiled for the symbolic engine (SYM_ENGINE)
// and natively (for replay of a counterexample).
#pragma once
#include <string>
#include <cstddef>
#ifdef SYM_ENGINE
extern "C" {
  unsigned long __sym_var(const char* name, unsigned width);
  unsigned long __sym_rvar(const char* name, unsigned width, unsigned long lo, unsigned long hi);
  unsigned long __sym_undigits(const char* p, unsigned long n, long* v);
  double __sym_intreal(const char* name, long lo, long hi);
  double __sym_double(const char* name);
  void __sym_assume(unsigned long c);
  void __sym_assert(unsigned long c, const char* msg);
  void __sym_reach(const char* label);
  long __sym_param(const char* name, long dflt);
  unsigned long __sym_is_sym(unsigned long v);
  unsigned long __sym_is_symd(double v);
  unsigned long __sym_mem_is_sym(const void* p, unsigned long n);
  unsigned long __sym_concretize(unsigned long v);
  void __sym_note(const char* s);
  void __sym_print(const char* s, unsigned long v);
  void __sym_silent(void);
  void __sym_fail_engine(const char* s);
  void __sym_digits(unsigned long v, unsigned long n, char* buf);
  unsigned long __sym_fmtd(char* buf, unsigned long cap, int prec, int mode, double v);
  double __sym_strtodc(const char* s, unsigned long* consumed);
  void __sym_gmtime(long t, void* tm);
  void __sym_regdec(double v, const double* digits, unsigned long n, long e10);
  double __sym_undec(const char* p, unsigned long n, long e10, unsigned long* ok);
  unsigned long __sym_isheap_live(const void* p);
}
inline void sym_assume(bool c) { __sym_assume(c); }
inline void sym_assert(bool c, const char* m) { __sym_assert(c, m); }
inline void sym_reach(const char* l) { __sym_reach(l); }
inline long sym_param(const char* n, long d) { return __sym_param(n, d); }
inline bool sym_engine() { return true; }
#else
unsigned long __sym_var(const char* name, unsigned width);
unsigned long __sym_rvar(const char* name, unsigned width, unsigned long lo, unsigned long hi);
double __sym_intreal(const char* name, long lo, long hi);
double __sym_double(const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* m);
void sym_reach(const char* l);
long sym_param(const char* n, long d);
void __sym_note(const char* s);
inline bool sym_engine() { return false; }
inline unsigned long __sym_concretize(unsigned long v) { return v; }
inline void __sym_print(const char*, unsigned long) {}
#endif
inline int sym_int(const char* n, int lo, int hi) { if (lo >= 0) return (int)__sym_rvar(n, 32, (unsigned long)lo, (unsigned long)hi); int v = (int)__sym_var(n, 32); sym_assume((v >= lo) & (v <= hi)); return v; }
inline int sym_anyint(const char* n) { return (int)__sym_var(n, 32); }
inline unsigned char sym_byte(const char* n) { return (unsigned char)__sym_var(n, 8); }
inline bool sym_bool(const char* n) { return __sym_var(n, 1) & 1; }
// a value in [0,n) on which the path is split
inline int sym_choice(const char* n, int k) { return (int)__sym_concretize((unsigned long)sym_int(n, 0, k - 1)); }
inline double sym_double(const char* n) { return __sym_double(n); }
inline double sym_real(const char* n, double lo, double hi) { double d = __sym_double(n); sym_assume((d >= lo) & (d <= hi)); return d; }
inline double sym_intreal(const char* n, long lo, long hi) { return __sym_intreal(n, lo, hi); }
// a number k/den with k an integer in [-hi,-1], {0} or [1,hi] (path split on the sign; signs: 1 positive, 2 negative, 4 zero)
inline double sym_num(const char* n, long hi, long den = 1, int signs = 7) {
  int o[3], k = 0; if (signs & 1) o[k++] = 1; if (signs & 2) o[k++] = -1; if (signs & 4) o[k++] = 0;
  int s = o[0]; if (k > 1) { std::string nm(n); nm += ".sign"; s = o[sym_choice(nm.c_str(), k)]; }
  if (!s) return 0.0;
  double m = s > 0 ? __sym_intreal(n, 1, hi) : __sym_intreal(n, -hi, -1);
  return den == 1 ? m : m / (double)den; }
// the positive number with the given decimal digits ('d': a symbolic digit 1..9) times 10^e10; its text has symbolic characters
inline double sym_dec(const char* n, const char* pattern, int e10) {
  double v = 0, x[24], p = 1; int k = 0;
  for (; pattern[k]; ++k) { std::string nm(n); nm += '.'; nm += (char)('a' + k); x[k] = pattern[k] == 'd' ? __sym_intreal(nm.c_str(), 1, 9) : (double)(pattern[k] - '0'); v = v * 10 + x[k]; }
  for (int i = 0; i < (e10 < 0 ? -e10 : e10); ++i) p *= 10;
  if (e10 > 0) v = v * p; if (e10 < 0) v = v / p;
#ifdef SYM_ENGINE
  __sym_regdec(v, x, k, e10);
#endif
  return v; }
// string of exactly len symbolic bytes in [lo,hi]
std::string sym_str(const char* n, int len, unsigned char lo = 32, unsigned char hi = 126);
// string of length 0..maxlen (path split on the length)
std::string sym_strv(const char* n, int minlen, int maxlen, unsigned char lo = 32, unsigned char hi = 126);
void sym_notev(const char* label, long v);

// files: in the engine an in-memory file system; natively the (scratch) working directory
void vfs_put(const char* name, const std::string& data);
bool vfs_get(const char* name, std::string& data);     // false if the file does not exist
void vfs_space(long bytes);                            // total number of bytes that may still be written (-1: no limit)
void vfs_deny(const char* name, bool deny);            // opening for writing fails
void vfs_noread(const char* name);                       // an existing file that may be written but not read
