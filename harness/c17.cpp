// C17: accuracy of written numbers
#include "h.h"
static const double RES[] = { 1e-8, 1e-3, 1e-5, 1e-10, 0.5 };
static const char* PAT[] = { "d", "dd", "d0d", "ddd", "d00d", "dddd", "d0000d", "ddd0dd" , "dddddddd", "d000000000d" };
// a number in decimal: pattern of digits, position of the last digit
static double decimal(int& lastpos) {
  const char* p = PAT[sym_choice("pattern", (int)sym_param("patterns", 6))]; lastpos = sym_choice("exp", (int)sym_param("exps", 21)) - 10;
  double v = sym_dec("v", p, lastpos); return sym_bool("negative") ? -v : v; }
static bool textual(const std::string& t, char delim) {
  if (t.empty() || t[t.size() - 1] != delim || t.size() > 40) return false;
  size_t i = 0, n = t.size() - 1; if (t[i] == '-') ++i; int d = 0; bool mark = false;
  while (i < n && (unsigned char)(t[i] - '0') <= 9) { ++i; ++d; }
  if (i < n && t[i] == '.') { mark = true; ++i; while (i < n && (unsigned char)(t[i] - '0') <= 9) { ++i; ++d; } }
  if (!d) return false;
  if (i < n && (t[i] == 'E' || t[i] == 'D')) { mark = true; ++i; if (i < n && (t[i] == '+' || t[i] == '-')) ++i; int e = 0; while (i < n && (unsigned char)(t[i] - '0') <= 9) { ++i; ++e; } if (!e) return false; }
  return i == n && mark; }

extern "C" void c17_format() {
  double res = RES[sym_choice("res", (int)sym_param("nres", 5))]; int lp; double v = decimal(lp); char delim = sym_bool("last") ? ';' : ','; std::string t;
  sym_assert(FormatPDREal(t, v, delim, res), "a number can be written");
  sym_assert(textual(t, delim), "the text is an IGES real number with its delimiter"); sym_reach("written");
  int i = 0; double r = v + 1; bool eor = false; sym_assert(ParseReal(t, i, r, eor, ',', ';'), "a written number can be read"); sym_assert(i == (int)t.size() && eor == (delim == ';'), "the whole text is read");
  sym_assert(r == v || std::fabs(r - v) <= res, "the number read back is within the resolution"); sym_assert(res > 0.1 || (r == 0) == false || std::fabs(v) < res, "a number above the resolution is not lost"); }
// numbers with more digits than the resolution
extern "C" void c17_grid() {
  double res = RES[sym_choice("res", (int)sym_param("nres", 3))]; int d = sym_choice("den", 3); double v = sym_num("v", 1L << 40, d == 0 ? 1 : d == 1 ? 64 : 1024); std::string t;
  sym_assert(FormatPDREal(t, v, ',', res), "a number can be written"); int i = 0; double r = v + 1; bool eor = false;
  sym_assert(ParseReal(t, i, r, eor, ',', ';') && i == (int)t.size(), "a written number can be read"); sym_assert(std::fabs(r - v) <= res || std::fabs(r - v) <= std::fabs(v) * 1e-15, "the number read back is within the resolution"); sym_reach("grid"); }
extern "C" void c17_refused() {
  double res = -(double)sym_choice("res", 3); std::string t; sym_assert(!FormatPDREal(t, 1.5, ',', res), "a resolution of zero or less is refused"); sym_reach("refused"); }
// the same through a file
extern "C" void c17_file() {
  IGES a, b; double res = RES[sym_choice("res", (int)sym_param("nres", 4))]; a.globalData.minResolution = res; int lp; double v = decimal(lp); sym_assume(std::fabs(v) < 1e12);
  IGES_ENTITY_110* e = fresh<IGES_ENTITY_110>(a, 110); int c = sym_choice("coord", 3); (c == 0 ? e->X1 : c == 1 ? e->Y2 : e->Z2) = v; if (c != 0) e->X1 = 3; else e->X2 = 2e13;
  sym_assert(a.Write("o.igs", true), "a valid model can be written"); sym_assert(b.Read("o.igs"), "a written file can be read back"); IGES_ENTITY_110* g = got<IGES_ENTITY_110>(b, 110);
  double r = c == 0 ? g->X1 : c == 1 ? g->Y2 : g->Z2; sym_assert(r == v || std::fabs(r - v) <= res, "the number read back is within the file's resolution"); sym_reach("file");
  sym_assert(std::fabs(b.globalData.minResolution - res) <= res * 1e-6, "the resolution is read back"); }
// numbers as other programs write them
extern "C" void c17_parse() {
  int lp; double v = decimal(lp); bool neg = v < 0; const char* p = PAT[sym_choice("dummy", 1)]; (void)p; std::string t; FormatPDREal(t, neg ? -v : v, ',', 1e-8); sym_assume(true);
  int style = sym_choice("style", 4); size_t ex = t.find('E'); if (ex == std::string::npos) { ex = t.size() - 1; if (style) t.insert(ex, style == 1 ? "E0" : style == 2 ? "D0" : "D+00"); } else { if (style >= 2) t[ex] = 'D'; }
  if (neg) t = "-" + t; else if (sym_bool("plus")) t = "+" + t; int pad = sym_choice("pad", 2); t = std::string(pad, ' ') + t;
  int i = 0; double r = v + 1; bool eor = false; sym_assert(ParseReal(t, i, r, eor, ',', ';') && i == (int)t.size(), "a number can be read"); sym_assert(r == v || std::fabs(r - v) <= 1e-8, "the number is the one written"); sym_reach("parsed"); }
