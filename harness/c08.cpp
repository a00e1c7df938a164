// C08: field encoders and decoders
#include "h.h"

// a directory integer field: every value that fits is recovered, everything else is refused
extern "C" void c08_deint() {
  int v = sym_anyint("v"), f = sym_choice("field", 10); std::string o;
  bool ok = FormatDEInt(o, v);
  sym_assert(ok == (v >= -9999999 && v <= 99999999), "exactly the integers that fit 8 columns are accepted");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(o.size() == 8, "the field is 8 columns wide");
  std::string line(80, ' '); line.replace(8 * f, 8, o); int r = v + 1;
  sym_assert(DEItemToInt(line, f, r, 0) && r == v, "the integer is recovered"); sym_reach("recovered");
  std::string s; sym_assert(DEItemToStr(line, f, s) && !s.empty() && s[0] != ' ' && std::string(8 - s.size(), ' ') + s == o, "the field's text is recovered"); }

// decoding arbitrary field contents: accepted exactly when it is a right justified integer
extern "C" void c08_de_decode() {
  int f = sym_choice("field", 2) * 9; int n = (int)sym_param("n", 4);
  std::string t = std::string(8 - n, ' '), s = sym_str("text", n, 32, 126); t += s;
  std::string line(80, 'x'); line.replace(8 * f, 8, t);
  int def = 77, r = -5; bool hasdef = sym_bool("default");
  bool ok = DEItemToInt(line, f, r, hasdef ? &def : 0);
  size_t i = 0; while (i < 8 && t[i] == ' ') ++i;
  if (i == 8) { sym_reach("blank"); sym_assert(ok == hasdef && (!ok || r == def), "a blank field gives the default"); return; }
  size_t j = i; bool neg = false; if (t[j] == '-') { neg = true; ++j; } else if (t[j] == '+') ++j;
  long v = 0; bool good = j < 8; for (; j < 8; ++j) { unsigned char d = (unsigned char)(t[j] - '0'); if (d > 9) { good = false; break; } v = v * 10 + d; }
  sym_assert(ok == good, "exactly right justified integers are accepted"); if (good) { sym_reach("integer"); sym_assert(r == (neg ? -v : v), "the value is the integer written"); } else sym_reach("malformed"); }
extern "C" void c08_de_string() {
  int f = sym_choice("field", 10); std::string t = sym_str("text", 8, 32, 126), line(80, 'x'); line.replace(8 * f, 8, t); std::string s = "?";
  sym_assert(DEItemToStr(line, f, s), "a field can be extracted");
  size_t i = 0; while (i < 8 && t[i] == ' ') ++i;
  sym_assert(s.size() == 8 - i && (i == 8 || t.compare(i, 8 - i, s) == 0), "the text is the field without leading blanks"); sym_reach("text"); }
extern "C" void c08_de_range() {
  int f = sym_choice("field", 16) - 3, n = sym_choice("length", 11) * 8 + sym_choice("extra", 2) - (int)sym_param("less", 0); if (n < 0) n = 0; std::string line(n, '7'), s; int v = 3;
  bool in = f >= 0 && f <= 9 && n >= 8 * (f + 1);
  bool a = DEItemToInt(line, f, v, 0), b = DEItemToStr(line, f, s);
  sym_assert(a == in && b == in, "a field outside the record is refused"); sym_assert(!a || v == 77777777, "the integer is recovered"); sym_reach(in ? "inside" : "outside"); }

// free format integers
extern "C" void c08_int() {
  int v = sym_anyint("v"); std::string pre = "12,"; std::string d = pre + istr(v); bool last = sym_bool("last"); d += last ? ";" : ","; int tail = (int)d.size(); d += "99;";
  int i = 3, r = v + 1; bool eor = false;
  sym_assert(ParseInt(d, i, r, eor, ',', ';'), "a written integer is accepted"); sym_assert(r == v, "the integer is recovered"); sym_assert(i == tail && eor == last, "parsing stops behind the delimiter"); sym_reach("int"); }
extern "C" void c08_int_range() {
  int n = 9 + sym_choice("digits", 6); std::string d = sym_bool("neg") ? "-" : ""; bool neg = !d.empty(); long v = 0; for (int k = 0; k < n; ++k) { char nm[8]; snprintf(nm, 8, "d%d", k); int x = k < 3 || k == n - 1 ? sym_int(nm, k ? 0 : 1, 9) : 4; d += (char)('0' + x); v = v * 10 + x; }
  d += ","; if (neg) v = -v; int i = 0, r = 0; bool eor = false; bool ok = ParseInt(d, i, r, eor, ',', ';');
  bool fit = v >= INT_MIN && v <= INT_MAX;
  sym_assert(ok == fit, "an integer that does not fit is refused"); sym_assert(!ok || r == v, "the integer is recovered"); sym_reach(fit ? "fits" : "too large"); }
static const char* DELIMS = ",;/|";
// arbitrary field text: no decoder leaves the record, and success means a delimiter was found
extern "C" void c08_any_text() {
  int n = (int)sym_param("n", 4); std::string d = sym_str("text", n, 32, 126); d += sym_bool("closed") ? "5,3;" : ""; char pd = ',', rd = ';'; if (sym_bool("odd")) { pd = '/'; rd = '|'; }
  int i = sym_choice("from", n + 1), from = i; bool eor = false, ok; int what = sym_choice("what", 3); std::string s; int iv = 0; int idef = 4; 
  if (what == 0) ok = ParseHString(d, i, s, eor, pd, rd); else if (what == 1) ok = ParseLString(d, i, s, eor, pd, rd); else ok = ParseInt(d, i, iv, eor, pd, rd, sym_bool("hasdef") ? &idef : 0);
  if (!ok) { sym_reach("rejected"); return; }
  sym_reach("accepted"); sym_assert(i > from && i <= (int)d.size(), "parsing moves forward inside the record");
  sym_assert(d[i - 1] == (eor ? rd : pd), "parsing stops behind the delimiter, which decides the end of the record");
  if (what == 1) { sym_assert((int)s.size() == i - 1 - from && d.compare(from, s.size(), s) == 0, "the text is what precedes the delimiter"); for (size_t k = 0; k < s.size(); ++k) sym_assert(s[k] != pd && s[k] != rd, "the text contains no delimiter"); } }
extern "C" void c08_hstring_length() {      // Hollerith constants whose count does not match the text
  int n = sym_choice("digits", 12); std::string d; long v = 0; for (int k = 0; k <= n; ++k) { char nm[8]; snprintf(nm, 8, "d%d", k); int x = k < 2 || k == n ? sym_int(nm, 0, 9) : 4; d += (char)('0' + x); v = v * 10 + x; }
  int hp = (int)d.size() + 1; d += "Habc,defg;"; int i = 0; bool eor = false; std::string s; bool ok = ParseHString(d, i, s, eor, ',', ';');
  bool fit = v == 3 || v == 8; sym_assert(ok == fit, "a Hollerith string is accepted exactly when its count leads to a delimiter");
  if (ok) { sym_assert(s == d.substr(hp, v) && i == hp + v + 1 && eor == (v == 8), "the string is recovered"); sym_reach("fits"); } else sym_reach("mismatch"); }

// strings written by the encoders, wherever in a record they start
static void check_lines(const std::string& out, int width, int seq, int de, char sec, std::string& joined) {
  size_t p = 0; joined.clear(); int k = seq;
  while (p < out.size()) {
    sym_assert(out.size() - p >= 81 && out[p + 80] == '\n', "every record has 80 columns");
    std::string l = out.substr(p, 80); joined += l.substr(0, width); p += 81; int v = 0; if (width == 64) sym_assert(DEItemToInt(l, 8, v, 0) && v == de, "every record points back to its directory entry");
    sym_assert(l[72] == sec, "every record has its section letter"); l[72] = ' '; sym_assert(DEItemToInt(l, 9, v, 0) && v == k, "the records are numbered consecutively"); ++k; } }
static void hstr(bool global) {
  int width = global ? 72 : 64; char pd = ',', rd = ';';
  int pre = sym_choice("near", 2) ? width - 14 + sym_choice("pre", 15) : sym_choice("pre0", 2) * 5; int len = sym_choice("lens", 2) ? sym_choice("len", (int)sym_param("maxlen", 6)) : (int)sym_param("long", 2) * width - 12 + sym_choice("len2", (int)sym_param("lens2", 10));
  std::string s = sym_str("s", std::min(len, 3), 32, 126); for (int i = 3; i < len; ++i) s += (char)('a' + i % 26);
  std::string fs, out, t; int idx = 7; bool last = sym_bool("last"); int first = pre ? pre - 1 : 0;
  if (pre) { fs = std::string(first, '1'); fs += pd; }
  bool ok = global ? AddSecHStr(s, fs, out, idx, pd, rd, last ? rd : pd) : AddPDHStr(s, fs, out, idx, 5, pd, rd, last ? rd : pd);
  sym_assert(ok, "a string can be written");
  if (!last) { t = "42;"; ok = global ? AddSecItem(t, fs, out, idx, pd, rd) : AddPDItem(t, fs, out, idx, 5, pd, rd); sym_assert(ok, "an item can be written after a string"); }
  sym_assert(fs.empty(), "the record is finished with the record delimiter");
  std::string j; check_lines(out, width, 7, 5, global ? 'G' : 'P', j); sym_assert(idx == 7 + (int)(out.size() / 81), "the record counter counts the records");
  int i = 0; bool eor = false; std::string r; if (pre) { sym_assert(ParseLString(j, i, r, eor, pd, rd) && !eor, "the preceding item is recovered"); }
  sym_assert(ParseHString(j, i, r, eor, pd, rd), "the written string can be parsed"); sym_assert(r == s, "the string is recovered"); sym_assert(eor == last, "the end of the record is recovered");
  if (!last) { int v = 0; sym_assert(ParseInt(j, i, v, eor, pd, rd) && v == 42 && eor, "the item after the string is recovered"); } sym_reach("string"); }
extern "C" void c08_hstring_pd() { hstr(false); }
extern "C" void c08_hstring_global() { hstr(true); }

// items packed into records
extern "C" void c08_items() {
  bool global = sym_bool("global"); int width = global ? 72 : 64; std::string fs, out, all; int idx = 3, n = 1 + sym_choice("items", (int)sym_param("items", 4));
  std::vector<std::string> its; for (int k = 0; k < n; ++k) { char nm[8]; snprintf(nm, 8, "l%d", k); int c = sym_choice(nm, 6); int l = c == 0 ? 0 : c == 1 ? 7 : c == 2 ? width / 2 - 1 : c == 3 ? width / 2 : c == 4 ? width - 2 : width - 1; its.push_back(std::string(l, (char)('a' + k))); }
  for (int k = 0; k < n; ++k) { std::string t = its[k] + (k == n - 1 ? ';' : ','); bool ok = global ? AddSecItem(t, fs, out, idx, ',', ';') : AddPDItem(t, fs, out, idx, 9, ',', ';'); sym_assert(ok && t.empty(), "an item that fits a record is accepted"); }
  sym_assert(fs.empty(), "the record is finished with the record delimiter"); std::string j; check_lines(out, width, 3, 9, global ? 'G' : 'P', j);
  std::string q; for (size_t k = 0; k < j.size(); ++k) if (j[k] != ' ') q += j[k]; for (int k = 0; k < n; ++k) all += its[k] + (k == n - 1 ? ';' : ',');
  sym_assert(q == all, "the items are recovered in order"); sym_reach("items"); }
extern "C" void c08_item_too_long() {
  bool global = sym_bool("global"); int width = global ? 72 : 64; std::string fs = "1,", out, t(width + sym_choice("more", 4) - 1, 'a'); t += ','; int idx = 1; size_t len = t.size();
  bool ok = global ? AddSecItem(t, fs, out, idx, ',', ';') : AddPDItem(t, fs, out, idx, 9, ',', ';');
  sym_assert(ok == ((int)len <= width), "an item longer than a record is refused"); sym_reach(ok ? "fits" : "too long"); }

// one 80-column record
extern "C" void c08_record() {
  int len = 78 + sym_choice("len", 5); std::string l(len, 'z'); int k = (int)sym_param("sym", 3); std::string s = sym_str("tail", k, 32, 126), sec = sym_str("section", 1, 32, 126);
  if (len > 72) l[72] = sec[0]; for (int i = 73; i < len; ++i) l[i] = i < len - k ? ' ' : s[i - (len - k)];
  int eol = sym_choice("eol", 3); vfs_put("r.txt", l + (eol == 0 ? "\n" : eol == 1 ? "\r\n" : ""));
  std::ifstream f("r.txt"); IGES_RECORD r; bool ok = ReadIGESRecord(&r, f, 0);
  bool good = len == 80; char c = sec[0]; if (!(c == 'F' || c == 'S' || c == 'G' || c == 'D' || c == 'P' || c == 'T')) good = false;
  int v = 0; size_t i = 0; while (i < (size_t)k && s[i] == ' ') ++i; if (i == (size_t)k) good = false; if (i < (size_t)k && (s[i] == '+')) ++i; if (i == (size_t)k) good = false; for (; i < (size_t)k; ++i) { unsigned char d = (unsigned char)(s[i] - '0'); if (d > 9) good = false; v = v * 10 + d; } if (v == 0) good = false;
  sym_assert(ok == good, "exactly records of 80 columns with a section letter and a positive sequence number are accepted"); sym_reach(good ? "record" : "malformed");
  if (ok) sym_assert(r.data == std::string(72, 'z') && r.section_type == c && r.index == v, "the record's parts are recovered"); }
// real numbers in the notations a file may use
extern "C" void c08_real() {
  static const char* X[] = { "", "E3", "E+3", "E-3", "D3", "D+3", "D-3", "E+03", "D-03", "E0", "D+0", "E+2", "D-12", "E12" };
  int k = sym_choice("exponent", 14), at = sym_choice("before", 2); double v = sym_dec("v", "ddd", sym_choice("point", 2) ? -1 : -3); char b[64]; snprintf(b, sizeof b, "%.10g", v); bool neg = sym_bool("negative"); std::string t = (at ? "7," : "") + std::string(neg ? "-" : "") + b + X[k] + (sym_bool("last") ? ";" : ","); if (sym_bool("more")) t += "8;"; size_t end = t.find_first_of(",;", at ? 2 : 0); int i = at ? 2 : 0; double r = -1; bool eor = false;
  sym_assert(ParseReal(t, i, r, eor, ',', ';') && i == (int)end + 1 && eor == (t[end] == ';'), "a real number can be read"); std::string c = t.substr(at ? 2 : 0, end - (at ? 2 : 0)); size_t d = c.find('D'); if (d != std::string::npos) c[d] = 'E'; double w = strtod(c.c_str(), 0); sym_assert(r == w, "a real number is what is written"); sym_reach("real"); }
