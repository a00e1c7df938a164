// an independent reading of the layout of an IGES file
#pragma once
#include "h.h"
struct WEnt { int type, form, seq; int f[20]; std::vector<std::string> item; std::string data; };
struct WFile { std::vector<WEnt> ents; int ns, ng, nd, np; std::string global; };
static inline bool wdigit(char c) { return c >= '0' && c <= '9'; }
static inline bool wint(const std::string& s, long& v) {               // a right-justified integer field, blank: zero
  size_t i = 0; while (i < s.size() && s[i] == ' ') ++i; v = 0; if (i == s.size()) return true; bool neg = s[i] == '-'; if (neg || s[i] == '+') ++i; if (i == s.size()) return false;
  for (; i < s.size(); ++i) { if (!wdigit(s[i])) return false; v = v * 10 + (s[i] - '0'); } if (neg) v = -v; return true; }
static inline void wsplit(const std::string& d, char pd, char rd, std::vector<std::string>& out, size_t& end, bool& ok, size_t width) {
  size_t i = 0; ok = false; for (;;) {
    while (i < d.size() && d[i] == ' ') ++i;
    size_t b = i, n = 0; while (i < d.size() && wdigit(d[i])) n = n * 10 + (d[i++] - '0');
    if (i > b && i < d.size() && d[i] == 'H') { i += 1 + n; if (i >= d.size()) return; } else { while (i < d.size() && d[i] != pd && d[i] != rd) ++i; sym_assert(b / width == i / width, "a number does not cross records"); }
    if (i >= d.size()) return; std::string t = d.substr(b, i - b); out.push_back(t); if (d[i] == rd) { ok = true; end = i + 1; return; }
    if (d[i] != pd) return; ++i; } }
static inline bool wptr(const WFile& w, long p, int type, int type2 = 0) {
  if (p < 1 || p % 2 != 1 || p > w.nd) return false; int t = w.ents[(p - 1) / 2].type; return type == 0 || t == type || (type2 && t == type2); }
static inline bool wcurve(const WFile& w, long p) { if (!wptr(w, p, 0)) return false; int t = w.ents[(p - 1) / 2].type; return t == 100 || t == 102 || t == 104 || t == 110 || t == 126; }
static inline int wlen(const WEnt& e, bool& ok) {                       // number of parameters the type itself has
  long v[8]; for (int i = 0; i < 8; ++i) v[i] = 0; ok = true; size_t n = e.item.size(); for (size_t i = 1; i < 8 && i < n; ++i) if (!wint(e.item[i], v[i])) v[i] = -1;
  switch (e.type) { case 100: return 7; case 102: return 1 + v[1]; case 104: return 11; case 110: return 6; case 120: return 4; case 122: return 4; case 124: return 12; case 126: return 6 + (2 + v[1] + v[2]) + 4 * (v[1] + 1) + 5;
    case 128: return 9 + (2 + v[1] + v[3]) + (2 + v[2] + v[4]) + 4 * (v[1] + 1) * (v[2] + 1) + 4; case 142: return 5; case 144: return 4 + v[3]; case 154: return 8; case 164: return 5; case 180: return 1 + v[1]; case 186: return 3 + 2 * v[3];
    case 308: return 3 + v[3]; case 314: return 4; case 406: return 1 + v[1]; case 408: return 5; case 502: return 1 + 3 * v[1]; case 504: return 1 + 5 * v[1]; case 510: return 3 + v[2]; case 514: return 1 + 2 * v[1];
    case 508: { size_t i = 2; for (long k = 0; k < v[1]; ++k) { long np = 0; if (i + 4 >= n || !wint(e.item[i + 4], np)) { ok = false; return 0; } i += 5 + 2 * np; } return (int)i - 1; } }
  ok = false; return 0; }
#define WA(c, m) sym_assert(c, m)
static inline WFile well_formed(const std::string& t, char pd = ',', char rd = ';') {
  WFile w; w.ns = w.ng = w.nd = w.np = 0; WA(t.size() % 81 == 0 && t.size() >= 81, "every record has 80 columns");
  static const char order[] = "SGDPT"; int sec = 0, seq = 0; std::vector<std::string> D, P; std::string term; int nt = 0;
  for (size_t i = 0; i < t.size(); i += 81) {
    std::string r = t.substr(i, 80); WA(t[i + 80] == '\n', "every record ends a line"); for (int k = 0; k < 80; ++k) WA(r[k] != '\n' && r[k] != '\r' && r[k] != 0, "no line break inside a record");
    char s = r[72]; int ns = 0; while (ns < 5 && order[ns] != s) ++ns; WA(ns < 5, "a record belongs to a section"); WA(ns >= sec, "the sections are in order"); WA(ns <= sec + 1 || (sec == 1 && ns == 4), "no section is missing");
    if (ns != sec) { sec = ns; seq = 0; } long v = 0; WA(wint(r.substr(73, 7), v) && v == ++seq, "the records of a section are numbered from one");
    std::string b = r.substr(0, 72); switch (s) { case 'S': ++w.ns; break; case 'G': ++w.ng; w.global += b; break; case 'D': ++w.nd; D.push_back(b); break; case 'P': ++w.np; P.push_back(b); break; default: ++nt; term = r; } }
  WA(w.ns > 0 && w.ng > 0 && nt == 1, "start, global and one terminate record are present"); WA(w.nd % 2 == 0, "two directory records per entity");
  char want[81]; snprintf(want, sizeof want, "S%7dG%7dD%7dP%7d", w.ns, w.ng, w.nd, w.np); long cnt[4]; for (int k = 0; k < 4; ++k) { WA(term[8 * k] == order[k] && wint(term.substr(8 * k + 1, 7), cnt[k]), "the terminate record has the four counts"); }
  WA(cnt[0] == w.ns && cnt[1] == w.ng && cnt[2] == w.nd && cnt[3] == w.np, "the terminate record has the true counts"); for (int k = 32; k < 72; ++k) WA(term[k] == ' ', "the rest of the terminate record is blank");
  size_t p = 0; for (int i = 0; i < w.nd; i += 2) {
    WEnt e; e.seq = i + 1; for (int k = 0; k < 20; ++k) e.f[k] = 0; const std::string &a = D[i], &b = D[i + 1]; long v = 0;
    for (int k = 0; k < 9; ++k) { WA(wint(a.substr(8 * k, 8), v), "a directory field is an integer"); e.f[k] = (int)v; }
    for (int k = 0; k < 9; ++k) { if (k == 5 || k == 6 || k == 7) continue; WA(wint(b.substr(8 * k, 8), v), "a directory field is an integer"); e.f[10 + k] = (int)v; }
    e.type = e.f[0]; e.form = e.f[14]; WA(e.type == e.f[10] && e.type > 0, "both directory records name the type"); WA(e.f[1] == (int)p + 1, "the parameter pointer names the first parameter record"); int n = e.f[13]; WA(n >= 1 && p + n <= P.size(), "the parameter line count fits");
    for (int k = 0; k < n; ++k, ++p) { WA(P[p][64] == ' ' && wint(P[p].substr(65, 7), v) && v == e.seq, "a parameter record points back to its entity"); e.data += P[p].substr(0, 64); }
    size_t end = 0; bool ok = false; wsplit(e.data, pd, rd, e.item, end, ok, 64); WA(ok, "the parameter data end with the record delimiter"); WA(wint(e.item[0], v) && v == e.type, "the parameter data begin with the type number");
    size_t recs = (end + 63) / 64; for (size_t c = end; c < 64 * recs; ++c) WA(e.data[c] == ' ', "nothing follows the record delimiter in its record");
    w.ents.push_back(e); }
  WA(p == P.size(), "every parameter record belongs to an entity");
  for (size_t i = 0; i < w.ents.size(); ++i) {
    const WEnt& e = w.ents[i]; WA(e.f[2] == 0 || wptr(w, e.f[2], 308) , "no structure pointer to a missing entity"); WA(e.f[3] >= 0 || wptr(w, -e.f[3], 304), "a line font pointer names an entity"); WA(e.f[4] >= 0 || wptr(w, -e.f[4], 406), "a level pointer names a property"); WA(e.f[5] == 0 || wptr(w, e.f[5], 410, 402), "a view pointer names a view");
    WA(e.f[6] == 0 || wptr(w, e.f[6], 124), "a transform pointer names a transformation matrix"); WA(e.f[7] == 0 || wptr(w, e.f[7], 402), "a label pointer names an association"); WA(e.f[12] >= 0 || wptr(w, -e.f[12], 314), "a colour pointer names a colour");
    bool ok = true; int len = wlen(e, ok), m = (int)e.item.size() - 1; if (e.type == 314 && m == 3) len = 3; WA(ok && (m >= len), "the parameters are complete"); std::vector<long> v(m + 1); for (int k = 1; k <= m; ++k) if (!wint(e.item[k], v[k])) v[k] = -1;
    int k = len + 1; for (int g = 0; g < 2 && k <= m; ++g) { long n = v[k]; WA(n >= 0 && k + n <= m, "the optional pointer counts fit"); for (long j = 1; j <= n; ++j) WA(wptr(w, v[k + j], g ? 406 : 402, g ? 0 : 212), "an optional pointer names a property"); k += (int)n + 1; } WA(k == m + 1, "nothing follows the optional pointers");
    #define PT(i, t) WA(wptr(w, v[i], t), "a pointer names an entity of the right type")
    #define PC(i) WA(wcurve(w, v[i]), "a pointer names a curve")
    switch (e.type) { case 102: for (int j = 2; j <= len; ++j) PC(j); break; case 120: PT(1, 110); PC(2); break; case 122: case 164: PC(1); break; case 142: PT(2, 0); PC(3); PC(4); break;
      case 144: PT(1, 0); if (v[2] || v[4]) PT(4, 142); for (int j = 5; j <= len; ++j) PT(j, 142); break; case 180: { int depth = 0; for (int j = 2; j <= len; ++j) if (v[j] < 0) { WA(wptr(w, -v[j], 0), "an operand names an entity"); ++depth; } else { WA(v[j] >= 1 && v[j] <= 3 && depth >= 2, "an operation has two operands"); --depth; } WA(depth == 1, "the tree has one result"); } break;
      case 186: PT(1, 514); for (int j = 4; j <= len; j += 2) PT(j, 514); break; case 308: for (int j = 4; j <= len; ++j) PT(j, 0); break; case 408: PT(1, 308); break; case 504: for (int j = 2; j <= len; j += 5) { PC(j); PT(j + 1, 502); PT(j + 3, 502); } break;
      case 508: { int j = 2; for (long q = 0; q < v[1]; ++q) { PT(j + 1, v[j] ? 502 : 504); long np = v[j + 4]; for (long x = 0; x < np; ++x) PC(j + 6 + 2 * (int)x); j += 5 + 2 * (int)np; } } break;
      case 510: PT(1, 0); for (int j = 4; j <= len; ++j) PT(j, 508); break; case 514: for (int j = 2; j <= len; j += 2) PT(j, 510); break; } }
  return w; }
