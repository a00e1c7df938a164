// Common parts of the harnesses.  Private members are made visible only to observe state.
#pragma once
#include <cmath>
#include <cstring>
#include <cstdio>
#include <climits>
#include <string>
#include <list>
#include <vector>
#include <map>
#include <set>
#include <utility>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#define private public
#define protected public
#include <core/iges.h>
#include <core/all_entities.h>
#include <core/iges_io.h>
#include <geom/mcad_elements.h>
#include <geom/mcad_utils.h>
#include <geom/mcad_helpers.h>
#undef private
#undef protected
#include "sym.h"

// equality of a value with the one read back: one unit of the file's minimum resolution
static inline bool nearr(double a, double b, double tol = 1.1e-8) { return a == b || std::fabs(a - b) <= tol; }

template<class T> T* fresh(IGES& g, int type) {
  IGES_ENTITY* e = 0; bool ok = g.NewEntity(type, &e);
  sym_assert(ok && e != 0 && e->GetEntityType() == type, "a new entity of the requested type can be created");
  return (T*)e; }

static inline int count(IGES& g, int type) {
  int n = 0; for (size_t i = 0; i < g.entities.size(); ++i) if (g.entities[i]->GetEntityType() == type) ++n;
  return n; }

// the k-th entity of a type
template<class T> T* find(IGES& g, int type, int k = 0) {
  for (size_t i = 0; i < g.entities.size(); ++i)
    if (g.entities[i]->GetEntityType() == type && k-- == 0) return (T*)g.entities[i];
  return 0; }
template<class T> T* got(IGES& g, int type, int k = 0) {
  T* p = find<T>(g, type, k); sym_assert(p != 0, "the entity is present after reading the file back"); return p; }

static inline void write_read(IGES& a, IGES& b, const char* fn = "out.igs") {
  bool ok = a.Write(fn, true);
  sym_assert(ok, "a valid model can be written");
  ok = b.Read(fn);
  sym_assert(ok, "a written file can be read back");
  sym_assert(a.entities.size() == b.entities.size(), "the file read back has the same number of entities"); }

// a coordinate: k/16 with 0 < |k| <= 2^34 (from 1/16 of a unit to 1e9), exact in binary and in decimal
// (with the parameter "fine": k/10^8 with 0 < |k| <= 10^13, from the resolution of a file to 1e5)
static inline double pick(const char* n, int signs = 3, long hi = 1L << 34) { if (sym_param("fine", 0)) return sym_num(n, 10000000000000L, 100000000, signs); return sym_num(n, hi, 16, signs); }

// ---- building the text of an IGES file ----
struct FEnt {
  int type, form; std::string pd;            // parameter data after the type number, including the record delimiter
  std::string de[20];                        // directory fields given explicitly (empty: the default)
  FEnt(int t, const std::string& p, int f = 0) : type(t), form(f), pd(p) {} };
static inline std::string rj(const std::string& s, int w) { return (int)s.size() >= w ? s : std::string(w - s.size(), ' ') + s; }
static inline std::string rj(int v, int w) { char b[16]; snprintf(b, sizeof b, "%d", v); return rj(std::string(b), w); }
static inline std::string lj(const std::string& s, int w) { return (int)s.size() >= w ? s : s + std::string(w - s.size(), ' '); }
static inline std::string frec(const std::string& text, char sec, int seq) { return lj(text, 72) + sec + rj(seq, 7) + "\n"; }
struct FFile {
  std::vector<std::string> start; std::string global; std::vector<FEnt> ents;
  std::vector<std::string> glines;           // when not empty: the global section as lines
  FFile() { start.push_back("generated"); global = gl(2, "2HMM", "1.0"); }
  static std::string gl(int unit, const std::string& uname, const std::string& scale) {
    return "1H,,1H;,4HPART,7Hout.igs,3HSYS,4H1.00,32,38,6,308,15,4HPART," + scale + "," + std::string(1, (char)('0' + unit / 10)).substr(unit > 9 ? 0 : 1) + std::string(1, (char)('0' + unit % 10)) + "," + uname + ",1,0.01,15H20200101.101010,1E-8,1000.0,2HME,3HORG,11,0,15H20200101.101010,;"; }
  int add(int t, const std::string& pd, int form = 0) { ents.push_back(FEnt(t, pd, form)); return 2 * (int)ents.size() - 1; }
  // split a parameter or global string into pieces of at most w columns, after delimiters
  static std::vector<std::string> split(const std::string& s, int w, char pd, char rd) {
    std::vector<std::string> r; size_t i = 0;
    while (i < s.size()) {
      size_t n = s.size() - i;
      if (n > (size_t)w) { n = w; while (n > 1 && s[i + n - 1] != pd && s[i + n - 1] != rd) --n; if (n <= 1) n = w; }
      r.push_back(s.substr(i, n)); i += n; }
    if (r.empty()) r.push_back("");
    return r; }
  std::string text() const {
    std::string o; int s = 0, g = 0, d = 0, p = 0;
    for (size_t i = 0; i < start.size(); ++i) o += frec(start[i], 'S', ++s);
    std::vector<std::string> gp = glines.empty() ? split(global, 72, ',', ';') : glines;
    for (size_t i = 0; i < gp.size(); ++i) o += frec(gp[i], 'G', ++g);
    std::vector<std::vector<std::string> > pds; std::vector<int> at; int q = 1;
    for (size_t i = 0; i < ents.size(); ++i) {
      std::string full = rj(ents[i].type, 1) + "," + ents[i].pd;
      std::vector<std::string> v = split(full, 64, ',', ';');
      pds.push_back(v); at.push_back(q); q += (int)v.size(); }
    for (size_t i = 0; i < ents.size(); ++i) {
      const FEnt& e = ents[i]; std::string f[20];
      f[0] = rj(e.type, 8); f[1] = rj(at[i], 8); for (int k = 2; k < 8; ++k) f[k] = rj(0, 8); f[8] = "00000000";
      f[10] = f[0]; f[11] = rj(0, 8); f[12] = rj(0, 8); f[13] = rj((int)pds[i].size(), 8); f[14] = rj(e.form, 8);
      f[15] = f[16] = f[17] = std::string(8, ' '); f[18] = rj(0, 8);
      for (int k = 0; k < 20; ++k) if (!e.de[k].empty()) f[k] = rj(e.de[k], 8);
      std::string a, b; for (int k = 0; k < 9; ++k) { a += f[k]; b += f[10 + k]; }
      o += frec(a, 'D', ++d); o += frec(b, 'D', ++d); }
    for (size_t i = 0; i < ents.size(); ++i)
      for (size_t j = 0; j < pds[i].size(); ++j) o += frec(lj(pds[i][j], 64) + rj(2 * (int)i + 1, 8), 'P', ++p);
    o += frec("S" + rj(s, 7) + "G" + rj(g, 7) + "D" + rj(d, 7) + "P" + rj(p, 7), 'T', 1);
    return o; }
};
static inline bool read_text(IGES& g, const std::string& text, const char* fn = "in.igs") { vfs_put(fn, text); return g.Read(fn); }
static inline std::string istr(long v) { std::ostringstream o; o << v; return o.str(); }
