// C04: global parameters survive writing and reading
#include "models.h"

static const int NF = 7;
static std::string* field(IGES& g, int i) {
  std::string* f[NF] = { &g.globalData.productIDSS, &g.globalData.nativeSystemID, &g.globalData.productIDRS, &g.globalData.author, &g.globalData.organization, &g.globalData.applicationNote, &g.globalData.unitsName };
  return f[i]; }
static void base(IGES& g) {
  mk110(g);
  static const char* v[NF] = { "PART;1", "SYS,2", "RECV", "A. Author", "Org, Inc;", "note 1HX", "CUBIT" };
  for (int i = 0; i < NF; ++i) *field(g, i) = v[i];
  g.globalData.unitsFlag = UNIT_EXTERN; g.globalData.creationDate = "20010203.040506"; g.globalData.maxLinewidthGrad = 7; g.globalData.maxLinewidth = 0.5; g.globalData.draftStandard = (IGES_DRAFTING_STANDARD)3; }
static void same(IGES& a, IGES& b, const std::string* w, double lw, int grad, int draft, const std::string& date, double res) {
  static const char* m[NF] = { "the sending product ID is read back", "the native system ID is read back", "the receiving product ID is read back", "the author is read back", "the organisation is read back", "the application note is read back", "the name of the unit is read back" };
  for (int i = 0; i < NF; ++i) sym_assert(*field(b, i) == w[i], m[i]);
  sym_assert(b.globalData.maxLinewidthGrad == grad, "the number of line weights is read back"); sym_assert(nearr(b.globalData.maxLinewidth, lw, res), "the maximum line width is read back");
  sym_assert((int)b.globalData.draftStandard == draft, "the drafting standard is read back"); sym_assert(b.globalData.creationDate == date, "the creation date is read back");
  sym_assert(b.globalData.pdelim == a.globalData.pdelim && b.globalData.rdelim == a.globalData.rdelim, "the delimiters are read back"); sym_assert(b.globalData.fileName == "out.igs", "the file name is read back");
  sym_assert(b.globalData.modelScale == 1.0, "the model scale is read back"); sym_assert(nearr(b.globalData.minResolution, res, res / 1000), "the resolution is read back"); }

// one string of any content and length, any amount of text before it
extern "C" void c04_strings() {
  IGES a, b; base(a); int k = sym_choice("which", NF);
  std::string s = sym_strv("text", k == 6 || k < 2 ? 1 : 0, (int)sym_param("maxlen", 5)); *field(a, k) = s;
  std::string w[NF]; for (int i = 0; i < NF; ++i) w[i] = *field(a, i);
  if (k == 2 && s.empty()) w[2] = w[0];
  if (s.size() < 3) { int j = (k + 1) % 6; int n = sym_choice("pad", 80); w[j] = std::string(n + 1, 'x'); *field(a, j) = w[j]; if (k == 2 && s.empty()) w[2] = w[0]; }
  write_read(a, b); sym_reach("strings"); if (s.empty()) sym_reach("empty");
  same(a, b, w, 0.5, 7, 3, "20010203.040506", 1e-8);
  sym_assert(b.globalData.unitsFlag == UNIT_EXTERN && std::string(b.GetUnitName()) == w[6], "a user-specified unit is read back"); }

// long strings over several records
extern "C" void c04_long() {
  IGES a, b; base(a); int k = sym_choice("which", 6); int n = 60 + sym_choice("len", (int)sym_param("lens", 30)) * 5;
  std::string s(n, 'y'); s[0] = sym_int("c0", 32, 126); s[n / 2] = sym_int("c1", 32, 126); s[n - 1] = sym_int("c2", 32, 126); *field(a, k) = s;
  std::string w[NF]; for (int i = 0; i < NF; ++i) w[i] = *field(a, i);
  write_read(a, b); sym_reach("long"); same(a, b, w, 0.5, 7, 3, "20010203.040506", 1e-8); }

extern "C" void c04_delims() {
  static const char d[] = ",;/|:#!~@_Az\"'*"; IGES a, b; base(a);
  char p = d[sym_choice("pd", 15)], r = d[sym_choice("rd", 15)]; if (p == r || p == ';') return;
  a.globalData.pdelim = p; a.globalData.rdelim = r; int k = sym_choice("which", 6); *field(a, k) = std::string("x") + p + r + p;
  std::string w[NF]; for (int i = 0; i < NF; ++i) w[i] = *field(a, i);
  IGES_ENTITY_110* l = mk110(a, 3, 4); bool ok = l->AddComment("c"); mk(a, 406); sym_assert(ok, "a comment is accepted");
  write_read(a, b); sym_reach("delims"); same(a, b, w, 0.5, 7, 3, "20010203.040506", 1e-8);
  IGES_ENTITY_110* g = got<IGES_ENTITY_110>(b, 110, 1); sym_assert(nearr(g->X1, 3) && nearr(g->Y2, 5), "parameters are read back whatever the delimiters");
  IGES_ENTITY_406* q = got<IGES_ENTITY_406>(b, 406); const std::string* s = (const std::string*)q->data; sym_assert(s && *s == "N", "properties are read back whatever the delimiters"); }

extern "C" void c04_numbers() {
  static const double R[] = { 1e-8, 1e-6, 1e-3, 0.01, 2.5e-5 }; IGES a, b; base(a); a.globalData.unitsFlag = UNIT_MILLIMETER;
  double res = R[sym_choice("res", 5)], lw = sym_num("lw", 1000000, 16, 1); int grad = sym_int("grad", 1, 100000), draft = sym_int("draft", 0, 7);
  a.globalData.minResolution = res; a.globalData.maxLinewidth = lw; a.globalData.maxLinewidthGrad = grad; a.globalData.draftStandard = (IGES_DRAFTING_STANDARD)draft;
  std::string w[NF]; for (int i = 0; i < NF; ++i) w[i] = *field(a, i); w[6] = "MM";
  write_read(a, b); sym_reach("numbers"); same(a, b, w, lw, grad, draft, "20010203.040506", res);
  sym_assert(a.globalData.maxLinewidthGrad == grad && a.globalData.maxLinewidth == lw && a.globalData.minResolution == res, "writing does not change the settings of the model");
  sym_assert(b.globalData.unitsFlag == UNIT_MILLIMETER, "the unit is read back"); }

// creation dates: a valid one is kept, anything else replaced by a valid one
extern "C" void c04_date() {
  IGES a, b; base(a); bool lng = sym_bool("long"); std::string d = sym_str("digit", lng ? 15 : 13, '0', '9'); d[lng ? 8 : 6] = '.'; a.globalData.creationDate = d;
  const char* c = d.c_str() + (lng ? 4 : 2);
#define TWO(i) ((c[i] - '0') * 10 + c[(i) + 1] - '0')
  int mo = TWO(0), da = TWO(2), h = TWO(5), mi = TWO(7), s = TWO(9);
  bool len31 = mo == 1 || mo == 3 || mo == 5 || mo == 7 || mo == 8 || mo == 10 || mo == 12; 
  bool ok = mo >= 1 && mo <= 12 && da >= 1 && da <= (mo == 2 ? 29 : len31 ? 31 : 30) && h <= 23 && mi <= 59 && s <= 60;
  write_read(a, b); if (ok) sym_reach("valid"); else sym_reach("invalid");
  if (ok) sym_assert(b.globalData.creationDate == d, "a valid creation date is kept"); else sym_assert(b.globalData.creationDate != d, "an invalid creation date is replaced"); }

// a date in a file: accepted exactly when it is a date
extern "C" void c04_date_read() {
  IGES b; FFile f; f.add(110, "0.,0.,0.,1.,1.,0.;"); std::string d = sym_str("c", 15, 32, 126); int at = sym_choice("at", 14);
  static const char v[] = "20200131.235960"; for (int i = 0; i < 15; ++i) if (i < at || i > at + 1) d[i] = v[i];
  for (int i = 0; i < 15; ++i) if (i != 8) sym_assume((d[i] >= '0') & (d[i] <= '9'));
  const char* c = d.c_str() + 4; int mo = TWO(0), da = TWO(2), h = TWO(5), mi = TWO(7), s = TWO(9);
  bool len31 = mo == 1 || mo == 3 || mo == 5 || mo == 7 || mo == 8 || mo == 10 || mo == 12;
  bool ok = d[8] == '.' && mo >= 1 && mo <= 12 && da >= 1 && da <= (mo == 2 ? 29 : len31 ? 31 : 30) && h <= 23 && mi <= 59 && s <= 60;
  size_t p = f.global.find("15H20200101.101010"); f.global.replace(p + 3, 15, d);
  bool r = read_text(b, f.text()); if (ok) sym_reach("accepted"); else sym_reach("rejected");
  sym_assert(r == ok, "a file is accepted exactly if its creation date is a date"); }

// files with optional parameters left empty, or with the section ended early
extern "C" void c04_defaults() {
  IGES b; FFile f; f.add(110, "0.,0.,0.,1.,1.,0.;");
  std::vector<std::string> it; const char* v[] = { "1H,", "1H;", "4HPART", "6Hin.igs", "3HSYS", "4H1.00", "32", "38", "6", "308", "15", "4HRECV", "1.0", "2", "2HMM", "5", "0.25", "15H20200101.101010", "1E-6", "1000.0", "2HME", "3HORG", "8", "2", "15H20200202.202020", "4HNOTE" };
  for (int i = 0; i < 26; ++i) it.push_back(v[i]);
  static const int opt[] = { 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25, 0, 1 }; int k = opt[sym_choice("empty", 14)], end = 19 + sym_choice("end", 8);
  bool two = sym_bool("two"); int k2 = opt[sym_choice("empty2", two ? 12 : 1)]; if (!two) k2 = k; if (end <= 19) end = 19;
  it[k] = ""; it[k2] = ""; f.global.clear();
  for (int i = 0; i < 26; ++i) { if (i >= end) { break; } f.global += it[i]; bool last = i == end - 1 || i == 25; f.global += last ? ";" : ","; }
  if (end - 1 > 0 && it[end - 1].empty()) { /* a trailing empty field */ }
  bool r = read_text(b, f.text()); sym_assert(r, "a file whose optional global parameters are missing is read"); sym_reach("defaults");
#define E(i) (k == i || k2 == i || end <= i)
  sym_assert(b.globalData.productIDRS == (E(11) ? "PART" : "RECV"), "the receiving product ID defaults to the sending one");
  sym_assert(b.globalData.modelScale == 1.0, "the model scale defaults to one");
  sym_assert(b.globalData.unitsFlag == UNIT_MILLIMETER && b.globalData.unitsName == "MM", "lengths are converted to millimetres");
  IGES_ENTITY_110* l = got<IGES_ENTITY_110>(b, 110); sym_assert(nearr(l->X2, E(13) ? 25.4 : 1.0), "the unit defaults to inches");
  sym_assert(b.globalData.maxLinewidthGrad == (E(15) ? 1 : 5), "the number of line weights defaults to one"); sym_assert(nearr(b.globalData.maxLinewidth, 0.25), "the line width is read");
  sym_assert(b.globalData.author == (E(20) ? "" : "ME") && b.globalData.organization == (E(21) ? "" : "ORG"), "author and organisation default to nothing");
  sym_assert((int)b.globalData.draftStandard == (E(23) ? 0 : 2), "the drafting standard defaults to none"); sym_assert(b.globalData.modificationDate == (E(24) ? "" : "20200202.202020"), "the modification date defaults to nothing");
  sym_assert(b.globalData.applicationNote == (E(25) ? "" : "NOTE"), "the application note defaults to nothing"); sym_assert(b.globalData.pdelim == ',' && b.globalData.rdelim == ';', "the delimiters have their defaults"); }

// required parameters may not be missing
extern "C" void c04_required() {
  IGES b; FFile f; f.add(110, "0.,0.,0.,1.,1.,0.;");
  const char* v[] = { "1H,", "1H;", "4HPART", "6Hin.igs", "3HSYS", "4H1.00", "32", "38", "6", "308", "15", "4HRECV", "1.0", "2", "2HMM", "5", "0.25", "15H20200101.101010", "1E-6", "1000.0", "2HME", "3HORG", "8", "2", "15H20200202.202020", "4HNOTE" };
  static const int req[] = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18 }; int k = req[sym_choice("missing", 12)]; f.global.clear();
  for (int i = 0; i < 26; ++i) { if (i != k) f.global += v[i]; f.global += i == 25 ? ";" : ","; }
  bool r = read_text(b, f.text()); sym_reach("required"); sym_assert(!r && b.entities.empty(), "a file without a required global parameter is refused"); }
