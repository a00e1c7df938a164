// C16: a failed or repeated read leaves a clean model
#include "models.h"
#include <clocale>
static std::string source() {
  FFile f; f.start.push_back("second line"); f.global = "1H/,1H!,4HPART,6Hin.igs,3HSYS,4H1.00,32,38,6,308,15,4HRECV,2.0,4,2HFT,9,0.5,15H20200101.101010,1E-6,1000.0,2HME,3HORG,8,2,15H20200101.101010,4HNOTE;";
  for (size_t i = 0; i < f.global.size(); ++i) { if (f.global[i] == ',') f.global[i] = '/'; else if (f.global[i] == ';') f.global[i] = '!'; }
  f.glines = FFile::split(f.global, 72, '/', '!');
  f.add(110, "0.,0.,0.,1.,1.,0.;"); f.add(314, "10.,20.,30.,4HNAME;"); f.add(110, "5.,0.,0.,1.,1.,0.;"); f.add(102, "2,5,9;"); f.add(110, "1.,1.,0.,7.,7.,0.;");
  f.ents[0].de[12] = "-3"; std::string t = f.text(), o;
  // the parameter section uses the delimiters of the file
  for (size_t i = 0; i < t.size(); ++i) { size_t r = i / 81; if (t[r * 81 + 72] == 'P' && i % 81 < 64) { if (t[i] == ',') t[i] = '/'; if (t[i] == ';') t[i] = '!'; } }
  return t; }
static std::string good() { FFile f; f.add(110, "3.,0.,0.,1.,1.,0.;"); f.add(100, "0.,0.,0.,2.,0.,0.,2.;"); return f.text(); }
static void sameG(IGES& a, IGES& b) {
  IGES_GLOBAL &x = a.globalData, &y = b.globalData;
  sym_assert(x.pdelim == y.pdelim && x.rdelim == y.rdelim, "the delimiters are those of a new model"); sym_assert(x.modelScale == y.modelScale && x.unitsFlag == y.unitsFlag && x.cf == y.cf && x.convert == y.convert && x.minResolution == y.minResolution && x.unitsName == y.unitsName, "unit and scale are those of a new model");
  sym_assert(x.maxLinewidthGrad == y.maxLinewidthGrad && x.maxLinewidth == y.maxLinewidth && x.maxCoordinateValue == y.maxCoordinateValue && x.draftStandard == y.draftStandard && x.igesVersion == y.igesVersion, "the settings are those of a new model");
  sym_assert(x.productIDSS == y.productIDSS && x.productIDRS == y.productIDRS && x.fileName == y.fileName && x.nativeSystemID == y.nativeSystemID && x.author == y.author && x.organization == y.organization && x.applicationNote == y.applicationNote && x.creationDate == y.creationDate && x.modificationDate == y.modificationDate && x.preprocessorVersion == y.preprocessorVersion, "the names are those of a new model");
  sym_assert(a.GetNHeaderLines() == b.GetNHeaderLines(), "the header is that of a new model"); size_t m, n; const char **h, **i; bool r = a.GetHeaders(m, h), q = b.GetHeaders(n, i); sym_assert(r == q && m == n, "the header is that of a new model"); for (size_t k = 0; k < m && r; ++k) sym_assert(!strcmp(h[k], i[k]), "the header is that of a new model");
  sym_assert(a.entities.size() == b.entities.size(), "the model holds exactly the entities of the file"); }
static void same(IGES& a, IGES& b) {
  sameG(a, b);
  for (size_t i = 0; i < a.entities.size(); ++i) { sym_assert(a.entities[i]->GetEntityType() == b.entities[i]->GetEntityType(), "the entities are those of the file"); sym_assert(a.entities[i]->refs.size() == b.entities[i]->refs.size(), "the references are those of the file"); if (a.entities[i]->GetEntityType() == 110) sym_assert(((IGES_ENTITY_110*)a.entities[i])->X1 == ((IGES_ENTITY_110*)b.entities[i])->X1 && ((IGES_ENTITY_110*)a.entities[i])->Y2 == ((IGES_ENTITY_110*)b.entities[i])->Y2, "the coordinates are those of the file"); } }
static std::string broken(int step) {
  std::string t = source(); int n = (int)t.size(), recs = n / 81;
  if (sym_bool("truncate")) { int at = sym_choice("at", n / step) * step; return t.substr(0, at); }
  int r = sym_choice("record", recs), w = sym_choice("column", 9); static const int col[] = { 0, 7, 15, 23, 31, 70, 71, 72, 79 };
  char was = t[r * 81 + col[w]]; t[r * 81 + col[w]] = (char)sym_int("byte", 1, 255); sym_assume(t[r * 81 + col[w]] != was); return t; }
// reading after a read that failed, or clearing and reading again, gives the same as reading with a new object
extern "C" void c16_failed() {
  IGES a, f; std::string t = broken((int)sym_param("step", 27)); setlocale(LC_NUMERIC, "C.UTF-8"); std::string loc = setlocale(LC_NUMERIC, 0);
  bool ok = read_text(a, t); sym_assert(loc == setlocale(LC_NUMERIC, 0), "the locale is as before"); if (ok) sym_reach("read"); else sym_reach("failed");
  if (!ok) sameG(a, f); else { IGES b; sym_assert(b.Read("in.igs"), "reading is repeatable"); same(a, b); a.Clear(); sameG(a, f); }
  int next = sym_choice("next", 2); IGES c;
  if (next == 0) { sym_assert(read_text(a, good(), "good.igs") && c.Read("good.igs"), "another file can be read"); same(a, c); sym_reach("reread"); }
  else { mk110(a, 1, 2); mk110(c, 1, 2); sym_assert(a.Write("a.igs", true) && c.Write("a.igs", true), "another model can be built and written"); a.Clear(); c.Clear(); sameG(a, f); sym_reach("rebuilt"); } }
// a model that already holds something
extern "C" void c16_used() {
  IGES a, c, f; int k = sym_choice("use", 6); std::string s = source(), t; vfs_put("good.igs", good()); vfs_put("src.igs", s);
  if (k == 0) { const char* h = "header"; a.AddToHeader(h); a.globalData.author = "X"; a.globalData.unitsFlag = UNIT_INCH; a.globalData.pdelim = '#'; }
  if (k == 1) { mk110(a); a.DelEntity(a.entities[0]); const char* h = "header"; a.AddToHeader(h); }
  if (k == 2) { mk110(a); mk110(a, 4, 4); sym_assert(!a.Read("good.igs"), "reading into a model with entities is refused"); sym_assert(a.entities.size() == 2, "a refused read changes nothing"); a.Clear(); sameG(a, f); }
  if (k == 3) { sym_assert(a.Read("src.igs"), "a file can be read"); sym_assert(!a.Read("good.igs"), "reading into a model with entities is refused"); a.Clear(); sameG(a, f); }
  if (k == 4) { sym_assert(a.Read("src.igs"), "a file can be read"); while (!a.entities.empty()) a.DelEntity(a.entities.back()); }
  if (k == 5) { sym_assert(!a.Read("missing.igs"), "a file that does not exist is reported"); sym_assert(!a.Read(0), "a missing name is reported"); sameG(a, f); }
  bool second = sym_bool("second"); const char* fn = second ? "src.igs" : "good.igs"; sym_assert(a.Read(fn) && c.Read(fn), "a file can be read into a used model"); sym_reach("used"); same(a, c); }
