// C11: changing units or scale multiplies every length and nothing else
#include "scale.h"
static const double SC[] = { 2, 0.5, 64, 0.015625, 1 };
// a change of the model scale; every number is symbolic
extern "C" void c11_scale() {
  IGES g; int m = sym_choice("model", (int)(sym_param("hi", NM) - sym_param("lo", 0))) + (int)sym_param("lo", 0); build(g, m); std::vector<Was> w = fill(g, true); double s = 1, r0 = g.globalData.minResolution;
  int n = sym_choice("twice", 2) + 1; for (int i = 0; i < n; ++i) { s = SC[sym_choice(i ? "s1" : "s0", 5)]; sym_assert(g.ChangeModelScale(s), "the model scale can be changed"); }
  check(w, s, true); sym_assert(g.globalData.modelScale == s && eq(g.globalData.minResolution, r0 * s, false), "the scale is recorded"); sym_assert(g.globalData.unitsFlag == UNIT_MM, "the unit is unchanged"); sym_reach("scaled"); }
// a change of unit, twice
extern "C" void c11_units() {
  IGES g; int m = sym_choice("model", (int)(sym_param("hi", NM) - sym_param("lo", 0))) + (int)sym_param("lo", 0); build(g, m); std::vector<Was> w = fill(g, false); double r0 = g.globalData.minResolution;
  int a = sym_int("first", 1, 11), b = sym_int("second", 1, 11); a = (int)__sym_concretize(a); bool ok = g.ConvertUnits((IGES_UNIT)a); if (a == 3) { sym_assert(!ok && g.globalData.unitsFlag == UNIT_MM, "there is no conversion to a user's unit"); check(w, 1, true); sym_reach("refused"); return; }
  sym_assert(ok && g.globalData.unitsFlag == a && (a == 2 || g.globalData.unitsName == NAME[a - 1]) && eq(g.globalData.minResolution, r0 / MM[a - 1], false), "the new unit is recorded"); check(w, 1 / MM[a - 1], false);
  b = (int)__sym_concretize(b); if (b == 3) return; sym_assert(g.ConvertUnits((IGES_UNIT)b) && g.globalData.unitsFlag == b && ((a == 2 && b == 2) || g.globalData.unitsName == NAME[b - 1]) && g.globalData.modelScale == 1, "the new unit is recorded"); check(w, 1 / MM[b - 1], false); sym_reach("converted"); }
// a scale out of range is refused and leaves the model
extern "C" void c11_refused() { IGES g; mk110(g, 1, 2); std::vector<Was> w = fill(g, true); double s = sym_double("s"); bool ok = g.ChangeModelScale(s); if (s >= 6.0e-8 && s <= 1.7e7) { sym_assert(ok && g.globalData.modelScale == s, "a scale in range is accepted"); sym_reach("accepted"); return; } sym_assume(s == s); sym_assert(!ok && g.globalData.modelScale == 1, "a scale out of range is refused"); check(w, 1, true); sym_reach("refused"); }
// reading a file in another unit or scale: the file is made by writing a model and changing its header
static const double FS[] = { 1, 2, 0.5, 10, 0.001 }; static const char* FT[] = { "1.", "2.", ".5", "10.", "1E-3" };
static std::string relabel(const std::string& t, int unit, int scale) {
  size_t g0 = t.find('G', 72), n = 0; std::string glob, o; std::vector<std::string> rec; for (size_t i = 0; i + 80 < t.size() + 1; i += 81) rec.push_back(t.substr(i, 81)); (void)g0; (void)n;
  for (size_t i = 0; i < rec.size(); ++i) if (rec[i][72] == 'G') { std::string x = rec[i].substr(0, 72); glob += x.substr(0, x.find_last_not_of(' ') + 1); } size_t b = glob.find(",2,2HMM,"); sym_assert(b != std::string::npos, "the header names unit and scale"); size_t e = b; b = glob.rfind(',', b - 1) + 1;
  std::string nm = unit == 3 ? "4HYARD" : istr((long)strlen(NAME[unit - 1])) + "H" + NAME[unit - 1]; glob = glob.substr(0, b) + FT[scale] + "," + istr(unit) + "," + nm + glob.substr(e + 7); std::vector<std::string> gl = FFile::split(glob.substr(0, glob.find_last_not_of(' ') + 1), 72, ',', ';'); int gi = 0; bool done = false; int was = 0;
  for (size_t i = 0; i < rec.size(); ++i) { if (rec[i][72] == 'G') { ++was; if (!done) { done = true; for (size_t k = 0; k < gl.size(); ++k) o += frec(gl[k], 'G', ++gi); } continue; } if (rec[i][72] == 'T') { rec[i].replace(9, 7, rj(gi, 7)); } o += rec[i]; } return o; }
static std::vector<std::vector<double> > nums(IGES& g) { std::vector<std::vector<double> > r; for (size_t i = 0; i < g.entities.size(); ++i) { FL f = fields(g, g.entities[i]); std::vector<double> v; for (size_t k = 0; k < f.size(); ++k) v.push_back(*f[k].p); r.push_back(v); } return r; }
extern "C" void c11_read() {
  IGES g, a, b; int m = sym_choice("model", (int)(sym_param("hi", NM) - sym_param("lo", 0))) + (int)sym_param("lo", 0); build(g, m); g.globalData.productIDRS = "PART"; sym_assert(g.Write("mm.igs", true) && a.Read("mm.igs"), "a valid model can be written and read"); std::string t; vfs_get("mm.igs", t);
  int u = (int)__sym_concretize(sym_int("unit", 1, 11)), s = sym_choice("scale", 5); t = relabel(t, u, s); sym_assert(read_text(b, t), "a file in any unit and scale can be read"); double k = (u == 3 ? 1 : MM[u - 1]) / FS[s];
  sym_assert(a.entities.size() == b.entities.size(), "the same entities are read"); std::vector<Was> w; for (size_t i = 0; i < a.entities.size(); ++i) { Was x; x.e = b.entities[i]; sym_assert(a.entities[i]->entityType == x.e->entityType, "the same entities are read"); x.f = fields(b, x.e); FL q = fields(a, a.entities[i]); sym_assert(q.size() == x.f.size(), "the counts are unchanged"); for (size_t j = 0; j < q.size(); ++j) x.v.push_back(*q[j].p); w.push_back(x); }
  check(w, k, false); sym_assert(b.globalData.modelScale == 1 && eq(b.globalData.minResolution, a.globalData.minResolution * k, false), "the scale afterwards is one"); sym_assert(b.globalData.unitsFlag == (u == 3 ? UNIT_EXTERN : UNIT_MM) && b.globalData.unitsName == (u == 3 ? "YARD" : "MM"), "the unit afterwards is the millimetre"); sym_reach("read"); }
// symbolic coordinates in a file in another unit
extern "C" void c11_number() {
  FFile f; int u = (int)__sym_concretize(sym_int("unit", 1, 11)); static const int E[] = { -2, 0, 3 }; double x = sym_dec("x", "dd3", E[sym_choice("exp", 3)]); char b[64]; snprintf(b, sizeof b, "%.10g", x); std::string v(b); 
  f.global = FFile::gl(u, u == 3 ? "4HYARD" : "", "1."); f.add(110, v + ",2.,3.,4.,5.,6.;"); IGES g; sym_assert(read_text(g, f.text()), "the file can be read"); IGES_ENTITY_110* l = got<IGES_ENTITY_110>(g, 110); double k = u == 3 ? 1 : MM[u - 1]; sym_assert(l->X1 == x * k || std::fabs(l->X1 - x * k) <= 1e-9 * x * k, "a coordinate is multiplied by the size of the unit"); sym_assert(eq(l->Z2, 6 * k, false), "a coordinate is multiplied by the size of the unit"); sym_reach("number"); }
// a model scale that is not positive is refused; nearly empty models in small and large units stay what they are
extern "C" void c11_bad() { static const char* S[] = { "0.", "-1.", "0", "-1E-3", "0.0E0" }; FFile f; f.global = FFile::gl(2, "2HMM", S[sym_choice("scale", 5)]); f.add(110, "0.,0.,0.,4.,5.,6.;"); IGES g; sym_assert(!read_text(g, f.text()), "a scale that is not positive is refused"); sym_reach("refused"); }
// a composite curve, an arc, a closed outline and a cylinder that are small numbers in their unit
extern "C" void c11_small() {
  int u = (int)__sym_concretize(sym_int("unit", 1, 11)); static const char* N[] = { ".0025", ".004", ".0075" }; static const double V[] = { .0025, .004, .0075 }; int k = sym_choice("size", 3); std::string n = N[k]; FFile f; f.global = FFile::gl(u, u == 3 ? "4HYARD" : "", "1."); f.global.replace(f.global.find("1E-8"), 4, "1E-5");
  f.add(100, "0.,0.,0.," + n + ",0.,0.," + n + ";"); f.add(154, n + "," + n + ",0.,0.,0.,0.,0.,1.;"); int a = f.add(110, "0.,0.,0.," + n + ",0.,0.;"), b = f.add(110, n + ",0.,0.,0.,0.,0.;"), c = f.add(102, "2," + istr(a) + "," + istr(b) + ";"); f.add(164, istr(c) + ",1.,0.,0.,1.;"); f.ents[2].de[8] = f.ents[3].de[8] = f.ents[4].de[8] = "00010000";
  IGES g; sym_assert(read_text(g, f.text()), "small geometry can be read in every unit"); double m = V[k] * (u == 3 ? 1 : MM[u - 1]); IGES_ENTITY_154* y = got<IGES_ENTITY_154>(g, 154); sym_assert(eq(y->H, m, false) && eq(y->R, m, false), "a small cylinder is read as it is"); sym_assert(eq(got<IGES_ENTITY_100>(g, 100)->xStart, m, false), "a small arc is read as it is"); sym_assert(got<IGES_ENTITY_102>(g, 102)->IsClosed() && got<IGES_ENTITY_164>(g, 164)->PTR, "a closed curve is closed in every unit"); sym_reach("small"); }
