// C06: every written file is well-formed
#include "models.h"
#include "wf.h"
static std::string wtext(IGES& g) { bool ok = g.Write("out.igs", true); sym_assert(ok, "a valid model can be written"); std::string t; sym_assert(vfs_get("out.igs", t), "the file exists"); return t; }
static int types(const WFile& w, int t) { int n = 0; for (size_t i = 0; i < w.ents.size(); ++i) if (w.ents[i].type == t) ++n; return n; }
// each entity in the file stands for one of the model
static void same(IGES& g, const WFile& w) {
  sym_assert(w.ents.size() == g.entities.size(), "one directory entry per entity"); for (size_t i = 0; i < g.entities.size(); ++i) { const WEnt& e = w.ents[i]; sym_assert(e.type == g.entities[i]->GetEntityType() && e.form == g.entities[i]->GetEntityForm(), "type and form numbers are those of the entity"); } }
// models of one or two entity types
extern "C" void c06_types() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES), two = (int)sym_param("two", 0); IGES g; mk(g, TYPES[lo + sym_choice("type", hi - lo)]); if (two) mk(g, TYPES[sym_choice("second", NTYPES)]);
  WFile w = well_formed(wtext(g)); same(g, w); sym_reach("types"); }
// numbers of any length; records break at any column
static double num(const char* n) { static const double V[] = { 0, 1, -1, 0.5, 123456789.25, -123456.789012, 1e-8, 3.14159265358979, 1e12, -0.00012207031 }; return V[sym_choice(n, (int)sym_param("nums", 6))]; }
extern "C" void c06_numbers() {
  IGES g; IGES_ENTITY_110* l = mk110(g); l->X1 = num("a"); l->Y1 = num("b"); l->Z1 = num("c"); l->X2 = num("d"); l->Y2 = 5; l->Z2 = num("e"); WFile w = well_formed(wtext(g)); same(g, w); sym_reach("numbers");
  sym_assert(w.ents[0].item.size() == 7, "a line has six parameters"); }
// any number of points: the data span any number of records
extern "C" void c06_long() {
  IGES g; mk110(g); int n = 1 + sym_choice("n", (int)sym_param("max", 14)); double v = num("v"); IGES_ENTITY_502* e = (IGES_ENTITY_502*)mk(g, 502); for (int i = 0; i < n; ++i) e->AddVertex(MCAD_POINT(v, i, -v)); mk100(g); int k = sym_choice("spline", 3);
  if (k) { IGES_ENTITY_126* s = fresh<IGES_ENTITY_126>(g, 126); double kn[40], c[160]; int nc = n + 1; for (int i = 0; i < nc + 2; ++i) kn[i] = i < 2 ? 0 : i > nc - 1 ? 1 : (i - 1.0) / (nc - 1.0); int st = k == 2 ? 4 : 3; for (int i = 0; i < nc * st; ++i) c[i] = i % 4 == 3 ? 1 : v + i; sym_assert(s->SetNURBSData(nc, 2, kn, c, k == 2, 0, 1), "a polyline is accepted as a spline"); }
  WFile w = well_formed(wtext(g)); same(g, w); sym_assert(types(w, 502) == 1, "one vertex list"); sym_reach("long"); }
// names and comments of any length, any text
extern "C" void c06_texts() {
  static const int L[] = { 0, 1, 5, 40, 52, 53, 54, 55, 56, 63, 64, 65, 71, 72, 73, 128, 129, 140 }; int m = (int)sym_param("lens", 18); IGES g; int what = sym_choice("what", 5), n = L[sym_choice("len", m)]; std::string s; for (int i = 0; i < n; ++i) s += 'a';
  int pos = n ? sym_choice("where", 3) : 0; if (n) { char c = (char)sym_byte("c"); sym_assume(c >= 32 && c < 127); s[pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1] = c; }
  IGES_ENTITY_110* l = mk110(g); const char* p = s.c_str(); bool set = true;
  switch (what) { case 0: if (!n) return; set = l->AddComment(p); break; case 1: { IGES_ENTITY_308* d = mk308(g, mk100(g)); d->NAME = s; } break; case 2: { IGES_ENTITY_314* d = fresh<IGES_ENTITY_314>(g, 314); d->red = d->green = d->blue = 50; d->cname = s; set = l->SetColor(d); } break;
    case 3: set = g.AddToHeader(p); break; case 4: g.globalData.author = s; g.globalData.organization = s; g.globalData.productIDSS = s; break; }
  if (n && !set) return; mk100(g); WFile w = well_formed(wtext(g)); same(g, w); sym_reach("texts");
  std::vector<std::string> gi; size_t end = 0; bool ok = false; wsplit(w.global, ',', ';', gi, end, ok, 72); sym_assert(ok && gi.size() >= 24 && gi.size() <= 26, "the global section has its parameters"); }
// attributes with any value, optional entities
extern "C" void c06_attributes() {
  IGES g; IGES_ENTITY_110 *l = mk110(g), *k = mk110(g); int lev = sym_anyint("level"), lw = sym_anyint("weight"), col = sym_int("color", 0, 8), sub = sym_anyint("sub");
  int what = sym_choice("what", 6); IGES_ENTITY_124* t = fresh<IGES_ENTITY_124>(g, 124); sym_assert(l->SetTransform(t), "a transform is accepted");
  switch (what) { case 0: if (!l->SetLevel(lev)) return; break; case 1: if (!l->SetLineWeightNum(lw)) return; break; case 2: if (!l->SetColor((IGES_COLOR)col)) return; break; case 3: if (!l->SetEntitySubscript(sub)) return; break;
    case 4: { int n = 1 + sym_choice("props", 8); for (int i = 0; i < n; ++i) { IGES_ENTITY_406* p = fresh<IGES_ENTITY_406>(g, 406); bool ok = p->SetEntityForm(15) && p->SetData("NAME") && l->AddOptionalEntity(p); sym_assert(ok, "a property can be attached"); } } break;
    case 5: { std::string s; int n = sym_choice("label", 9); for (int i = 0; i < n; ++i) { char c = (char)sym_byte(("l" + istr(i)).c_str()); sym_assume(c > 32 && c < 127); s += c; } k->SetLabel(s.c_str()); } }
  WFile w = well_formed(wtext(g)); same(g, w); sym_assert(w.ents[0].f[6] > 0 && w.ents[w.ents[0].f[6] / 2].type == 124, "the transform is referred to"); sym_reach("attributes"); }
// other delimiters
extern "C" void c06_delims() {
  IGES g; int a = sym_byte("pd"), b = sym_byte("rd"); g.globalData.pdelim = (char)a; g.globalData.rdelim = (char)b; mk(g, TYPES[sym_choice("type", (int)sym_param("ntypes", 8))]); mk110(g);
  bool ok = g.Write("out.igs", true); if (!ok) { sym_reach("refused"); return; } std::string t; vfs_get("out.igs", t); WFile w = well_formed(t, (char)a, (char)b); same(g, w); sym_reach("delims"); }
