// C18: exporting a model into another
#include "scale.h"
#include "graph.h"
struct Ent { IGES_ENTITY* e; EL ch, refs; int weight, type, form; IGES_ENTITY* tr; };
static std::vector<Ent> snap(IGES& g) { std::vector<Ent> r; for (size_t i = 0; i < g.entities.size(); ++i) { Ent x; x.e = g.entities[i]; x.ch = children(x.e); x.refs.assign(x.e->refs.begin(), x.e->refs.end()); x.weight = x.e->lineWeightNum; x.type = x.e->entityType; x.form = x.e->form; x.tr = x.e->pTransform; r.push_back(x); } return r; }
// what is found of the earlier entities; the packaged ones have one more reference
static void kept(const std::vector<Ent>& v, IGES& g, const EL& pack, IGES_ENTITY* by) {
  for (size_t i = 0; i < v.size(); ++i) { const Ent& x = v[i]; int n = 0; for (size_t k = 0; k < g.entities.size(); ++k) n += g.entities[k] == x.e; sym_assert(n == 1, "every entity is in the destination exactly once"); sym_assert(x.e->parent == &g, "an entity belongs to the model it is in"); sym_assert(x.e->entityType == x.type && x.e->form == x.form, "an entity is what it was"); EL c = children(x.e); sym_assert(c == x.ch, "the references are intact"); EL r(x.e->refs.begin(), x.e->refs.end()); if (in(pack, x.e)) { sym_assert(in(r, by), "a packaged entity knows its subfigure"); r.erase(std::find(r.begin(), r.end(), by)); } sym_assert(r == x.refs, "an entity knows who refers to it"); } }
// the composition of a model: a mask of parts
static IGES_ENTITY* inst(IGES& g, IGES_ENTITY_308* s) { IGES_ENTITY_408* e = fresh<IGES_ENTITY_408>(g, 408); sym_assert(e->SetDE(s), "accepted"); e->X = 1; e->Y = 2; e->Z = 3; e->S = 1; return e; }
static void parts(IGES& g, int mask, EL& top) {
  EL in4, ts, br; if (mask & 1) mk110(g); if (mask & 2) ts.push_back(mk(g, 144)); if (mask & 4) br.push_back(mk(g, 186)); IGES_ENTITY_308* s = 0; if (mask & 8) { s = mk308(g, mk110(g)); in4.push_back(inst(g, s)); }
  if (mask & 16) { IGES_ENTITY_308* p = mk308(g, mk(g, 144)); IGES_ENTITY* i = inst(g, p); IGES_ENTITY_308* a = fresh<IGES_ENTITY_308>(g, 308); a->NAME = "ASSY"; sym_assert(a->AddDE(i), "accepted"); in4.push_back(i); if (sym_choice("used", 2)) { in4.pop_back(); in4.push_back(inst(g, a)); } }
  if (mask & 32) ts.push_back(mk(g, 144)); top = !in4.empty() ? in4 : !ts.empty() ? ts : br; }
extern "C" void c18_export() {
  IGES a, b; int lo = (int)sym_param("lo", 0), mask = lo + sym_choice("parts", (int)sym_param("hi", 64) - lo); EL top; parts(a, mask, top); if (!a.entities.empty() && sym_choice("placed", 2)) { IGES_ENTITY_124* t = fresh<IGES_ENTITY_124>(a, 124); IGES_ENTITY_314* c = fresh<IGES_ENTITY_314>(a, 314); a.entities[0]->SetColor(c); a.entities[0]->SetTransform(t); }
  int other = sym_choice("other", 3); if (other) { mk110(b, 7, 7); if (other == 2) mk(b, 408); } int name = sym_choice("name", 5); static const char* F[] = { "", "part.igs", "a.b.igs", "plain", ".hid" }; static const char* N[] = { "", "part", "a.b", "plain", ".hid" }; a.globalData.fileName = F[name];
  std::vector<Ent> va = snap(a), vb = snap(b); EL was = b.entities, src = a.entities; IGES_ENTITY_308* sub = (IGES_ENTITY_308*)&a; bool ok = a.Export(&b, &sub); sym_assert(ok, "a model can be exported");
  if (top.empty()) { EL none; sym_assert(!sub, "without a part there is no subfigure"); sym_assert(a.entities == src && b.entities == was, "a model without a part stays where it is"); kept(va, a, none, 0); kept(vb, b, none, 0); consistent(a); consistent(b); sym_reach("none"); return; }
  sym_assert(sub && sub->entityType == 308 && sub->parent == &b && in(b.entities, sub) && sub->refs.empty(), "the parts are packaged as a subfigure of the destination"); EL de(sub->DE.begin(), sub->DE.end()); sym_assert(de == top, "the subfigure consists of the top level parts");
  sym_assert(a.entities.empty(), "the source is empty"); sym_assert(b.entities.size() == was.size() + src.size() + 1, "nothing else is in the destination"); for (size_t i = 0; i < was.size(); ++i) sym_assert(b.entities[i] == was[i], "the earlier entities of the destination keep their places"); kept(va, b, top, sub); EL none; kept(vb, b, none, 0); consistent(b);
  if (name) sym_assert(sub->NAME == N[name], "the subfigure has the name of the file"); else { std::string kind = sub->NAME.substr(0, 4); bool assy = false; int n4 = 0; for (size_t i = 0; i < top.size(); ++i) n4 += top[i]->entityType == 408; assy = n4 > 1; sym_assert(kind == (assy ? "assy" : "part"), "a name is made up"); }
  IGES_ENTITY* i = inst(b, sub); (void)i; size_t n = b.entities.size(); IGES c; sym_assert(b.Write("all.igs", true), "the destination can be written"); sym_assert(b.entities.size() <= n && c.Read("all.igs"), "the destination can be read back"); sym_assert(c.entities.size() == b.entities.size(), "all entities are in the file"); sym_reach("packaged"); }
// several models one after the other
extern "C" void c18_several() {
  IGES b; EL all; std::vector<IGES_ENTITY_308*> subs; static const int M[] = { 2, 4, 8, 16, 10, 3 }; int n = (int)sym_param("n", 2); std::vector<std::vector<Ent> > v; std::vector<EL> tops; bool auto_ = sym_choice("unnamed", 2);
  for (int i = 0; i < n; ++i) { IGES a; EL top; parts(a, M[sym_choice("parts", 6)], top); if (!auto_) a.globalData.fileName = "p.igs"; std::vector<Ent> x = snap(a); IGES_ENTITY_308* s = 0; sym_assert(a.Export(&b, &s) && s, "a model can be exported"); for (size_t k = 0; k < subs.size(); ++k) { sym_assert(subs[k] != s, "every export makes its own subfigure"); if (auto_) sym_assert(subs[k]->NAME != s->NAME, "names made up are different"); } subs.push_back(s); v.push_back(x); tops.push_back(top); sym_assert(a.entities.empty(), "the source is empty"); }
  for (int i = 0; i < n; ++i) { kept(v[i], b, tops[i], subs[i]); EL de(subs[i]->DE.begin(), subs[i]->DE.end()); sym_assert(de == tops[i], "the subfigure consists of the top level parts"); } consistent(b);
  IGES d; IGES_ENTITY_308* s = 0; for (int i = 0; i < n; ++i) inst(b, subs[i]); size_t k = b.entities.size(); sym_assert(b.Export(&d, &s) && s && (int)s->DE.size() == n && b.entities.empty() && d.entities.size() == k + 1, "an assembly can be exported"); consistent(d); sym_reach("several"); }
// lengths
extern "C" void c18_units() {
  IGES a, b; int m = sym_choice("model", (int)(sym_param("hi", NM) - sym_param("lo", 0))) + (int)sym_param("lo", 0); build(a, m); if (!find<IGES_ENTITY>(a, 408) && !find<IGES_ENTITY>(a, 186)) mk(a, 144); std::vector<Was> w = fill(a, false); mk(b, 110); mk(b, 408); std::vector<Was> o = fill(b, false); std::vector<Ent> vb = snap(b); int ua = (int)__sym_concretize(sym_int("from", 1, 11)), ub = (int)__sym_concretize(sym_int("to", 1, 11)); bool one = ua <= 3 || ub <= 3 || ua == ub; if (!one) return; a.globalData.unitsFlag = (IGES_UNIT)ua; b.globalData.unitsFlag = (IGES_UNIT)ub; static const double S[] = { 1, 2, 0.25 }; double sa = S[sym_choice("scale", 3)], sb = S[sym_choice("scale2", 3)]; a.globalData.modelScale = sa; b.globalData.modelScale = sb; double res = b.globalData.minResolution;
  size_t na = a.entities.size(), nb = b.entities.size(); IGES_ENTITY_308* s = 0; bool ok = a.Export(&b, &s), can = ua == ub || (ua != 3 && ub != 3); sym_assert(ok == can, "models are merged exactly if their units can be converted"); check(o, 1, true); sym_assert(b.globalData.unitsFlag == ub && b.globalData.modelScale == sb && b.globalData.minResolution == res, "the unit and scale of the destination stay");
  if (!ok) { sym_assert(!s && a.entities.size() == na && b.entities.size() == nb, "a model that is refused stays where it is"); check(w, 1, true); EL none; kept(vb, b, none, 0); sym_reach("refused"); return; } check(w, (ua == ub ? 1 : MM[ua - 1] / MM[ub - 1]) * sb / sa, false); sym_reach("scaled"); }
// line weights
extern "C" void c18_weights() {
  IGES a, b; IGES_ENTITY* t = mk(a, 144); IGES_ENTITY* l = mk110(b); static const int GR[] = { 1, 2, 3, 7, 12, 15, 22, 26 }; int ma = GR[sym_choice("grad", 8)], mb = GR[sym_choice("grad2", 8)]; a.globalData.maxLinewidthGrad = ma; b.globalData.maxLinewidthGrad = mb; int w = sym_int("weight", 0, ma); w = (int)__sym_concretize(w); t->lineWeightNum = w; l->lineWeightNum = mb; IGES_ENTITY_308* s = 0; sym_assert(a.Export(&b, &s) && s, "a model can be exported"); int n = t->lineWeightNum; sym_assert(l->lineWeightNum == mb, "a line weight of the destination stays");
  if (!w) { sym_assert(n == 0, "no line weight stays none"); sym_reach("none"); return; } sym_assert(n >= 1 && n <= mb, "a line weight is one of the destination"); if (ma == mb) sym_assert(n == w, "a line weight stays where the gradations are the same"); int x = w * mb / ma; sym_assert(n == (x < 1 ? 1 : x), "a line weight is scaled"); sym_reach("scaled"); }
extern "C" void c18_refused() {
  IGES a, b; mk(a, 144); mk110(b); IGES_ENTITY_308* s = (IGES_ENTITY_308*)&a; EL ea = a.entities, eb = b.entities; int how = sym_choice("how", 4); bool ok = how == 0 ? a.Export(0, &s) : how == 1 ? a.Export(&b, 0) : how == 2 ? a.Export(&a, &s) : false; if (how == 3) { IGES e; bool k = e.Export(&b, &s); sym_assert(k && !s, "an empty model has no part"); } else sym_assert(!ok, "a missing destination or handle and the model itself are refused"); sym_assert(a.entities == ea && b.entities == eb, "nothing is moved"); consistent(a); consistent(b); sym_reach("refused"); }
