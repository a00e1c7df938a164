// C03: directory attributes survive a write/read round trip
#include "models.h"

struct Attr { bool vis; int dep, use, hier, lw, font, level, color, sub, form; bool hasFont, hasLevel, hasColor; std::string label;
  Attr(IGES_ENTITY* e) {
    IGES_STAT_DEPENDS d; IGES_STAT_USE u; IGES_STAT_HIER h; IGES_LINEFONT_PATTERN f; IGES_COLOR c; int i;
    bool ok = e->GetVisibility(vis) && e->GetDependency(d) && e->GetEntityUse(u) && e->GetHierarchy(h) && e->GetLineWeightNum(i); lw = i;
    dep = d; use = u; hier = h; hasFont = e->GetLineFontPattern(f); font = f; hasLevel = e->GetLevel(i); level = i; hasColor = e->GetColor(c); color = c;
    ok = ok && e->GetEntitySubscript(i); sub = i; form = e->GetEntityForm(); label = e->GetLabel();
    sym_assert(ok, "attributes can be queried"); }
  void same(const Attr& o) const {
    sym_assert(vis == o.vis, "visibility is unchanged"); sym_assert(dep == o.dep, "dependency is unchanged"); sym_assert(use == o.use, "entity use is unchanged"); sym_assert(hier == o.hier, "hierarchy is unchanged");
    sym_assert(lw == o.lw, "line weight is unchanged"); sym_assert(hasFont == o.hasFont && (!hasFont || font == o.font), "line font is unchanged"); sym_assert(hasLevel == o.hasLevel && (!hasLevel || level == o.level), "level is unchanged");
    sym_assert(hasColor == o.hasColor && (!hasColor || color == o.color), "colour number is unchanged"); sym_assert(sub == o.sub, "subscript is unchanged"); sym_assert(form == o.form, "form is unchanged"); sym_assert(label == o.label, "label is unchanged"); } };

// types on which every attribute can be set freely
static IGES_ENTITY* plain(IGES& g, int& type) { static const int t[] = { 110, 102, 408, 100, 128, 126, 104, 122, 120, 154, 164, 180, 142, 144, 308 }; type = t[sym_choice("type", (int)sym_param("types", 15))]; return mk(g, type); }
static void keep(IGES& g, IGES_ENTITY* e, int type) { if (type == 308) { IGES_ENTITY_408* i = fresh<IGES_ENTITY_408>(g, 408); sym_assert(i->SetDE((IGES_ENTITY_308*)e), "an instance can be made"); i->S = 1; } else mk308(g, e); }

extern "C" void c03_status() {
  IGES a, b; int type; IGES_ENTITY* e = plain(a, type); keep(a, e, type);
  bool vis = sym_bool("visible"); int dep = sym_int("dep", 0, 3), use = sym_int("use", 0, 6), hier = sym_int("hier", 0, 2);
  bool ov = e->SetVisibility(vis), od = e->SetDependency((IGES_STAT_DEPENDS)dep), ou = e->SetEntityUse((IGES_STAT_USE)use), oh = e->SetHierarchy((IGES_STAT_HIER)hier);
  sym_assert(ov && od && oh, "visibility, dependency and hierarchy are accepted");
  Attr w(e);
  bool hierIgnored = !(type == 102 || type == 308 || type == 408 || type == 180);
  if (type != 308) sym_assert(w.vis == vis, "visibility is set"); sym_assert(w.dep == dep, "dependency is set"); if (ou && type != 308 && type != 142 && type != 144 && type != 154 && type != 164 && type != 180) sym_assert(w.use == use, "entity use is set"); if (!hierIgnored) sym_assert(w.hier == hier, "hierarchy is set");
  write_read(a, b); sym_reach("status");
  Attr r(find<IGES_ENTITY>(b, type, type == 308 ? 0 : 0)); r.same(w); }

extern "C" void c03_numbers() {
  IGES a, b; int type; IGES_ENTITY* e = plain(a, type); keep(a, e, type);
  a.globalData.maxLinewidthGrad = sym_int("grad", 1, 1000); int grad = a.globalData.maxLinewidthGrad;
  Attr w0(e); int what = sym_choice("what", 6); int v = sym_anyint("v"); bool ok = false;
  if (what == 0) { ok = e->SetLineWeightNum(v); sym_assert(ok == (v >= 0), "a line weight is accepted unless negative"); w0.lw = !ok ? w0.lw : v > grad ? grad : v; }
  if (what == 1) { ok = e->SetLineFontPattern((IGES_LINEFONT_PATTERN)v); sym_assert(ok == (v >= 0 && v < LINEFONT_END), "exactly the standard line fonts are accepted"); if (ok) w0.font = v; }
  if (what == 2) { ok = e->SetLevel(v); sym_assert(ok == (v >= 0 && v <= 99999999), "exactly the levels that fit the field are accepted"); if (ok) w0.level = v; }
  if (what == 3) { ok = e->SetColor((IGES_COLOR)v); sym_assert(ok == (v >= 0 && v < COLOR_END), "exactly the standard colours are accepted"); if (ok) w0.color = v; }
  if (what == 4) { ok = e->SetEntitySubscript(v); sym_assert(ok == (v >= 0 && v <= 99999999), "exactly the subscripts that fit the field are accepted"); if (ok) w0.sub = v; }
  if (what == 5) { std::string l = sym_strv("label", 0, (int)sym_param("maxlabel", 9), 33, 126); ok = e->SetLabel(l); sym_assert(ok, "a label is accepted"); w0.label = l.substr(0, 8); }
  Attr w(e); w.same(w0);
  write_read(a, b); sym_reach("numbers"); if (ok) sym_reach("set"); else sym_reach("refused");
  Attr r(find<IGES_ENTITY>(b, type)); r.same(w); }

extern "C" void c03_form() {
  IGES a, b; int type = TYPES[sym_choice("type", NTYPES)]; IGES_ENTITY* e = mk(a, type); int f0 = e->GetEntityForm(), v = sym_int("form", -3, 20);
  bool ok = e->SetEntityForm(v); int f1 = e->GetEntityForm();
  sym_assert(ok ? (f1 == v || type == 314 || type == 508) : f1 == f0, "a form is either set or refused");
  if (type == 514 && f1 == 2) return;          // an open shell cannot bound a solid
  write_read(a, b); sym_reach("form"); if (ok) sym_reach("set"); else sym_reach("refused");
  IGES_ENTITY* g = got<IGES_ENTITY>(b, type); sym_assert(g->GetEntityForm() == f1, "the form is read back"); }

// transform and colour references
extern "C" void c03_pointers() {
  IGES a, b; int type; bool first = sym_bool("first"); IGES_ENTITY_314* c = 0; IGES_ENTITY_124* t = 0;
  if (first) { c = fresh<IGES_ENTITY_314>(a, 314); t = fresh<IGES_ENTITY_124>(a, 124); }
  IGES_ENTITY* e = plain(a, type);
  if (!first) { t = fresh<IGES_ENTITY_124>(a, 124); c = fresh<IGES_ENTITY_314>(a, 314); }
  c->red = 25; c->green = 50; c->blue = 75; t->T.T.x = 4;
  IGES_ENTITY* q = 0; IGES_COLOR n; bool useC = sym_bool("useC"), useT = sym_bool("useT"), over = sym_bool("override");
  if (useC) { sym_assert(e->SetColor(c), "a colour definition is accepted"); sym_assert(e->GetColorEntity(&q) && q == c && !e->GetColor(n), "the colour definition is set"); }
  if (useT) { sym_assert(e->SetTransform(t), "a transform is accepted"); sym_assert(e->GetTransform(&q) && q == t, "the transform is set"); }
  if (useC && over) { sym_assert(e->SetColor((IGES_COLOR)3), "a colour number is accepted"); sym_assert(!(e->GetColorEntity(&q) && q) && e->GetColor(n) && n == 3, "the colour number replaces the definition"); useC = false; } else over = false;
  if (!useC && !first) { IGES_ENTITY_110* l = mk110(a, 7, 7); sym_assert(l->SetColor(c), "a colour definition is accepted"); }
  bool ok = a.Write("out.igs", true); sym_assert(ok, "a valid model can be written"); sym_assert(b.Read("out.igs"), "a written file can be read back"); sym_reach("pointers");
  IGES_ENTITY* g = got<IGES_ENTITY>(b, type); IGES_ENTITY_314* c2 = find<IGES_ENTITY_314>(b, 314); IGES_ENTITY_124* t2 = find<IGES_ENTITY_124>(b, 124);
  bool hc = g->GetColorEntity(&q) && q; sym_assert(hc == useC && (!hc || q == c2), "the colour reference is read back");
  if (hc) sym_assert(nearr(c2->red, 25) && nearr(c2->green, 50) && nearr(c2->blue, 75), "the colour referred to is the same");
  if (over) sym_assert(g->GetColor(n) && n == 3, "the colour number is read back");
  bool ht = g->GetTransform(&q) && q; sym_assert(ht == useT && (!ht || q == t2), "the transform reference is read back");
  if (ht) sym_assert(nearr(t2->T.T.x, 4), "the transform referred to is the same"); }
