// C26: a value set through the programming interface is the value read back, by every handle
#include "api.h"
static double D(const char* n) { return sym_real(n, -1e9, 1e9); }
static bool eqn(const double* a, const double* b, int n) { bool r = true; for (int i = 0; i < n; ++i) r = r & (a[i] == b[i]); return r; }
struct Two { DLL_IGES m; DLL_IGES_ENTITY *a, *b; Two(int t) { a = mkh<DLL_IGES&>(t, m, true); b = mkh<DLL_IGES&>(t, m, false); bool ok = a->GetRawPtr() && b->Attach(a->GetRawPtr()); sym_assert(ok, "two handles of one entity"); } ~Two() { delete a; delete b; } };
#define A(T) ((DLL_IGES_ENTITY_##T*)w.a)
#define B(T) ((DLL_IGES_ENTITY_##T*)w.b)
#define E(T) ((IGES_ENTITY_##T*)w.a->GetRawPtr())
#define OK(x, s) sym_assert(x, s)
// the data of each kind of entity
extern "C" void c26_data() {
  static const int T[] = { 100, 104, 110, 120, 122, 124, 314, 408 }; int t = T[sym_choice("type", 8)], n = (int)sym_param("n", 2); Two w(t); double v[12], g[12], c[12]; int k = 0; MCAD_POINT p; for (int i = 0; i < 12; ++i) v[i] = g[i] = c[i] = 0;
  switch (t) { case 100: case 110: k = t == 110 ? 6 : 7; break; case 104: k = 11; break; case 120: k = 2; break; case 122: case 314: k = 3; break; case 124: k = 12; break; case 408: k = 4; break; }
  for (int s = 0; s <= n; ++s) {
    // what the entity holds now, by way of both handles
    for (int h = 0; h < 2; ++h) { DLL_IGES_ENTITY* x = h ? w.b : w.a; bool ok = true; switch (t) {
        case 100: { DLL_IGES_ENTITY_100* q = (DLL_IGES_ENTITY_100*)x; double z, y; if (h) { ok = q->GetCircleCenter(g[0], g[1], g[6]) && q->GetCircleStart(g[2], g[3], z) && q->GetCircleEnd(g[4], g[5], y); ok = ok & (z == g[6]) & (y == g[6]); } else { ok = q->GetCircleCenter(p); g[0] = p.x; g[1] = p.y; g[6] = p.z; ok = ok && q->GetCircleStart(p); g[2] = p.x; g[3] = p.y; z = p.z; ok = ok && q->GetCircleEnd(p); g[4] = p.x; g[5] = p.y; ok = ok & (z == g[6]) & (p.z == g[6]); } IGES_ENTITY_100* e = E(100); double f[] = { e->xCenter, e->yCenter, e->xStart, e->yStart, e->xEnd, e->yEnd, e->zOffset }; for (int i = 0; i < 7; ++i) c[i] = f[i]; } break;
        case 104: { DLL_IGES_ENTITY_104* q = (DLL_IGES_ENTITY_104*)x; double z; ok = q->GetConicParams(g[0], g[1], g[2], g[3], g[4], g[5]); if (h) { ok = ok && q->GetConicStart(g[6], g[7], g[8]) && q->GetConicEnd(g[9], g[10], z); ok = ok & (z == g[8]); } else { ok = ok && q->GetConicStart(p); g[6] = p.x; g[7] = p.y; g[8] = p.z; ok = ok && q->GetConicEnd(p); g[9] = p.x; g[10] = p.y; ok = ok & (p.z == g[8]); } IGES_ENTITY_104* e = E(104); double f[] = { e->A, e->B, e->C, e->D, e->E, e->F, e->X1, e->Y1, e->ZT, e->X2, e->Y2 }; for (int i = 0; i < 11; ++i) c[i] = f[i]; } break;
        case 110: { DLL_IGES_ENTITY_110* q = (DLL_IGES_ENTITY_110*)x; if (h) ok = q->GetLineStart(g[0], g[1], g[2]) && q->GetLineEnd(g[3], g[4], g[5]); else { ok = q->GetLineStart(p); g[0] = p.x; g[1] = p.y; g[2] = p.z; ok = ok && q->GetLineEnd(p); g[3] = p.x; g[4] = p.y; g[5] = p.z; } IGES_ENTITY_110* e = E(110); double f[] = { e->X1, e->Y1, e->Z1, e->X2, e->Y2, e->Z2 }; for (int i = 0; i < 6; ++i) c[i] = f[i]; } break;
        case 120: ok = ((DLL_IGES_ENTITY_120*)x)->GetAngles(g[0], g[1]); c[0] = E(120)->startAngle; c[1] = E(120)->endAngle; break;
        case 122: { DLL_IGES_ENTITY_122* q = (DLL_IGES_ENTITY_122*)x; if (h) ok = q->GetGeneratrixEnd(g[0], g[1], g[2]); else { ok = q->GetGeneratrixEnd(p); g[0] = p.x; g[1] = p.y; g[2] = p.z; } c[0] = E(122)->LX; c[1] = E(122)->LY; c[2] = E(122)->LZ; } break;
        case 124: { MCAD_TRANSFORM M, N; DLL_IGES_ENTITY_124* q = (DLL_IGES_ENTITY_124*)x; ok = q->GetRootTransform(M) && q->GetOverallTransform(N); MCAD_TRANSFORM* z[3] = { &M, &E(124)->T, &N }; for (int j = 0; j < 3; ++j) { double* d = j == 1 ? c : g; double f[12]; for (int r = 0; r < 3; ++r) for (int l = 0; l < 3; ++l) f[3 * r + l] = z[j]->R.v[r][l]; f[9] = z[j]->T.x; f[10] = z[j]->T.y; f[11] = z[j]->T.z; if (j == 2) ok = ok & eqn(f, g, 12); else for (int i = 0; i < 12; ++i) d[i] = f[i]; } } break;
        case 314: ok = ((DLL_IGES_ENTITY_314*)x)->GetColor(g[0], g[1], g[2]); c[0] = E(314)->red; c[1] = E(314)->green; c[2] = E(314)->blue; break;
        case 408: ok = ((DLL_IGES_ENTITY_408*)x)->GetSubfigParams(g[0], g[1], g[2], g[3]); c[0] = E(408)->X; c[1] = E(408)->Y; c[2] = E(408)->Z; c[3] = E(408)->S; break; }
      OK(ok, "the data can be retrieved"); if (!s) for (int i = 0; i < k; ++i) v[i] = g[i]; OK(eqn(g, v, k), "a value retrieved is the value set, and the others are unchanged"); OK(eqn(c, v, k), "a value set is the value of the entity"); }
    if (s == n) break;
    double x = D("x"), y = D("y"), z = D("z"); p = MCAD_POINT(x, y, z); int form = sym_choice("form", 2), which = 0; bool ok = false;
    switch (t) {
      case 100: which = sym_choice("which", 3); if (which == 0) { ok = form ? A(100)->SetCircleCenter(p) : A(100)->SetCircleCenter(x, y, z); v[6] = z; } else if (which == 1) ok = form ? A(100)->SetCircleStart(p) : A(100)->SetCircleStart(x, y); else ok = form ? A(100)->SetCircleEnd(p) : A(100)->SetCircleEnd(x, y); v[2 * which] = x; v[2 * which + 1] = y; break;
      case 104: which = sym_choice("which", 3); if (which == 0) { double d[3] = { D("d"), D("e"), D("f") }; ok = A(104)->SetConicParams(x, y, z, d[0], d[1], d[2]); v[0] = x; v[1] = y; v[2] = z; v[3] = d[0]; v[4] = d[1]; v[5] = d[2]; } else if (which == 1) { ok = form ? A(104)->SetConicStart(p) : A(104)->SetConicStart(x, y, z); v[6] = x; v[7] = y; v[8] = z; } else { ok = form ? A(104)->SetConicEnd(p) : A(104)->SetConicEnd(x, y); v[9] = x; v[10] = y; } break;
      case 110: which = sym_choice("which", 2); ok = which ? form ? A(110)->SetLineEnd(p) : A(110)->SetLineEnd(x, y, z) : form ? A(110)->SetLineStart(p) : A(110)->SetLineStart(x, y, z); v[3 * which] = x; v[3 * which + 1] = y; v[3 * which + 2] = z; break;
      case 120: ok = A(120)->SetAngles(x, y); v[0] = x; v[1] = y; break;
      case 122: ok = form ? A(122)->SetGeneratrixEnd(p) : A(122)->SetGeneratrixEnd(x, y, z); v[0] = x; v[1] = y; v[2] = z; break;
      case 124: { MCAD_TRANSFORM M; for (int i = 0; i < 9; ++i) M.R.v[i / 3][i % 3] = v[i] = D("r"); M.T = p; v[9] = x; v[10] = y; v[11] = z; ok = form ? A(124)->SetRootTransform(M) : A(124)->SetRootTransform(&M); if (!form) OK(!A(124)->SetRootTransform((MCAD_TRANSFORM*)0), "a missing transform is refused"); } break;
      case 314: { bool in = (x >= 0) & (x <= 100) & (y >= 0) & (y <= 100) & (z >= 0) & (z <= 100); ok = A(314)->SetColor(x, y, z); OK(ok == in, "a color is accepted exactly if its components are percentages"); if (!in) { ok = true; sym_reach("refused"); } else { v[0] = x; v[1] = y; v[2] = z; } } break;
      case 408: v[3] = 1; if (form) { v[3] = D("s"); ok = A(408)->SetSubfigParams(x, y, z, v[3]); } else ok = A(408)->SetSubfigParams(x, y, z); v[0] = x; v[1] = y; v[2] = z; break; }
    OK(ok, "a value can be set"); sym_reach("set"); } }
// names
extern "C" void c26_names() {
  static const int T[] = { 308, 314, 406 }; int t = T[sym_choice("type", 3)], n = (int)sym_param("n", 2); Two w(t); std::string v = t == 308 || t == 314 ? "" : "?"; const char* s = "x"; std::string own;
  if (t == 308) { own = E(308)->NAME; v = own; } if (t == 314) { own = E(314)->cname; v = own; } if (t == 406) { if (E(406)->form != 15) w.a->SetEntityForm(15); const char* q = A(406)->GetProperty_Name(); v = q ? q : ""; }
  for (int i = 0; i <= n; ++i) {
    if (t == 406) { const char* q = B(406)->GetProperty_Name(); OK(q && v == q, "a name retrieved is the name set"); } else { bool ok = t == 308 ? B(308)->GetName(s) : B(314)->GetName(s); OK(ok == !v.empty() && (s != 0) == ok && (!ok || v == s), "a name retrieved is the name set"); OK((t == 308 ? E(308)->NAME : E(314)->cname) == v, "a name set is the name of the entity"); }
    if (i == n) break; int how = sym_choice("how", 3); if (how == 2) { bool ok = t == 308 ? A(308)->SetName(0) : t == 314 ? A(314)->SetName(0) : A(406)->SetProperty_Name(0); if (t == 406) OK(!ok, "a property needs a name"); else { OK(ok, "a name can be removed"); v.clear(); } sym_reach("removed"); } else { v = how ? sym_str("long", 40, 32, 126) : sym_strv("name", 0, 3, 1, 255); OK(t == 308 ? A(308)->SetName(v.c_str()) : t == 314 ? A(314)->SetName(v.c_str()) : A(406)->SetProperty_Name(v.c_str()), "a name can be set"); sym_reach("set"); } } }
// attributes shared by all entities
struct At { int font, level, color, weight, sub, dep, use, hier, form; bool vis, hf, hl, hc; std::string label; IGES_ENTITY *fe, *le, *ce, *tr; };
static At at(DLL_IGES_ENTITY* h) { At a; IGES_LINEFONT_PATTERN f = LINEFONT_SOLID; IGES_COLOR c = COLOR_NONE; IGES_STAT_DEPENDS d; IGES_STAT_USE u; IGES_STAT_HIER r; const char* l = 0; a.level = -1; a.hf = h->GetLineFontPattern(f); a.font = a.hf ? f : -1; a.hl = h->GetLevel(a.level); if (!a.hl) a.level = -1; a.hc = h->GetColor(c); a.color = a.hc ? c : -1; bool ok = h->GetLineWeightNum(a.weight) & h->GetEntitySubscript(a.sub) & h->GetDependency(d) & h->GetEntityUse(u) & h->GetHierarchy(r) & h->GetEntityForm(a.form) & h->GetVisibility(a.vis); OK(ok, "attributes can be retrieved"); a.dep = d; a.use = u; a.hier = r; bool n = h->GetLabel(l); OK(n == (l != 0), "a label is given exactly on success"); a.label = n ? l : ""; a.fe = a.le = a.ce = a.tr = 0; h->GetLineFontPatternEntity(a.fe); h->GetLevelEntity(a.le); h->GetColorEntity(a.ce); h->GetTransform(a.tr); return a; }
static bool same(const At& a, const At& b) { return a.font == b.font && a.level == b.level && a.color == b.color && a.weight == b.weight && a.sub == b.sub && a.dep == b.dep && a.use == b.use && a.hier == b.hier && a.form == b.form && a.vis == b.vis && a.label == b.label && a.fe == b.fe && a.le == b.le && a.ce == b.ce && a.tr == b.tr; }
extern "C" void c26_attributes() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NATYPES), t = ATYPES[lo + sym_choice("type", hi - lo)], n = (int)sym_param("n", 2); Two w(t); bool plain = t != 124 && t != 314 && t != 406; bool geo = t <= 144 && t != 124; DLL_IGES_ENTITY_314 col(w.m, true), col2(w.m, true); DLL_IGES_ENTITY_124 tr(w.m, true); w.m.GetRawPtr()->globalData.maxLinewidthGrad = 5; if (t == 406) w.a->SetEntityForm(15); At v = at(w.b);
  for (int s = 0; s < n; ++s) {
    int op = sym_choice("op", 13); bool ok = false, in = true; At x = v;
    switch (op) {
      case 0: { int f = sym_int("font", -3, 10); if (!plain) return; ok = w.a->SetLineFontPattern((IGES_LINEFONT_PATTERN)f); in = f >= 0 && f <= 5; if (in) { x.font = f; x.fe = 0; } } break;
      case 1: { int l = sym_anyint("level"); if (t == 124 || t == 314) return; ok = w.a->SetLevel(l); in = l >= 0 && l <= 99999999; if (in) { x.level = l; x.le = 0; } } break;
      case 2: { int c = sym_int("color", -3, 12); if (!plain) return; ok = w.a->SetColor((IGES_COLOR)c); in = c >= 0 && c <= 8; if (in) { x.color = c; x.ce = 0; } } break;
      case 3: { int g = sym_anyint("weight"); if (!plain) return; ok = w.a->SetLineWeightNum(g); in = g >= 0; if (in) x.weight = g > 5 ? 5 : g; } break;
      case 4: { std::string l = sym_strv("label", 0, 9, 32, 126); int z = sym_choice("none", 2); ok = w.a->SetLabel(z ? 0 : l.c_str()); x.label = z ? "" : l.substr(0, 8); } break;
      case 5: { int u = sym_anyint("subscript"); ok = w.a->SetEntitySubscript(u); in = u >= 0 && u <= 99999999; if (in) x.sub = u; } break;
      case 6: { bool b = sym_choice("visible", 2); if (!plain || t == 308) return; ok = w.a->SetVisibility(b); x.vis = b; } break;
      case 7: { int d = sym_choice("dependency", 4); if (t == 124 || t == 314) return; ok = w.a->SetDependency((IGES_STAT_DEPENDS)d); x.dep = d; } break;
      case 8: { int u = sym_choice("use", 7); if (!geo || t == 142 || t == 144) return; ok = w.a->SetEntityUse((IGES_STAT_USE)u); x.use = u; } break;
      case 9: { if (!plain) return; DLL_IGES_ENTITY_314* q = sym_choice("which", 2) ? &col2 : &col; int z = sym_choice("how", 3); IGES_ENTITY* e = z == 2 ? 0 : q->GetRawPtr(); ok = z ? w.a->SetColor(e) : w.a->SetColor(*q); x.ce = e; x.color = e ? -1 : 0; sym_reach("entity"); } break;
      case 10: { if (t == 314 || t == 406 || t == 124) return; int z = sym_choice("how", 3); IGES_ENTITY* e = z == 2 ? 0 : tr.GetRawPtr(); ok = z ? w.a->SetTransform(e) : w.a->SetTransform(tr); x.tr = e; sym_reach("entity"); } break;
      case 11: { if (t != 110 && t != 104 && t != 128 && t != 100) return; int f = sym_anyint("form"); in = t == 110 ? f >= 0 && f <= 2 : t == 104 ? f >= 1 && f <= 3 : t == 128 ? f >= 0 && f <= 9 : f == 0; ok = w.a->SetEntityForm(f); if (in) x.form = f; } break;
      case 12: { if (!plain) return; ok = !w.a->SetColor(tr.GetRawPtr()) && !w.a->SetTransform(col.GetRawPtr()) && !w.a->SetLineFontPattern(col.GetRawPtr()) && !w.a->SetLevel(col.GetRawPtr()) && !w.a->SetView(col.GetRawPtr()) && !w.a->SetLabelAssoc(col.GetRawPtr()); OK(ok, "an entity of the wrong type is refused"); return; } }
    OK(ok == in, "a value is accepted exactly if it is valid"); if (!in) { sym_reach("refused"); if (op == 0 || op == 1 || op == 2) { At y = at(w.b); x.fe = y.fe; x.le = y.le; x.ce = y.ce; x.font = y.font; x.level = y.level; x.color = y.color; if (v.fe == 0 && v.le == 0 && v.ce == 0) OK(same(x, v), "a refused value changes nothing"); } } else sym_reach("set");
    OK(same(at(w.b), x), "an attribute retrieved is the attribute set, and the others are unchanged"); v = at(w.a); } }
// lists: comments, headers, members, cutouts, optional entities
extern "C" void c26_lists() {
  int which = sym_choice("list", 6), n = (int)sym_param("n", 4); if (which != 1) --n; Two w(which == 2 ? 308 : which == 3 ? 144 : which == 5 ? 102 : 110); std::vector<std::string> L; std::vector<IGES_ENTITY*> P; std::vector<DLL_IGES_ENTITY*> H;
  if (which >= 2) for (int i = 0; i < 3; ++i) H.push_back(mkh<DLL_IGES&>(which == 2 ? 100 : which == 3 ? 142 : which == 4 ? 406 : 110, w.m, true)); if (which == 4) for (int i = 0; i < 3; ++i) H[i]->SetEntityForm(15); if (which == 5) for (int i = 0; i < 3; ++i) { ((DLL_IGES_ENTITY_110*)H[i])->SetLineStart(0, 0, 0); ((DLL_IGES_ENTITY_110*)H[i])->SetLineEnd(i < 2 ? i : 5, 0, 0); }
  for (int s = 0; s < n; ++s) {
    int op = sym_choice("op", 3); bool look = s == n - 1 || sym_choice("look", 2); size_t z = 99; int k = 99; const char** c = 0; IGES_ENTITY** e = 0;
    if (which == 0) { if (op == 0) { std::string t = sym_strv("text", 0, 1, 1, 126); const char* q = t.c_str(); bool in = !t.empty() && t.find('\r') == std::string::npos && t.find('\n') == std::string::npos; OK(w.a->AddComment(q) == in, "a comment is accepted if it is a line"); if (in) L.push_back(t); } else if (op == 1) { int i = sym_anyint("index"); bool in = i >= 0 && i < (int)L.size(); OK(w.a->DelComment(i) == in, "a comment is removed if it exists"); if (in) L.erase(L.begin() + i); } else { OK(w.a->ClearComments(), "the comments can be removed"); L.clear(); } if (!look) continue; OK(w.b->GetNComments(k) && k == (int)L.size(), "the number of comments is right"); OK(w.b->GetComments(z, c) == !L.empty() && z == L.size(), "the comments can be retrieved"); for (size_t i = 0; i < z; ++i) OK(L[i] == c[i], "the comments are those added, in order"); }
    else if (which == 1) { int len = op == 0 ? 1 : op == 1 ? 72 : 73; std::string t = sym_str("text", len, 32, 126); const char* q = t.c_str(); OK(w.m.AddToHeader(q), "a header line can be added"); for (size_t i = 0; i < t.size(); i += 72) { std::string u = t.substr(i, 72); u.append(72 - u.size(), ' '); L.push_back(u); } if (!look) continue; OK(w.m.GetHeaders(z, c) && z == L.size() && w.m.GetNHeaderLines() == z, "the header can be retrieved"); for (size_t i = 0; i < z; ++i) OK(L[i] == c[i], "the header lines are those added, in order"); }
    else { DLL_IGES_ENTITY* h = H[sym_choice("member", 3)]; IGES_ENTITY* r = h->GetRawPtr(); bool has = std::find(P.begin(), P.end(), r) != P.end(); int raw = sym_choice("raw", 2);
      if (which == 2) { if (op == 0) { OK(raw ? A(308)->AddDE(r) : A(308)->AddDE(h), "a member can be added"); if (!has) P.push_back(r); } else if (op == 1) { OK((raw ? A(308)->DelDE(r) : A(308)->DelDE(h)) == has, "a member can be removed"); if (has) P.erase(std::find(P.begin(), P.end(), r)); } if (!look) continue; OK(B(308)->GetNumDE(z) && z == P.size() && B(308)->GetDEList(z, e) && z == P.size(), "the members can be retrieved"); for (size_t i = 0; i < z; ++i) OK(e[i] == P[i], "the members are those added, in order"); }
      if (which == 3) { IGES_ENTITY_142** l = 0; if (op == 0) { bool ok = raw ? A(144)->AddCutout((IGES_ENTITY_142*)r) : A(144)->AddCutout(*(DLL_IGES_ENTITY_142*)h); OK(ok || has, "a cutout can be added"); if (!has) P.push_back(r); } else if (op == 1) { OK((raw ? A(144)->DelCutout((IGES_ENTITY_142*)r) : A(144)->DelCutout(*(DLL_IGES_ENTITY_142*)h)) == has, "a cutout can be removed"); if (has) P.erase(std::find(P.begin(), P.end(), r)); } if (!look) continue; OK(B(144)->GetNCutouts(k) && k == (int)P.size(), "the number of cutouts is right"); z = 0; OK(B(144)->GetCutouts(z, l) == !P.empty() && z == P.size(), "the cutouts can be retrieved"); for (size_t i = 0; i < z; ++i) OK(l[i] == P[i], "the cutouts are those added, in order"); }
      if (which == 4) { if (op == 0) { bool ok = raw ? w.a->AddOptionalEntity(r) : w.a->AddOptionalEntity(*h); OK(ok || has, "a property can be added"); if (!has) P.push_back(r); } else if (op == 1) { OK((raw ? w.a->DelOptionalEntity(r) : w.a->DelOptionalEntity(*h)) == has, "a property can be removed"); if (has) P.erase(std::find(P.begin(), P.end(), r)); } if (!look) continue; OK(w.b->GetNOptionalEntities(k) && k == (int)P.size(), "the number of properties is right"); OK(w.b->GetOptionalEntities(z, e) == !P.empty() && z == P.size(), "the properties can be retrieved"); for (size_t i = 0; i < z; ++i) OK(e[i] == P[i], "the properties are those added, in order"); }
      if (which == 5) { bool closed = A(102)->IsClosed(); if (op) return; bool ok = raw ? A(102)->AddSegment((IGES_CURVE*)r) : A(102)->AddSegment(*(DLL_IGES_CURVE*)h); if (ok && !has) P.push_back(r); (void)closed; if (!look) continue; OK(B(102)->GetNCurves() == P.size(), "the number of segments is right"); for (size_t i = 0; i < P.size(); ++i) OK((IGES_ENTITY*)B(102)->GetCurve((int)i) == P[i], "the segments are those added, in order"); OK(!B(102)->GetCurve((int)P.size()) && !B(102)->GetCurve(-1), "there is no segment beyond the last"); } }
    sym_reach("step"); }
  for (size_t i = 0; i < H.size(); ++i) delete H[i]; sym_reach("end"); }
// links to other entities
extern "C" void c26_links() {
  int which = sym_choice("link", 9), n = (int)sym_param("n", 3); static const int T[] = { 120, 120, 122, 142, 142, 142, 144, 144, 408 }, C[] = { 110, 100, 100, 128, 100, 100, 128, 142, 308 }; Two w(T[which]); DLL_IGES_ENTITY* h[2] = { mkh<DLL_IGES&>(C[which], w.m, true), mkh<DLL_IGES&>(C[which], w.m, true) }; IGES_ENTITY* now = 0;
  for (int s = 0; s <= n; ++s) {
    IGES_ENTITY* g = 0; bool ok = false; IGES_CURVE* c = 0; IGES_ENTITY_142* b = 0; IGES_ENTITY_308* d = 0;
    switch (which) { case 0: ok = B(120)->GetAxis(&c); g = c; break; case 1: ok = B(120)->GetGeneratrix(&c); g = c; break; case 2: ok = B(122)->GetDirectrix(c); g = c; break; case 3: ok = B(142)->GetSurface(&g); break; case 4: ok = B(142)->GetParameterSpaceBound(&g); break; case 5: ok = B(142)->GetModelSpaceBound(&g); break; case 6: ok = B(144)->GetSurface(g); break; case 7: ok = B(144)->GetBoundCurve(b); g = b; break; case 8: ok = B(408)->GetDE(d); g = d; { IGES_ENTITY_308* d2 = 0; OK(B(408)->GetSubfigure(d2) == ok && d2 == d, "both forms agree"); } break; }
    OK(ok == (now != 0) || (which == 7 && !now), "a link is retrieved if there is one"); OK(g == now, "a link retrieved is the link set"); if (s == n) break;
    int k = sym_choice("to", 3), raw = sym_choice("raw", 2); IGES_ENTITY* e = k == 2 ? 0 : h[k]->GetRawPtr(); if (k == 2) raw = 1; DLL_IGES_ENTITY* x = k == 2 ? 0 : h[k];
    switch (which) { case 0: ok = raw ? A(120)->SetAxis((IGES_CURVE*)e) : A(120)->SetAxis(*(DLL_IGES_CURVE*)x); break; case 1: ok = raw ? A(120)->SetGeneratrix((IGES_CURVE*)e) : A(120)->SetGeneratrix(*(DLL_IGES_CURVE*)x); break; case 2: ok = A(122)->SetDirectrix((IGES_CURVE*)e); break; case 3: ok = raw ? A(142)->SetSurface(e) : A(142)->SetSurface(*x); break; case 4: ok = raw ? A(142)->SetParameterSpaceBound(e) : A(142)->SetParameterSpaceBound(*x); break; case 5: ok = raw ? A(142)->SetModelSpaceBound(e) : A(142)->SetModelSpaceBound(*x); break; case 6: ok = raw ? A(144)->SetSurface(e) : A(144)->SetSurface(*x); break; case 7: ok = raw ? A(144)->SetBoundCurve((IGES_ENTITY_142*)e) : A(144)->SetBoundCurve(*(DLL_IGES_ENTITY_142*)x); break; case 8: ok = raw ? A(408)->SetDE((IGES_ENTITY_308*)e) : A(408)->SetSubfigure((IGES_ENTITY_308*)e); break; }
    OK(ok || !e, "a link can be set, replaced and repeated"); if (ok) now = e; sym_reach(e ? "set" : "removed"); }
  delete h[0]; delete h[1]; }
// flags of a curve on a surface
extern "C" void c26_flags() {
  Two w(142); int p = sym_choice("pref", 4), c = sym_choice("creation", 4); OK(A(142)->SetCurvePreference((BOUND_CURVE_PREF)p) && A(142)->SetCurveCreationFlag((CURVE_CREATION)c), "the flags can be set"); BOUND_CURVE_PREF q; CURVE_CREATION d; OK(B(142)->GetCurvePreference(q) && B(142)->GetCurveCreationFlag(d) && (int)q == p && (int)d == c && E(142)->PREF == p && E(142)->CRTN == c, "a flag retrieved is the flag set"); sym_reach("flags"); }
// spline data
extern "C" void c26_spline() {
  bool rat = sym_choice("rational", 2); int st = rat ? 4 : 3; double k[6] = { 0, 0, 0, 1, 1, 1 }, c[16]; int surf = sym_choice("surface", 2), at = surf ? sym_choice("at", 12) : -1; double a0 = 0, a1 = 1; if (!surf) { a0 = sym_real("v0", 0, 0.25); a1 = sym_real("v1", 0.5, 1); } for (int i = 0; i < 16; ++i) c[i] = rat && i % 4 == 3 ? 1 + i : i == at ? D("c") : 3 * i * i - 40; double *gk = 0, *gc = 0; int n = 0, o = 0; bool r = !rat, cl = false, pe = false; double v0 = 9, v1 = 9;
  if (surf) { Two w(128); double kk[4] = { 0, 0, 1, 1 }, *g2 = 0; int n2 = 0, o2 = 0; bool b2, b3; double u0 = 9, u1 = 9; OK(A(128)->SetNURBSData(2, 2, 2, 2, kk, kk, c, rat, false, false, 0, 1, 0, 1), "a surface can be set"); OK(B(128)->GetNURBSData(n, n2, o, o2, &gk, &g2, &gc, r, cl, pe, b2, b3, u0, u1, v0, v1), "a surface can be retrieved"); OK(n == 2 && n2 == 2 && o == 2 && o2 == 2 && r == rat && u0 == 0 && u1 == 1 && v0 == 0 && v1 == 1, "the numbers retrieved are those set"); OK(eqn(gk, kk, 4) && eqn(g2, kk, 4), "the knots retrieved are those set"); OK(eqn(gc, c, 4 * st), "the coefficients retrieved are those set"); bool q = !rat; OK(B(128)->IsRational(q) && q == rat, "the kind retrieved is that set"); sym_reach("surface"); }
  else { Two w(126); OK(A(126)->SetNURBSData(3, 3, k, c, rat, a0, a1), "a curve can be set"); OK(B(126)->GetNURBSData(n, o, &gk, &gc, r, cl, pe, v0, v1), "a curve can be retrieved"); OK(n == 3 && o == 3 && r == rat && v0 == a0 && v1 == a1, "the numbers retrieved are those set"); OK(eqn(gk, k, 6), "the knots retrieved are those set"); OK(eqn(gc, c, 3 * st), "the coefficients retrieved are those set"); bool q = !rat; OK(B(126)->IsRational(q) && q == rat, "the kind retrieved is that set"); sym_reach("curve"); } }
// model-wide values
extern "C" void c26_global() {
  DLL_IGES m; int k = (int)sym_param("n", 2); std::string s[6]; double d[2]; int i[2]; const char* p = 0; IGES* g = m.GetRawPtr(); IGES_DRAFTING_STANDARD ds = DRAFT_NONE; IGES_UNIT u = UNIT_MM;
  for (int step = 0; step <= k; ++step) {
    DLL_IGES* x = &m; std::string now[6]; bool ok = x->GetProductID_SendingSystem(p); now[0] = p ? p : ""; ok = ok && x->GetNativeSystemID(p); now[1] = p ? p : ""; ok = ok && x->GetProductID_ReceivingSystem(p); now[2] = p ? p : ""; ok = ok && x->GetAuthor(p); now[3] = p ? p : ""; ok = ok && x->GetOrganization(p); now[4] = p ? p : ""; ok = ok && x->GetApplicationNote(p); now[5] = p ? p : ""; double e[2]; int j[2]; ok = ok && x->GetMaxLineWidth(e[0]) && x->GetMinResolution(e[1]) && x->GetMaxLineWidthGrad(j[0]) && x->GetDraftingStandard(ds) && x->GetUnitsFlag(u); j[1] = ds; OK(ok, "the values can be retrieved");
    if (!step) { for (int q = 0; q < 6; ++q) s[q] = now[q]; if (g->globalData.productIDRS.empty()) s[2] = ""; d[0] = e[0]; d[1] = e[1]; i[0] = j[0]; i[1] = j[1]; } for (int q = 0; q < 6; ++q) OK(now[q] == (q == 2 && s[2].empty() ? s[0] : s[q]), "a text retrieved is the text set, and the others are unchanged"); OK((e[0] == d[0]) & (e[1] == d[1]) & (j[0] == i[0]) & (j[1] == i[1]), "a number retrieved is the number set, and the others are unchanged"); IGES_GLOBAL& G = g->globalData; OK(G.productIDSS == s[0] && G.nativeSystemID == s[1] && G.productIDRS == s[2] && G.author == s[3] && G.organization == s[4] && G.applicationNote == s[5] && G.maxLinewidth == d[0] && G.minResolution == d[1] && G.maxLinewidthGrad == i[0] && G.draftStandard == i[1], "a value set is the value of the model"); if (step == k) break;
    int op = sym_choice("op", 10); if (op < 6) { std::string t = sym_strv("text", 0, 3, 1, 255); int none = sym_choice("none", 2); const char* c = none ? 0 : t.c_str(); ok = op == 0 ? m.SetProductID_SendingSystem(c) : op == 1 ? m.SetNativeSystemID(c) : op == 2 ? m.SetProductID_ReceivingSystem(c) : op == 3 ? m.SetAuthor(c) : op == 4 ? m.SetOrganization(c) : m.SetApplicationNote(c); s[op] = none ? "" : t; OK(ok, "a text can be set"); } else if (op < 8) { double v = D("value"); ok = op == 6 ? m.SetMaxLineWidth(v) : m.SetMinResolution(v); bool in = op == 6 ? v > 0 : v >= 1e-9; OK(ok == in, "a number is accepted exactly if it is valid"); if (in) d[op - 6] = v; else sym_reach("refused"); } else if (op == 8) { int v = sym_anyint("grad"); OK(m.SetMaxLineWidthGrad(v) == (v > 0), "a number is accepted exactly if it is valid"); if (v > 0) i[0] = v; else sym_reach("refused"); } else { int v = sym_choice("standard", 8); OK(m.SetDraftingStandard((IGES_DRAFTING_STANDARD)v), "a standard can be set"); i[1] = v; } sym_reach("set"); } }
