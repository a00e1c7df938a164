// C10: handles are valid exactly while what they refer to exists
#include "api.h"
struct Ent { IGES_ENTITY* p; bool alive, in; };
static std::vector<Ent> E; static DLL_IGES* M; static IGES* R; static DLL_IGES_ENTITY* H[2]; static int T[2];
static void sees(IGES_ENTITY* p, bool in) { Ent e = { p, true, in }; E.push_back(e); }
static bool ok(int k) { return T[k] >= 0 && E[T[k]].alive; }
static void check() {
  for (int k = 0; k < 2; ++k) { bool v = ok(k); sym_assert(H[k]->IsValid() == v, "a handle is valid exactly while what it refers to exists"); int t = 0, n = 0; sym_assert(H[k]->GetEntityForm(t) == v && H[k]->GetNComments(n) == v, "operations fail exactly on an invalid handle"); sym_assert(H[k]->GetRawPtr() == (v ? E[T[k]].p : 0), "a handle refers to its entity"); if (!v) T[k] = -1; }
  if (!M) return; sym_assert(M->GetRawPtr() == R, "a model handle refers to its model"); size_t n = 0; for (size_t i = 0; i < E.size(); ++i) if (E[i].alive && E[i].in) { ++n; sym_assert(in(R->entities, E[i].p), "an entity stays in its model"); } sym_assert(n == R->entities.size(), "a deleted entity leaves its model"); }
static void all(bool onlyIn) { for (size_t i = 0; i < E.size(); ++i) if (!onlyIn || E[i].in) E[i].alive = false; }
static void del(int k) { if (ok(k)) E[T[k]].alive = false; T[k] = -1; }
extern "C" void c10_handles() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NATYPES), t = ATYPES[lo + sym_choice("type", hi - lo)], n = (int)sym_param("n", 2); E.clear(); M = new DLL_IGES; R = M->GetRawPtr(); sym_assert(R != 0, "a model handle has a model"); bool own = !sym_choice("parent", 2); T[0] = T[1] = -1;
  H[0] = own ? mkh<DLL_IGES&>(t, *M, true) : mkh<IGES*>(t, sym_choice("null", 2) ? 0 : R, true); bool in0 = own || H[0]->m_parent; sym_assert(H[0]->GetRawPtr() != 0, "a handle can create its entity"); sees(H[0]->GetRawPtr(), in0); T[0] = 0; H[1] = mkh<DLL_IGES&>(t, *M, false); check();
  for (int s = 0; s < n; ++s) {
    int o = sym_choice("op", 24), k = o & 1; DLL_IGES_ENTITY* h = H[k];
    switch (o / 2) {
      case 0: { int a = T[1 - k]; bool r = h->Attach(H[1 - k]->GetRawPtr()); sym_assert(r == ok(1 - k), "a handle can be attached to an entity of its type"); if (r) { T[k] = a; sym_reach("shared"); } } break;
      case 1: { IGES_ENTITY* p = ok(k) ? E[T[k]].p : 0; sym_assert(h->Detach() == p, "detaching yields the entity"); T[k] = -1; } break;
      case 2: h->DelEntity(); del(k); break;
      case 3: { bool par = M != 0 && h->m_parent == R && h->m_hasParent; sym_assert(h->NewEntity(), "a handle can create an entity"); sees(h->GetRawPtr(), par); T[k] = (int)E.size() - 1; sym_reach("new"); } break;
      case 4: delete h; H[k] = mkh<IGES*>(t, M ? R : 0, false); T[k] = -1; break;
      case 5: if (!M) return; { bool v = ok(k) && E[T[k]].in; sym_assert(M->DelEntity(h) == v, "an entity of the model can be deleted"); if (v) { del(k); sym_reach("deleted"); } } break;
      case 6: if (!M) return; { bool v = ok(k) && E[T[k]].in; sym_assert(M->UnlinkEntity(h) == v, "an entity of the model can be taken out of it"); if (v) E[T[k]].in = false; } break;
      case 7: if (!M) return; { bool v = ok(k); sym_assert(M->AddEntity(h) == v, "an entity can be added to a model"); if (v) E[T[k]].in = true; } break;
      case 8: if (!M) return; if (k) { sym_assert(M->Clear(), "a model can be cleared"); all(true); } else { M->Cull(true); all(true); } sym_reach("cleared"); break;
      case 9: if (!M) return; if (k) delete M; else { delete R; int f = 0; size_t z = 1; const char** hd = 0; DLL_IGES_ENTITY* q = 0; IGES_ENTITY* w = 0; IGES_ENTITY_308* sub = 0; (void)f; sym_assert(!M->GetRawPtr() && !M->Clear() && !M->Read("x.igs") && !M->Write("x.igs", true) && !M->Export(M, &sub) && !M->NewAPIEntity(ENT_LINE, q) && !M->NewIGESEntity(ENT_LINE, &w) && !M->AddEntity(h) && !M->DelEntity(h) && !M->UnlinkEntity(h) && !M->ConvertUnits(UNIT_INCH) && !M->ChangeModelScale(2) && !M->GetHeaders(z, hd) && !M->GetNHeaderLines() && !M->GetNewPartName() && !M->GetNewAssemblyName(0), "an invalid model handle reports failure"); M->Compact(); M->Cull(); delete M; } M = 0; all(true); sym_reach("destroyed"); break;
      case 10: { IGES* g = new IGES; IGES_ENTITY* other = 0; g->NewEntity(t == 110 ? 100 : 110, &other); sym_assert(!h->Attach(k ? other : 0), "a handle cannot be attached to nothing or to an entity of another type"); if (k) { h->SetAPIParentIGES(g); sym_assert(h->m_hasParent, "a handle has a new parent"); if (t != 110 && t != 100) { bool a = h->NewEntity(); sym_assert(a && in(g->entities, h->GetRawPtr()), "an entity is created in the parent of the handle"); delete g; sym_assert(!h->IsValid(), "a handle is invalid after its model has gone"); T[k] = -1; h->SetAPIParentIGES(M ? R : 0); break; } h->SetAPIParentIGES(M ? R : 0); } delete g; } break;
      case 11: { DLL_IGES* m = new DLL_IGES; bool v = ok(k); IGES_ENTITY* p = v ? E[T[k]].p : 0; IGES* g = m->GetRawPtr(); sym_assert(m->AddEntity(h) == v, "an entity can be added to another model"); sym_assert(g->entities.size() == (size_t)v, "an entity of another model is taken over"); if (v) { E[T[k]].in = false; IGES* par = 0; sym_assert(in(g->entities, p) && h->GetParentIGES(par) && par == g, "the entity belongs to the other model"); check(); int z = sym_choice("moved", 3); if (z == 1 && M) { sym_assert(M->AddEntity(h), "an entity can come back"); E[T[k]].in = true; } else if (z == 2) { sym_assert(m->UnlinkEntity(h), "an entity can be taken out of the other model"); } else E[T[k]].alive = false; sym_reach("moved"); } delete m; } break; }
    check(); }
  std::vector<IGES_ENTITY*> left; for (size_t i = 0; i < E.size(); ++i) if (E[i].alive && !E[i].in) left.push_back(E[i].p);
  if (sym_choice("last", 2)) { delete H[0]; delete H[1]; if (M) { size_t n = 0; for (size_t i = 0; i < E.size(); ++i) n += E[i].alive && E[i].in; sym_assert(R->entities.size() == n, "destroying handles deletes no entity"); delete M; } } else { if (M) delete M; all(true); M = 0; check(); delete H[0]; delete H[1]; }
  for (size_t i = 0; i < left.size(); ++i) { bool flag = false; left[i]->AttachValidFlag(&flag); sym_assert(flag, "an entity outside the model remains"); delete left[i]; sym_assert(!flag, "a deleted entity is known to be deleted"); } sym_reach("end"); }
// creation through the model
extern "C" void c10_create() {
  static const int ALL[] = { 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408, 154, 164, 180, 186, 502, 504, 508, 510, 514, 0, 402 }; int t = ALL[sym_choice("type", 26)]; DLL_IGES m; IGES* r = m.GetRawPtr(); DLL_IGES_ENTITY* h = 0; bool had = sym_choice("had", 2); if (had) { sym_assert(m.NewAPIEntity(ENT_LINE, h) && h && h->IsValid() && h->GetEntityType() == ENT_LINE, "a line can be created"); sym_assert(r->entities.size() == 1, "one entity is created"); }
  IGES_ENTITY* first = had ? h->GetRawPtr() : 0; bool api = false; for (int i = 0; i < NATYPES; ++i) api = api || (ATYPES[i] == t && t != 406); bool ok = m.NewAPIEntity((IGES_ENTITY_TYPE)t, h); size_t was = had ? 1 : 0; if (t == 406) { if (!ok) return; api = true; } sym_assert(ok == api, "entities of the supported types can be created"); sym_assert(r->entities.size() == was + (ok ? 1 : 0), "exactly one entity is created, or none"); if (had) sym_assert(in(r->entities, first), "an earlier entity remains"); sym_assert((h != 0) == ok, "there is a handle exactly on success");
  if (ok) { sym_assert(h->IsValid() && h->GetRawPtr() == r->entities.back() && (int)h->GetEntityType() == t && h->GetRawPtr()->GetEntityType() == t, "the handle refers to the new entity"); IGES* p = 0; sym_assert(h->GetParentIGES(p) && p == r, "the entity belongs to the model"); sym_reach("created"); } else sym_reach("refused");
  IGES_ENTITY* e = 0; bool k = m.NewIGESEntity((IGES_ENTITY_TYPE)t, &e); sym_assert(!k || (e && e == r->entities.back() && r->entities.size() == was + (ok ? 2 : 1)), "an entity can be created without a handle"); if (t != 0 && t != 402) sym_assert(k && e->GetEntityType() == t, "an entity of a known type can be created"); sym_assert(!m.NewIGESEntity((IGES_ENTITY_TYPE)t, 0), "a missing handle is refused");
  if (ok && sym_choice("end", 2)) { delete h; h = 0; sym_assert(r->entities.size() == was + 2, "destroying a handle deletes no entity"); } delete h; }
// every operation on an invalid handle
#define NO(x) sym_assert(!(x), "an invalid handle reports failure: " #x)
extern "C" void c10_invalid() {
  int t = ATYPES[sym_choice("type", NATYPES)], how = sym_choice("how", 5); DLL_IGES* m = new DLL_IGES; DLL_IGES_ENTITY* h = mkh<DLL_IGES&>(t, *m, how != 0); if (how == 1) h->Detach(); if (how == 2) m->GetRawPtr()->DelEntity(h->m_entity); if (how == 3) delete m; if (how == 4) m->Clear(); sym_assert(!h->IsValid(), "the handle is invalid"); DLL_IGES o; IGES_ENTITY* line = 0; o.NewIGESEntity(ENT_LINE, &line); DLL_IGES_ENTITY_110 good(o, true); DLL_IGES_ENTITY_314 gc(o, true); DLL_IGES_ENTITY_142 gb(o, true); DLL_IGES_ENTITY_406 gp(o, true); IGES_CURVE* curve = (IGES_CURVE*)line;
  int i = 0; size_t z = 0; IGES_ENTITY** l = 0; const char** c = 0; const char* s = "x"; IGES* g = 0; IGES_ENTITY* e = 0; IGES_LINEFONT_PATTERN lp = LINEFONT_SOLID; IGES_COLOR co = COLOR_NONE; bool b = false; IGES_STAT_DEPENDS sd = STAT_INDEPENDENT; IGES_STAT_USE su = STAT_USE_GEOMETRY; IGES_STAT_HIER sh = STAT_HIER_ALL_SUB; double x = 0, y = 0, w = 0; MCAD_POINT p; double *dp = 0, *dq = 0, *dr = 0; bool b2, b3, b4, b5; int i2, i3, i4; double d2, d3;
  NO(h->GetNOptionalEntities(i)); NO(h->GetOptionalEntities(z, l)); NO(h->AddOptionalEntity(gp.GetRawPtr())); NO(h->AddOptionalEntity(gp)); NO(h->DelOptionalEntity(gp.GetRawPtr())); NO(h->DelOptionalEntity(gp)); NO(h->GetNComments(i)); NO(h->GetComments(z, c)); NO(h->AddComment(s)); NO(h->DelComment(0)); NO(h->ClearComments()); NO(h->SetParentIGES(o.GetRawPtr())); NO(h->SetParentIGES(o)); NO(h->GetParentIGES(g)); NO(h->GetEntityType(i)); NO(h->GetEntityForm(i)); NO(h->SetEntityForm(0));
  NO(h->SetStructure(line)); NO(h->SetStructure(good)); NO(h->GetStructure(e)); NO(h->SetLineFontPattern(lp)); NO(h->SetLineFontPattern(good)); NO(h->SetLineFontPattern(line)); NO(h->GetLineFontPattern(lp)); NO(h->GetLineFontPatternEntity(e)); NO(h->SetLevel(1)); NO(h->SetLevel(good)); NO(h->SetLevel(line)); NO(h->GetLevel(i)); NO(h->GetLevelEntity(e)); NO(h->SetView(good)); NO(h->SetView(line)); NO(h->GetView(e)); NO(h->SetTransform(good)); NO(h->SetTransform(line)); NO(h->GetTransform(e)); NO(h->SetLabelAssoc(good)); NO(h->SetLabelAssoc(line)); NO(h->GetLabelAssoc(e));
  NO(h->SetColor(co)); NO(h->SetColor(gc)); NO(h->SetColor(gc.GetRawPtr())); NO(h->GetColor(co)); NO(h->GetColorEntity(e)); NO(h->SetLineWeightNum(1)); NO(h->GetLineWeightNum(i)); NO(h->SetLabel("L")); NO(h->GetLabel(s)); NO(h->SetEntitySubscript(1)); NO(h->GetEntitySubscript(i)); NO(h->SetVisibility(true)); NO(h->GetVisibility(b)); NO(h->SetDependency(sd)); NO(h->GetDependency(sd)); NO(h->SetEntityUse(su)); NO(h->GetEntityUse(su)); NO(h->SetHierarchy(sh)); NO(h->GetHierarchy(sh)); NO(h->Detach()); NO(h->GetRawPtr()); h->DelEntity(); s = "x";
  if (DLL_IGES_CURVE* q = dynamic_cast<DLL_IGES_CURVE*>(h)) { NO(q->IsClosed()); NO(q->GetNCurves()); NO(q->GetCurve(0)); NO(q->GetStartPoint(p)); NO(q->GetEndPoint(p)); NO(q->GetNSegments()); }
  switch (t) {
    case 100: { DLL_IGES_ENTITY_100* q = (DLL_IGES_ENTITY_100*)h; NO(q->GetCircleCenter(x, y, w)); NO(q->GetCircleCenter(p)); NO(q->GetCircleStart(x, y, w)); NO(q->GetCircleStart(p)); NO(q->GetCircleEnd(x, y, w)); NO(q->GetCircleEnd(p)); NO(q->SetCircleCenter(1, 2, 3)); NO(q->SetCircleCenter(p)); NO(q->SetCircleStart(1, 2)); NO(q->SetCircleStart(p)); NO(q->SetCircleEnd(1, 2)); NO(q->SetCircleEnd(p)); } break;
    case 102: { DLL_IGES_ENTITY_102* q = (DLL_IGES_ENTITY_102*)h; NO(q->AddSegment(curve)); NO(q->AddSegment(good)); } break;
    case 104: { DLL_IGES_ENTITY_104* q = (DLL_IGES_ENTITY_104*)h; NO(q->GetConicStart(p)); NO(q->GetConicStart(x, y, w)); NO(q->GetConicEnd(p)); NO(q->GetConicEnd(x, y, w)); NO(q->GetConicParams(x, y, w, x, y, w)); NO(q->SetConicStart(p)); NO(q->SetConicStart(1, 2, 3)); NO(q->SetConicEnd(p)); NO(q->SetConicEnd(1, 2)); NO(q->SetConicParams(1, 2, 3, 4, 5, 6)); } break;
    case 110: { DLL_IGES_ENTITY_110* q = (DLL_IGES_ENTITY_110*)h; NO(q->GetLineStart(p)); NO(q->GetLineStart(x, y, w)); NO(q->GetLineEnd(p)); NO(q->GetLineEnd(x, y, w)); NO(q->SetLineStart(p)); NO(q->SetLineStart(1, 2, 3)); NO(q->SetLineEnd(p)); NO(q->SetLineEnd(1, 2, 3)); } break;
    case 120: { DLL_IGES_ENTITY_120* q = (DLL_IGES_ENTITY_120*)h; IGES_CURVE* v = 0; NO(q->GetAxis(&v)); NO(q->SetAxis(curve)); NO(q->SetAxis(good)); NO(q->GetGeneratrix(&v)); NO(q->SetGeneratrix(curve)); NO(q->SetGeneratrix(good)); NO(q->GetAngles(x, y)); NO(q->SetAngles(1, 2)); } break;
    case 122: { DLL_IGES_ENTITY_122* q = (DLL_IGES_ENTITY_122*)h; IGES_CURVE* v = 0; NO(q->GetGeneratrixEnd(p)); NO(q->GetGeneratrixEnd(x, y, w)); NO(q->GetDirectrix(v)); NO(q->SetGeneratrixEnd(p)); NO(q->SetGeneratrixEnd(1, 2, 3)); NO(q->SetDirectrix(curve)); } break;
    case 124: { DLL_IGES_ENTITY_124* q = (DLL_IGES_ENTITY_124*)h; MCAD_TRANSFORM T; NO(q->GetOverallTransform(T)); NO(q->GetRootTransform(T)); NO(q->SetRootTransform(T)); NO(q->SetRootTransform(&T)); } break;
    case 126: { DLL_IGES_ENTITY_126* q = (DLL_IGES_ENTITY_126*)h; double k[6] = { 0, 0, 0, 1, 1, 1 }, v[9] = { 0, 0, 0, 1, 1, 0, 2, 0, 0 }; NO(q->GetNURBSData(i, i2, &dp, &dq, b, b2, b3, d2, d3)); NO(q->SetNURBSData(3, 3, k, v, false, 0, 1)); NO(q->IsPlanar(b)); NO(q->IsRational(b)); NO(q->isPeriodic(b)); NO(q->GetNormal(p)); } break;
    case 128: { DLL_IGES_ENTITY_128* q = (DLL_IGES_ENTITY_128*)h; double k[4] = { 0, 0, 1, 1 }, v[12] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0 }; NO(q->GetNURBSData(i, i2, i3, i4, &dp, &dq, &dr, b, b2, b3, b4, b5, x, y, d2, d3)); NO(q->SetNURBSData(2, 2, 2, 2, k, k, v, false, false, false, 0, 1, 0, 1)); NO(q->IsRational(b)); NO(q->isClosed1(b)); NO(q->isClosed2(b)); NO(q->isPeriodic1(b)); NO(q->isPeriodic2(b)); } break;
    case 142: { DLL_IGES_ENTITY_142* q = (DLL_IGES_ENTITY_142*)h; BOUND_CURVE_PREF bp = BOUND_PREF_ANY; CURVE_CREATION cc = CURVE_CREATE_UNSPECIFIED; NO(q->GetSurface(&e)); NO(q->SetSurface(line)); NO(q->SetSurface(good)); NO(q->GetParameterSpaceBound(&e)); NO(q->SetParameterSpaceBound(line)); NO(q->SetParameterSpaceBound(good)); NO(q->GetModelSpaceBound(&e)); NO(q->SetModelSpaceBound(line)); NO(q->SetModelSpaceBound(good)); NO(q->GetCurvePreference(bp)); NO(q->SetCurvePreference(bp)); NO(q->GetCurveCreationFlag(cc)); NO(q->SetCurveCreationFlag(cc)); } break;
    case 144: { DLL_IGES_ENTITY_144* q = (DLL_IGES_ENTITY_144*)h; IGES_ENTITY_142* v = 0; IGES_ENTITY_142** vl = 0; IGES_ENTITY_142* r = (IGES_ENTITY_142*)gb.GetRawPtr(); NO(q->GetSurface(e)); NO(q->SetSurface(line)); NO(q->SetSurface(good)); NO(q->GetBoundCurve(v)); NO(q->SetBoundCurve(r)); NO(q->SetBoundCurve(gb)); NO(q->GetNCutouts(i)); NO(q->GetCutouts(z, vl)); NO(q->AddCutout(r)); NO(q->AddCutout(gb)); NO(q->DelCutout(r)); NO(q->DelCutout(gb)); } break;
    case 308: { DLL_IGES_ENTITY_308* q = (DLL_IGES_ENTITY_308*)h; DLL_IGES_ENTITY* gd = &good; NO(q->GetNumDE(z)); NO(q->GetDEList(z, l)); NO(q->AddDE(line)); NO(q->AddDE(gd)); NO(q->DelDE(line)); NO(q->DelDE(gd)); NO(q->GetNestDepth(i)); NO(q->GetName(s)); NO(q->SetName("N")); } break;
    case 314: { DLL_IGES_ENTITY_314* q = (DLL_IGES_ENTITY_314*)h; NO(q->GetColor(x, y, w)); NO(q->SetColor(1, 2, 3)); NO(q->GetName(s)); NO(q->SetName("N")); } break;
    case 406: { DLL_IGES_ENTITY_406* q = (DLL_IGES_ENTITY_406*)h; NO(q->GetProperty_Name()); NO(q->SetProperty_Name("N")); } break;
    case 408: { DLL_IGES_ENTITY_408* q = (DLL_IGES_ENTITY_408*)h; IGES_ENTITY_308* v = 0; NO(q->GetSubfigure(v)); NO(q->SetSubfigure(0)); NO(q->GetSubfigParams(x, y, w, d2)); NO(q->SetSubfigParams(1, 2, 3, 4)); NO(q->GetDE(v)); NO(q->SetDE(0)); } break; }
  delete h; if (how != 3) delete m; sym_reach("invalid"); }
// segments and outlines
extern "C" void c10_geometry() {
  DLL_MCAD_SEGMENT *s[2] = { new DLL_MCAD_SEGMENT(sym_choice("create", 2)), new DLL_MCAD_SEGMENT(false) }; DLL_MCAD_OUTLINE* o = sym_choice("pcb", 2) ? new DLL_IGES_GEOM_PCB(true) : new DLL_MCAD_OUTLINE(true); std::vector<MCAD_SEGMENT*> loose; int n = (int)sym_param("n", 3); bool err = false; int holes = 0; MCAD_POINT c(0, 0, 0), a(1, 0, 0), q(2, 2, 0); double r = 0; MCAD_SEGTYPE st; MCAD_SEGMENT* was[2] = { s[0]->GetRawPtr(), 0 }; bool bl = false;
  for (int i = 0; i < n; ++i) {
    int op = sym_choice("op", 16), k = op & 1; DLL_MCAD_SEGMENT* h = s[k]; bool v = h->IsValid();
    switch (op / 2) {
      case 0: { MCAD_SEGMENT* old = h->GetRawPtr(); bool mine = old && s[1 - k]->GetRawPtr() != old && std::find(loose.begin(), loose.end(), old) == loose.end() && !holes; sym_assert(h->NewSegment() && h->IsValid(), "a handle can create a segment"); if (mine) { bool f = false; old->AttachValidFlag(&f); sym_assert(f, "the previous segment is detached"); delete old; sym_assert(!f, "a deleted segment is known to be deleted"); } was[k] = h->GetRawPtr(); } break;
      case 1: if (holes) return; h->DelSegment(); sym_assert(!h->IsValid(), "a deleted segment leaves its handle invalid"); sym_assert(!h->GetRawPtr(), "an invalid handle has no segment"); if (v && s[1 - k]->IsValid()) sym_assert(s[1 - k]->GetRawPtr() != was[k] || was[0] != was[1], "all handles of a deleted segment are invalid"); break;
      case 2: if (v && s[1 - k]->GetRawPtr() != h->GetRawPtr() && !holes) loose.push_back(h->GetRawPtr()); h->Detach(); sym_assert(!h->IsValid() && !h->GetRawPtr(), "a detached handle is invalid"); break;
      case 3: { bool t = s[1 - k]->IsValid(); bool ok = h->Attach(s[1 - k]->GetRawPtr()); sym_assert(ok == (!v && t), "a free handle can be attached to a segment"); if (ok) { sym_assert(h->GetRawPtr() == s[1 - k]->GetRawPtr(), "a handle refers to its segment"); was[k] = h->GetRawPtr(); sym_reach("shared"); } } break;
      case 4: sym_assert(h->SetParams(c, a, a, false) && h->IsValid(), "a circle can be described"); was[k] = h->GetRawPtr(); sym_assert(h->GetRadius(r) && r == 1, "the circle has the given radius"); break;
      case 5: { sym_assert(h->GetRadius(r) == v && h->GetSegType(st) == v && h->GetCenter(q) == v && h->GetLength(r) == v && h->IsCW(bl) == v, "operations fail exactly on an invalid handle"); } break;
      case 6: if (!o || holes) return; { bool circle = v && h->GetSegType(st) && st == MCAD_SEGTYPE_CIRCLE; MCAD_SEGMENT* p = h->GetRawPtr(); bool same = v && s[1 - k]->GetRawPtr() == p; bool ok = o->AddSegment(*h, err); sym_assert(ok == circle, "a circle can become an outline"); if (ok) { holes = 1; sym_assert(!h->IsValid(), "the outline owns the segment"); MCAD_SEGMENT** l = 0; int z = 0; sym_assert(o->GetSegments(l, z) && z == 1 && l[0] == p, "the segment is part of the outline"); delete[] l; if (same) s[1 - k]->Detach(); sym_reach("outline"); } } break;
      case 7: if (!o) return; if (k) { o->DelOutline(); holes = 0; sym_assert(!o->IsValid() && !o->GetRawPtr(), "a deleted outline leaves its handle invalid"); MCAD_SEGMENT** l = 0; int z = 0; sym_assert(!o->GetSegments(l, z) && !o->IsClosed(bl) && !o->IsContiguous(bl) && !o->AddOutline(*h, err) && !o->AddSegment(*h, err), "an invalid handle reports failure"); sym_assert(o->NewOutline() && o->IsValid(), "a handle can create an outline"); sym_reach("deleted"); } else { delete o; o = 0; holes = 0; } break; } }
  delete s[0]; delete s[1]; if (o) { bool f = o->IsValid(); sym_assert(f, "the outline remains"); MCAD_SEGMENT** l = 0; int z = 0; bool k = o->GetSegments(l, z); sym_assert(k == (holes > 0) && z == holes, "destroying handles leaves the outline as it was"); if (k) { sym_assert(l[0]->GetRadius() == 1, "the segment of an outline exists"); delete[] l; } delete o; }
  for (size_t i = 0; i < loose.size(); ++i) { bool f = false; for (size_t j = 0; j < i; ++j) if (loose[j] == loose[i]) f = true; if (f) return; } sym_reach("end"); }
