// C02: surfaces, solids and structure entities survive a write/read round trip
#include "h.h"

static IGES_ENTITY_110* line(IGES& g, double x1, double y1, double x2, double y2, double z = 0) {
  IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(g, 110); l->X1 = x1; l->Y1 = y1; l->Z1 = z; l->X2 = x2; l->Y2 = y2; l->Z2 = z; return l; }
static IGES_ENTITY_100* circle(IGES& g, double r = 2) {
  IGES_ENTITY_100* c = fresh<IGES_ENTITY_100>(g, 100); c->xStart = c->xEnd = r; c->yStart = c->yEnd = 0; return c; }
static IGES_ENTITY_128* patch(IGES& g) {
  IGES_ENTITY_128* s = fresh<IGES_ENTITY_128>(g, 128);
  double k[4] = { 0, 0, 1, 1 }, c[12] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0 };
  sym_assert(s->SetNURBSData(2, 2, 2, 2, k, k, c, false, false, false, 0, 1, 0, 1), "a bilinear patch is accepted"); return s; }
static void keep(double** f, int n, std::vector<double>& w) { w.clear(); for (int i = 0; i < n; ++i) w.push_back(*f[i]); }
static void same(double** f, const std::vector<double>& w, const char* m, double tol = 1.1e-8) { for (size_t i = 0; i < w.size(); ++i) sym_assert(nearr(*f[i], w[i], tol), m); }
static void vary(double** f, int n) { int k = sym_choice("field", n); *f[k] = pick("v"); }

extern "C" void c02_revolution() {
  IGES a, b; bool first = sym_bool("first");
  IGES_ENTITY_120* e = 0; if (first) e = fresh<IGES_ENTITY_120>(a, 120);
  IGES_ENTITY_110* ax = line(a, 0, 0, 0, 7); IGES_ENTITY_100* gen = circle(a, 1);
  if (!e) e = fresh<IGES_ENTITY_120>(a, 120);
  bool alias = sym_bool("alias");
  sym_assert(alias ? e->SetAxis(ax) : e->SetL(ax), "the axis is accepted"); sym_assert(alias ? e->SetGeneratrix(gen) : e->SetC(gen), "the generatrix is accepted");
  bool which = sym_bool("which"); double v = sym_param("fine", 0) ? sym_num("angle", 600000000L, 100000000, 1) : sym_num("angle", 6 * 16, 16, 1);
  e->startAngle = which ? v : 0.5; e->endAngle = which ? 6.25 : v;
  double sa = e->startAngle, ta = e->endAngle;
  write_read(a, b); sym_reach("revolution");
  IGES_ENTITY_120* g = got<IGES_ENTITY_120>(b, 120); IGES_CURVE *p = 0, *q = 0;
  sym_assert(nearr(g->SA, sa) && nearr(g->TA, ta), "start and end angle are read back");
  sym_assert(g->GetL(&p) && p && p->GetEntityType() == 110, "the axis is read back"); sym_assert(g->GetC(&q) && q && q->GetEntityType() == 100, "the generatrix is read back"); }

extern "C" void c02_cylinder_tab() {
  IGES a, b; IGES_ENTITY_122* e = fresh<IGES_ENTITY_122>(a, 122); IGES_ENTITY_100* c = circle(a, 2);
  sym_assert(e->SetDE(c), "the directrix is accepted");
  double* f[3] = { &e->LX, &e->LY, &e->LZ }; e->LX = 1.5; e->LY = -2; e->LZ = 9; vary(f, 3); std::vector<double> w; keep(f, 3, w);
  write_read(a, b); sym_reach("tabulated");
  IGES_ENTITY_122* g = got<IGES_ENTITY_122>(b, 122); double* h[3] = { &g->LX, &g->LY, &g->LZ }; same(h, w, "the generatrix end point is read back");
  IGES_CURVE* q = 0; sym_assert(g->GetDE(q) && q && q->GetEntityType() == 100, "the directrix is read back"); }

extern "C" void c02_nurbs_surface() {
  IGES a, b; IGES_ENTITY_128* e = fresh<IGES_ENTITY_128>(a, 128);
  int o1 = 2 + sym_choice("o1", 2), o2 = 2, n1 = o1 + sym_choice("x1", 2), n2 = o2 + sym_choice("x2", 2); bool rat = sym_choice("rational", 2);
  std::vector<double> k1, k2, co; int st = rat ? 4 : 3;
  for (int i = 0; i < n1 + o1; ++i) k1.push_back(i < o1 ? 0 : i >= n1 ? n1 - o1 + 1 : i - o1 + 1);
  for (int i = 0; i < n2 + o2; ++i) k2.push_back(i < o2 ? 0 : i >= n2 ? n2 - o2 + 1 : i - o2 + 1);
  for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) { co.push_back(i * 1.5); co.push_back(j * 2.25); co.push_back(i * j * 0.5); if (rat) co.push_back(1 + 0.25 * i + 0.5 * j); }
  double u0 = 0, u1 = k1.back(), v0 = 0, v1 = k2.back();
  int what = sym_choice("what", 4);
  if (what == 0) { int m = (int)co.size(), k = sym_param("allcoef", 0) ? sym_choice("coef", m) : sym_choice("coef", 3); if (!sym_param("allcoef", 0)) k = k == 0 ? 1 : k == 1 ? m - 1 : m / st / 2 * st; co[k] = sym_param("fine", 0) ? k % st == 3 ? sym_num("w", 1000000000L, 100000000, 1) : sym_num("v", 1 << 18, 1 << 14, 3) : pick("v", k % st == 3 ? 1 : 3, k % st == 3 ? 1L << 20 : 1L << 22); }
  else if (what == 1 && sym_param("fine", 0)) { double s = pick("s", 1); sym_assume(s > 9); bool second = sym_choice("second", 2); std::vector<double>& kn = second ? k2 : k1; double m = kn.back(); for (size_t i = 0; i < kn.size(); ++i) if (kn[i] == m) kn[i] = s; (second ? v1 : u1) = s; }
  else if (what == 1) { double s = pick("s", 1); bool second = sym_bool("second"); std::vector<double>& kn = second ? k2 : k1; double m = kn.back(); for (size_t i = 0; i < kn.size(); ++i) if (kn[i] == m) kn[i] = m + s; (second ? v1 : u1) += s; }
  else if (sym_param("fine", 0)) { double s = sym_num("t", 49999999L, 100000000, 1); if (sym_choice("range", 2)) u0 = s; else v0 = s; }
  else { double s = sym_num("t", 15, 32, 1); int r = sym_choice("range", 4); if (r == 0) u0 += s; else if (r == 1) u1 -= s; else if (r == 2) v0 += s; else v1 -= s; }
  int form = what == 3 ? sym_choice("form", 10) : 0;
  bool pe1 = what == 3 && sym_bool("per1"), pe2 = what == 3 && sym_bool("per2");
  sym_assert(e->SetEntityForm(form), "forms 0 to 9 are accepted");
  sym_assert(e->SetNURBSData(n1, n2, o1, o2, k1.data(), k2.data(), co.data(), rat, pe1, pe2, u0, u1, v0, v1), "consistent surface data is accepted");
  write_read(a, b); sym_reach("nurbs-surface"); if (rat) sym_reach("rational"); else sym_reach("polynomial");
  IGES_ENTITY_128* g = got<IGES_ENTITY_128>(b, 128);
  int m1, m2, p1, p2; double *q1, *q2, *c2; bool r2, cl1, cl2, pr1, pr2; double w0, w1, x0, x1;
  sym_assert(g->GetNURBSData(m1, m2, p1, p2, &q1, &q2, &c2, r2, cl1, cl2, pr1, pr2, w0, w1, x0, x1), "the surface data can be retrieved");
  sym_assert(m1 == n1 && m2 == n2 && p1 == o1 && p2 == o2 && r2 == rat, "sizes, orders and kind are read back");
  sym_assert(pr1 == pe1 && pr2 == pe2, "the periodic flags are read back");
  sym_assert(g->GetEntityForm() == form, "the form number is read back");
  for (size_t i = 0; i < k1.size(); ++i) sym_assert(nearr(q1[i], k1[i]), "every knot of the first direction is read back");
  for (size_t i = 0; i < k2.size(); ++i) sym_assert(nearr(q2[i], k2[i]), "every knot of the second direction is read back");
  for (size_t i = 0; i < co.size(); ++i) sym_assert(nearr(c2[i], co[i]), "every control point and weight is read back");
  sym_assert(nearr(w0, u0) && nearr(w1, u1) && nearr(x0, v0) && nearr(x1, v1), "the parameter ranges are read back"); }

// a trimmed surface: outer boundary and holes, each a curve on the surface
extern "C" void c02_trimmed() {
  IGES a, b; int n = sym_choice("holes", (int)sym_param("maxholes", 3)); bool tfirst = sym_bool("first");
  IGES_ENTITY_144* e = 0; if (tfirst) e = fresh<IGES_ENTITY_144>(a, 144);
  IGES_ENTITY_128* s = patch(a); std::vector<IGES_ENTITY_142*> cs;
  int rep = sym_choice("rep", 3), crtn = sym_int("crtn", 0, 3), pref = sym_int("pref", 0, 3);
  double r = sym_num("r", 1 << 20, 16, 1);
  for (int i = 0; i <= n; ++i) {
    IGES_ENTITY_142* c = fresh<IGES_ENTITY_142>(a, 142); sym_assert(c->SetSPTR(s), "the surface of a curve on a surface is accepted");
    if (rep != 1) sym_assert(c->SetBPTR(circle(a, r + i)), "the parameter space curve is accepted");
    if (rep != 0) sym_assert(c->SetCPTR(circle(a, r + 20 + i)), "the model space curve is accepted");
    c->CRTN = crtn; c->PREF = pref; cs.push_back(c); }
  if (!e) e = fresh<IGES_ENTITY_144>(a, 144);
  sym_assert(e->SetPTS(s), "the trimmed surface's surface is accepted");
  sym_assert(e->SetPTO(cs[0]), "the outer boundary is accepted");
  for (int i = 1; i <= n; ++i) sym_assert(e->AddPTI(cs[i]), "a hole is accepted");
  write_read(a, b); sym_reach("trimmed"); if (n) sym_reach("holes");
  IGES_ENTITY_144* g = got<IGES_ENTITY_144>(b, 144); IGES_ENTITY* p = 0; IGES_ENTITY_142* o = 0;
  sym_assert(g->GetPTS(p) && p && p->GetEntityType() == 128, "the surface is read back");
  sym_assert(g->GetPTO(o) && o, "the outer boundary is read back"); sym_assert(g->GetNPTI() == n, "the number of holes is read back");
  for (int i = 0; i <= n; ++i) {
    IGES_ENTITY_142* c = i ? g->GetPTI(i - 1) : o; sym_assert(c != 0, "a hole is read back"); IGES_ENTITY *sp = 0, *bp = 0, *cp = 0;
    sym_assert(c->GetSPTR(&sp) && sp == p, "the boundary lies on the same surface");
    sym_assert((c->GetBPTR(&bp) && bp) == (rep != 1) && (c->GetCPTR(&cp) && cp) == (rep != 0), "the boundary has the same representations");
    if (bp) sym_assert(nearr(((IGES_ENTITY_100*)bp)->xStart, r + i), "boundaries keep their order");
    if (cp) sym_assert(nearr(((IGES_ENTITY_100*)cp)->xStart, r + 20 + i), "boundaries keep their order");
    sym_assert(c->CRTN == crtn, "the creation flag is read back");
    if (rep == 2) sym_assert(c->PREF == pref, "the preferred representation is read back"); } }

extern "C" void c02_solid_cylinder() {
  IGES a, b; IGES_ENTITY_154* e = fresh<IGES_ENTITY_154>(a, 154);
  e->H = 2; e->R = 3; e->X1 = 1; e->Y1 = -1; e->Z1 = 0.5;
  int k = sym_choice("field", 5); double* f[5] = { &e->H, &e->R, &e->X1, &e->Y1, &e->Z1 }; *f[k] = pick("v", k < 2 ? 1 : 3);
  int ax = sym_choice("axis", 5); e->I1 = ax == 0 ? 1 : ax == 3 ? 0.6 : 0; e->J1 = ax == 1 ? -1 : ax == 4 ? 0.6 : 0; e->K1 = ax == 2 ? 1 : ax == 3 ? -0.8 : ax == 4 ? 0.8 : 0;
  std::vector<double> w; keep(f, 5, w); double i1 = e->I1, j1 = e->J1, k1 = e->K1;
  write_read(a, b); sym_reach("solid-cylinder");
  IGES_ENTITY_154* g = got<IGES_ENTITY_154>(b, 154); double* h[5] = { &g->H, &g->R, &g->X1, &g->Y1, &g->Z1 }; same(h, w, "height, radius and centre are read back");
  sym_assert(nearr(g->I1, i1) && nearr(g->J1, j1) && nearr(g->K1, k1), "the axis is read back"); }

extern "C" void c02_extrusion() {
  IGES a, b; IGES_ENTITY_164* e = fresh<IGES_ENTITY_164>(a, 164); IGES_ENTITY_100* c = circle(a, 2);
  sym_assert(e->SetClosedCurve(c), "a closed curve is accepted");
  e->L = pick("length", 1); int ax = sym_choice("axis", 4); e->I1 = ax == 0 ? 1 : ax == 3 ? 0.6 : 0; e->J1 = ax == 1 ? -1 : 0; e->K1 = ax == 2 ? 1 : ax == 3 ? -0.8 : 0;
  double l = e->L, i1 = e->I1, j1 = e->J1, k1 = e->K1;
  write_read(a, b); sym_reach("extrusion");
  IGES_ENTITY_164* g = got<IGES_ENTITY_164>(b, 164); IGES_CURVE* q = 0;
  sym_assert(nearr(g->L, l) && nearr(g->I1, i1) && nearr(g->J1, j1) && nearr(g->K1, k1), "length and direction are read back");
  sym_assert(g->GetClosedCurve(&q) && q && q->GetEntityType() == 100, "the profile is read back"); }

// a boolean tree in postfix order
extern "C" void c02_boolean_tree() {
  IGES a, b; int n = 2 + sym_choice("args", (int)sym_param("maxargs", 2)); bool tfirst = sym_bool("first");
  IGES_ENTITY_180* e = 0; if (tfirst) e = fresh<IGES_ENTITY_180>(a, 180);
  std::vector<IGES_ENTITY_154*> s; for (int i = 0; i < n; ++i) { s.push_back(fresh<IGES_ENTITY_154>(a, 154)); s[i]->H = 1 + i; s[i]->R = 1; s[i]->K1 = 1; }
  if (!e) e = fresh<IGES_ENTITY_180>(a, 180);
  std::vector<int> code; int na = 0, depth = 0;
  while (na < n || depth > 1) {
    bool op = na == n || (depth > 1 && sym_bool("op"));
    if (op) { int o = sym_choice("which", 3) + 1; sym_assert(e->AddOp((BTREE_OPERATOR)o), "an operator is accepted"); code.push_back(o); --depth; }
    else { sym_assert(e->AddArg(s[na]), "a solid is accepted as an operand"); code.push_back(-(na + 1)); ++na; ++depth; } }
  write_read(a, b); sym_reach("boolean-tree");
  IGES_ENTITY_180* g = got<IGES_ENTITY_180>(b, 180);
  sym_assert(g->GetNNodes() == (int)code.size(), "the number of nodes is read back");
  for (int i = 0; i < (int)code.size(); ++i) {
    BTREE_NODE* t = g->GetNode(i); sym_assert(t != 0, "every node is present");
    if (code[i] > 0) sym_assert(t->op && t->val == code[i], "operators are read back in order");
    else sym_assert(!t->op && t->pEnt && t->pEnt->GetEntityType() == 154 && nearr(((IGES_ENTITY_154*)t->pEnt)->H, -code[i]), "operands are read back in order"); } }

extern "C" void c02_colour() {
  IGES a, b; IGES_ENTITY_314* e = fresh<IGES_ENTITY_314>(a, 314);
  e->red = 10; e->green = 20.5; e->blue = 0; double* f[3] = { &e->red, &e->green, &e->blue }; int k = sym_choice("field", 3); *f[k] = sym_num("c", 1600, 16, 5);
  std::vector<double> w; keep(f, 3, w); std::string name = sym_strv("name", 0, (int)sym_param("maxname", 3)); e->cname = name;
  IGES_ENTITY_110* l = line(a, 0, 0, 1, 1); sym_assert(l->SetColor(e), "a colour entity is accepted");
  write_read(a, b); sym_reach("colour");
  IGES_ENTITY_314* g = got<IGES_ENTITY_314>(b, 314); double* h[3] = { &g->red, &g->green, &g->blue }; same(h, w, "the colour components are read back");
  sym_assert(g->cname == name, "the colour name is read back");
  const IGES_ENTITY* q = 0; (void)q; sym_assert(find<IGES_ENTITY_110>(b, 110)->pColor == g, "the coloured entity refers to the colour"); }

// subfigure definition with members, instance, and a name property
extern "C" void c02_subfigure() {
  IGES a, b; int n = 1 + sym_choice("members", (int)sym_param("maxmem", 3)); int order = sym_choice("order", 3);
  IGES_ENTITY_408* in = 0; IGES_ENTITY_308* e = 0;
  if (order == 0) { in = fresh<IGES_ENTITY_408>(a, 408); e = fresh<IGES_ENTITY_308>(a, 308); }
  std::vector<IGES_ENTITY_110*> l; for (int i = 0; i < n; ++i) l.push_back(line(a, i, 0, i, 1 + i));
  if (order == 1) { e = fresh<IGES_ENTITY_308>(a, 308); in = fresh<IGES_ENTITY_408>(a, 408); }
  if (order == 2) { in = fresh<IGES_ENTITY_408>(a, 408); e = fresh<IGES_ENTITY_308>(a, 308); }
  for (int i = 0; i < n; ++i) sym_assert(e->AddDE(l[i]), "a member is accepted");
  std::string name = sym_strv("name", 1, (int)sym_param("maxname", 3)); e->NAME = name; sym_assert(in->SetDE(e), "the definition is accepted");
  double* f[4] = { &in->X, &in->Y, &in->Z, &in->S }; in->X = 1; in->Y = -2.5; in->Z = 100; in->S = 0.5; int k = sym_choice("field", 4); *f[k] = pick("v", k == 3 ? 1 : 3);
  std::vector<double> w; keep(f, 4, w);
  write_read(a, b); sym_reach("subfigure");
  IGES_ENTITY_308* g = got<IGES_ENTITY_308>(b, 308); IGES_ENTITY_408* gi = got<IGES_ENTITY_408>(b, 408); IGES_ENTITY_308* d = 0;
  sym_assert(gi->GetDE(d) && d == g, "the instance refers to the definition"); double* h[4] = { &gi->X, &gi->Y, &gi->Z, &gi->S }; same(h, w, "position and scale of the instance are read back");
  sym_assert(g->NAME == name, "the name is read back"); size_t m = 0; IGES_ENTITY** q = 0;
  sym_assert(g->GetDEList(m, q) && (int)m == n, "the number of members is read back");
  for (int i = 0; i < n; ++i) sym_assert(q[i]->GetEntityType() == 110 && nearr(((IGES_ENTITY_110*)q[i])->X1, i), "members keep their order"); }

extern "C" void c02_name_property() {
  IGES a, b; IGES_ENTITY_110* l = line(a, 0, 0, 1, 1); IGES_ENTITY_406* e = fresh<IGES_ENTITY_406>(a, 406);
  sym_assert(e->SetEntityForm(15), "the name property form is accepted");
  std::string name = sym_strv("name", 1, (int)sym_param("maxname", 4)); sym_assert(e->SetData(name.c_str()), "a name is accepted");
  sym_assert(l->AddOptionalEntity(e), "a property is accepted");
  write_read(a, b); sym_reach("name-property");
  IGES_ENTITY_406* g = got<IGES_ENTITY_406>(b, 406); sym_assert(g->GetEntityForm() == 15, "the form is read back");
  const std::string* s = (const std::string*)g->data; sym_assert(s && *s == name, "the name is read back"); }

// boundary representation: a vertex list, edges, a loop with parameter space curves, a face, a shell and a solid with voids, read from a file, written and read again
extern "C" void c02_brep() {
  FFile f; int npc = sym_choice("pcurves", 3), nv = sym_choice("voids", 3); bool vloop = sym_bool("vertexloop");
  int sof = sym_int("sof", 0, 1), of1 = sym_int("of", 0, 1), ori = sym_int("ori", 0, 1), vof = sym_int("vof", 0, 1);
  std::string S(1, (char)('0' + sof)), O(1, (char)('0' + of1)), R(1, (char)('0' + ori)), V(1, (char)('0' + vof));
  int lc[3]; for (int i = 0; i < 3; ++i) { lc[i] = f.add(110, istr(i) + ".,0.,0.," + istr(i + 1) + ".,1.,0.;"); f.ents.back().de[8] = "00010000"; }
  int vl = f.add(502, "3,0.,0.,0.,1.,1.,0.,2.,0.,0.;", 1); f.ents.back().de[8] = "00010000";
  int ed = f.add(504, "3," + istr(lc[0]) + "," + istr(vl) + ",1," + istr(vl) + ",2," + istr(lc[1]) + "," + istr(vl) + ",2," + istr(vl) + ",3," + istr(lc[2]) + "," + istr(vl) + ",3," + istr(vl) + ",1;", 1); f.ents.back().de[8] = "00010000";
  int pc[2]; for (int i = 0; i < 2; ++i) { pc[i] = f.add(110, "0.,0.,0.," + istr(i + 5) + ".,1.,0.;"); f.ents.back().de[8] = "00010500"; }
  std::string lp = vloop ? "4," : "3,";
  if (vloop) lp += "1," + istr(vl) + ",2," + R + ",0,";
  for (int i = 0; i < 3; ++i) { lp += "0," + istr(ed) + "," + istr(i + 1) + "," + R + "," + istr(i == 1 ? npc : 0); if (i == 1) for (int j = 0; j < npc; ++j) lp += "," + (j ? O : R) + "," + istr(pc[j]); lp += i == 2 ? ";" : ","; }
  int loop = f.add(508, lp, 1); f.ents.back().de[8] = "00010000";
  int surf = f.add(128, "1,1,1,1,0,0,1,0,0,0.,0.,1.,1.,0.,0.,1.,1.,1.,1.,1.,1.,0.,0.,0.,1.,0.,0.,0.,1.,0.,1.,1.,0.,0.,1.,0.,1.;"); f.ents.back().de[8] = "00010000";
  int face = f.add(510, istr(surf) + ",1," + O + "," + istr(loop) + ";", 1); f.ents.back().de[8] = "00010000";
  int sh[3]; for (int i = 0; i <= nv; ++i) { sh[i] = f.add(514, "1," + istr(face) + "," + O + ";", 1); f.ents.back().de[8] = "00010000"; }
  std::string ms = istr(sh[0]) + "," + S + "," + istr(nv); for (int i = 1; i <= nv; ++i) ms += "," + istr(sh[i]) + "," + (i == 1 ? V : S);
  f.add(186, ms + ";");
  IGES a, b; sym_assert(read_text(a, f.text()), "a boundary representation can be read");
  sym_reach("brep-read");
  write_read(a, b); sym_reach("brep-written"); if (npc) sym_reach("pcurves"); if (nv) sym_reach("voids");
  for (int k = 0; k < 2; ++k) {
    IGES& g = k ? b : a;
    IGES_ENTITY_502* v = got<IGES_ENTITY_502>(g, 502); sym_assert(v->vertices.size() == 3, "the number of vertices is read back");
    for (int i = 0; i < 3; ++i) sym_assert(nearr(v->vertices[i].x, i) && nearr(v->vertices[i].y, i == 1) && nearr(v->vertices[i].z, 0), "vertices keep their order and coordinates");
    IGES_ENTITY_504* e = got<IGES_ENTITY_504>(g, 504); sym_assert(e->edges.size() == 3, "the number of edges is read back");
    int i = 0; for (std::list<EDGE_DATA>::iterator it = e->edges.begin(); it != e->edges.end(); ++it, ++i)
      sym_assert(it->curv && it->curv->GetEntityType() == 110 && nearr(((IGES_ENTITY_110*)it->curv)->X1, i) && it->svp == v && it->tvp == v && it->sv == i + 1 && it->tv == (i + 1) % 3 + 1, "edges keep their order, curves and vertices");
    IGES_ENTITY_508* l = got<IGES_ENTITY_508>(g, 508); sym_assert((int)l->edges.size() == 3 + vloop, "the number of loop members is read back");
    for (int j = 0; j < 3 + vloop; ++j) {
      LOOP_DATA* d = l->edges[j]; bool vx = vloop && j == 0; int t = j - vloop;
      sym_assert(d->isVertex == vx && d->data == (vx ? (IGES_ENTITY*)v : (IGES_ENTITY*)e) && d->idx == (vx ? 2 : t + 1) && d->orientFlag == (ori == 1), "loop members keep kind, target, index and orientation");
      sym_assert((int)d->pcurves.size() == (t == 1 ? npc : 0), "the number of parameter curves is read back");
      for (size_t m = 0; m < d->pcurves.size(); ++m) sym_assert(d->pcurves[m]->orientFlag == ((m ? of1 : ori) == 1) && d->pcurves[m]->curve->GetEntityType() == 110 && nearr(((IGES_ENTITY_110*)d->pcurves[m]->curve)->X2, 5 + (int)m), "parameter curves are read back in order"); }
    IGES_ENTITY_510* fc = got<IGES_ENTITY_510>(g, 510); sym_assert(fc->GetSurface() == find<IGES_ENTITY>(g, 128) && fc->GetOuterLoopFlag() == (of1 == 1) && fc->mloops.size() == 1 && fc->mloops[0] == l, "the face's surface, flag and loops are read back");
    for (int j = 0; j <= nv; ++j) { IGES_ENTITY_514* s = got<IGES_ENTITY_514>(g, 514, j); sym_assert(s->mfaces.size() == 1 && s->mfaces[0].first == fc && s->mfaces[0].second == (of1 == 1), "the shell's faces are read back"); }
    IGES_ENTITY_186* m = got<IGES_ENTITY_186>(g, 186); sym_assert(m->mshell == find<IGES_ENTITY_514>(g, 514, 0) && m->mSOF == (sof == 1) && (int)m->mvoids.size() == nv, "the solid's shell, orientation and number of voids are read back");
    int q = 0; for (std::list<std::pair<IGES_ENTITY_514*, bool> >::iterator it = m->mvoids.begin(); it != m->mvoids.end(); ++it) { ++q; sym_assert(it->first == find<IGES_ENTITY_514>(g, 514, q) && it->second == ((q == 1 ? vof : sof) == 1), "voids keep their order and orientation"); } } }
