// C01: curve and transform entities survive a write/read round trip
#include "h.h"

static const double BASE[] = { 0.0, 1.5, -7.25, 1234.5, -0.001, 88.0, -1e6, 3.0, 0.125, -42.0, 17.75, 6.5, -9.0 };

// give every field its own fixed value, then make `ns` consecutive ones (starting anywhere) symbolic
static int fill(double** f, int n, int ns) {
  for (int i = 0; i < n; ++i) *f[i] = BASE[(i + 1) % 13] + i;
  int k = sym_choice("field", n);
  char nm[16];
  for (int j = 0; j < ns; ++j) { snprintf(nm, sizeof nm, "v%d", j); *f[(k + j) % n] = pick(nm); }
  return k; }
static void same(double** f, const std::vector<double>& w, int n, const char* msg, double tol = 1.1e-8) {
  for (int i = 0; i < n; ++i) sym_assert(nearr(*f[i], w[i], tol), msg); }
static std::vector<double> vals(double** f, int n) { std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(*f[i]); return w; }

static void fields100(IGES_ENTITY_100* e, double** f) { double* q[] = { &e->zOffset, &e->xCenter, &e->yCenter, &e->xStart, &e->yStart, &e->xEnd, &e->yEnd }; for (int i = 0; i < 7; ++i) f[i] = q[i]; }
static void fields104(IGES_ENTITY_104* e, double** f) { double* q[] = { &e->A, &e->B, &e->C, &e->D, &e->E, &e->F, &e->ZT, &e->X1, &e->Y1, &e->X2, &e->Y2 }; for (int i = 0; i < 11; ++i) f[i] = q[i]; }
static void fields110(IGES_ENTITY_110* e, double** f) { double* q[] = { &e->X1, &e->Y1, &e->Z1, &e->X2, &e->Y2, &e->Z2 }; for (int i = 0; i < 6; ++i) f[i] = q[i]; }
static void fields124(IGES_ENTITY_124* e, double** f) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f[3 * i + j] = &e->T.R.v[i][j]; f[9] = &e->T.T.x; f[10] = &e->T.T.y; f[11] = &e->T.T.z; }

// a circular arc: the end points lie on a circle about the centre
extern "C" void c01_arc() {
  IGES a, b; double* f[7];
  IGES_ENTITY_100* e = fresh<IGES_ENTITY_100>(a, 100);
  // centre (cx,cy), start = centre + (r,0), end = centre + (0,r) or the like: exact on the grid
  int what = sym_choice("what", 4);
  double cx = 2.5, cy = -3.25, z = 0.5, r = 4;
  if (what == 0) cx = sym_num("cx", 9999999, 4); else if (what == 1) cy = sym_num("cy", 9999999, 4);
  else if (what == 2) z = sym_num("z", 9999999, 4); else r = sym_num("r", 9999999, 4, 1);
  e->xCenter = cx; e->yCenter = cy; e->zOffset = z;
  int q = sym_choice("quadrant", 3);
  e->xStart = cx + r; e->yStart = cy;
  e->xEnd = q == 0 ? cx : q == 1 ? cx - r : cx + r; e->yEnd = q == 0 ? cy + r : cy;
  fields100(e, f); std::vector<double> w = vals(f, 7);
  write_read(a, b);
  sym_reach("arc-read");
  IGES_ENTITY_100* g = got<IGES_ENTITY_100>(b, 100); fields100(g, f);
  same(f, w, 7, "every arc parameter is read back with the value that was written");
}

extern "C" void c01_line() {
  IGES a, b; double* f[6];
  IGES_ENTITY_110* e = fresh<IGES_ENTITY_110>(a, 110); fields110(e, f);
  fill(f, 6, (int)sym_param("ns", 1));
  int form = sym_choice("form", 3);
  sym_assert(e->SetEntityForm(form), "line forms 0 to 2 are accepted");
  std::vector<double> w = vals(f, 6);
  write_read(a, b);
  sym_reach("line-read");
  IGES_ENTITY_110* g = got<IGES_ENTITY_110>(b, 110); fields110(g, f);
  same(f, w, 6, "every line coordinate is read back with the value that was written");
  sym_assert(g->GetEntityForm() == form, "the form number is read back");
}

// a conic whose form was set by the caller
extern "C" void c01_conic() {
  IGES a, b; double* f[11];
  IGES_ENTITY_104* e = fresh<IGES_ENTITY_104>(a, 104); fields104(e, f);
  fill(f, 11, (int)sym_param("ns", 1));
  int form = sym_choice("form", 5);
  bool ok = e->SetEntityForm(form);
  sym_assert(ok == (form >= 1 && form <= 3), "only conic forms 1 to 3 can be set");
  if (!ok) return;
  std::vector<double> w = vals(f, 11);
  write_read(a, b);
  sym_reach("conic-read");
  IGES_ENTITY_104* g = got<IGES_ENTITY_104>(b, 104); fields104(g, f);
  same(f, w, 11, "every conic parameter is read back with the value that was written");
  sym_assert(g->GetEntityForm() == form, "the form number is read back");
}

// a conic whose form is worked out from its coefficients: p*x*x + q*y*y (+ e*y) = f
extern "C" void c01_conic_form() {
  IGES a, b;
  IGES_ENTITY_104* e = fresh<IGES_ENTITY_104>(a, 104);
  int kind = 1 + sym_choice("kind", 3);
  double p = sym_num("p", 1000, 1, 1), q = sym_num("q", 1000, 1, 1), c = sym_num("c", 1000, 1, 1);
  bool sw = sym_bool("swap");
  if (kind == 1) { e->A = p; e->C = q; e->F = -c; }
  else if (kind == 2) { e->A = sw ? -p : p; e->C = sw ? q : -q; e->F = -c; }
  else if (!sw) { e->A = p; e->E = -c; } else { e->C = p; e->D = -c; }
  e->X1 = 1; e->X2 = -1;
  write_read(a, b);
  sym_reach("conic-form-read");
  IGES_ENTITY_104* g = got<IGES_ENTITY_104>(b, 104);
  sym_assert(g->GetEntityForm() == kind, "the form number written agrees with the kind of conic the coefficients describe");
  sym_assert(nearr(g->A, e->A) && nearr(g->C, e->C) && nearr(g->D, e->D) && nearr(g->E, e->E) && nearr(g->F, e->F), "the coefficients are read back");
}

// a line placed by a transformation matrix
extern "C" void c01_transform() {
  IGES a, b; double* f[12];
  IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(a, 110); l->X2 = 1;
  IGES_ENTITY_124* t = fresh<IGES_ENTITY_124>(a, 124); fields124(t, f);
  fill(f, 12, (int)sym_param("ns", 1));
  std::vector<double> w = vals(f, 12);
  sym_assert(l->SetTransform(t), "a line accepts a transform");
  write_read(a, b);
  sym_reach("transform-read");
  IGES_ENTITY_124* g = got<IGES_ENTITY_124>(b, 124); fields124(g, f);
  same(f, w, 12, "every transform element is read back with the value that was written");
  IGES_ENTITY* tp = 0; IGES_ENTITY_110* gl = got<IGES_ENTITY_110>(b, 110);
  sym_assert(gl->GetTransform(&tp) && tp == g, "the placed entity refers to the transform read back");
}

// a chain of n lines, in order, with the transform shared by all
extern "C" void c01_composite() {
  IGES a, b;
  int n = 1 + sym_choice("n", (int)sym_param("maxn", 3)); bool closed = n > 2 && sym_bool("closed");
  int perm = sym_choice("order", 3);        // composite created first, last, or after the first curve
  IGES_ENTITY_102* c = 0; std::vector<IGES_ENTITY_110*> l;
  for (int i = 0; i < n; ++i) {
    if (perm == 0 && i == 0) c = fresh<IGES_ENTITY_102>(a, 102);
    l.push_back(fresh<IGES_ENTITY_110>(a, 110));
    if (perm == 2 && i == 0) c = fresh<IGES_ENTITY_102>(a, 102);
  }
  if (!c) c = fresh<IGES_ENTITY_102>(a, 102);
  double x = pick("x", 3, 1L << 24);
  for (int i = 0; i < n; ++i) { l[i]->X1 = x + i; l[i]->Y1 = (double)i * i; l[i]->X2 = x + i + 1; l[i]->Y2 = (double)(i + 1) * (i + 1); }
  if (closed) { l[n - 1]->X2 = x; l[n - 1]->Y2 = 0; }
  for (int i = 0; i < n; ++i) sym_assert(c->AddSegment(l[i]), "an open composite curve accepts a segment");
  sym_assert(c->GetNCurves() == n, "every segment is added");
  write_read(a, b);
  sym_reach("composite-read"); if (closed) sym_reach("closed");
  IGES_ENTITY_102* g = got<IGES_ENTITY_102>(b, 102);
  sym_assert(g->GetNCurves() == n, "the composite curve has the same number of segments");
  sym_assert(g->IsClosed() == closed, "the composite curve is closed exactly if it was");
  for (int i = 0; i < n; ++i) {
    IGES_ENTITY_110* s = dynamic_cast<IGES_ENTITY_110*>(g->GetCurve(i));
    sym_assert(s != 0, "segment type is read back");
    sym_assert(nearr(s->X1, l[i]->X1) && nearr(s->Y1, l[i]->Y1) && nearr(s->X2, l[i]->X2) && nearr(s->Y2, l[i]->Y2), "segments keep their order and coordinates");
    IGES_STAT_DEPENDS d; sym_assert(s->GetDependency(d) && d == STAT_DEP_PHY, "a segment is physically dependent on the composite curve");
  }
}

// a B-spline curve: order, number of control points, rational or not, one free value
extern "C" void c01_nurbs() {
  IGES a, b;
  IGES_ENTITY_126* e = fresh<IGES_ENTITY_126>(a, 126);
  bool wt = sym_param("weights", 0); int order = 2 + (wt ? 0 : sym_choice("order", 2)), nc = order + (wt ? 0 : sym_choice("extra", (int)sym_param("extra", 2))); bool rat = wt || sym_choice("rational", 2);
  int nk = nc + order, st = rat ? 4 : 3;
  std::vector<double> kn, co;
  for (int i = 0; i < nk; ++i) kn.push_back(i < order ? 0 : i >= nc ? nc - order + 1 : i - order + 1);
  int plane = wt ? 0 : sym_choice("plane", 2);        // control points in the plane z = 0 or x = 0
  for (int i = 0; i < nc; ++i) { double p = i * 1.5, q = i * i * 0.25; co.push_back(plane ? 0 : p); co.push_back(plane ? p : q); co.push_back(plane ? q : 0); if (rat) co.push_back(1.0 + 0.25 * i); }
  double v0 = kn.front(), v1 = kn.back();
  // one value is free: an in-plane control point coordinate, a weight, a knot or the parameter range
  int what = wt ? 0 : sym_choice("what", 3);
  int form = what == 2 ? sym_choice("form", 6) : 0;
  if (wt) co[3] = sym_num("v", 4095, 1024, 1); else if (what == 0) { int k = sym_choice("coef", (int)co.size()); if (k % st == (plane ? 0 : 2)) return; co[k] = k % st != 3 && sym_param("fine", 0) ? sym_num("v", 1 << 18, 1 << 14, 3) : pick("v", k % st == 3 ? 1 : 3, k % st == 3 ? 1L << 20 : 1L << 22); }
  else if (sym_param("fine", 0)) { double s = pick("s", 1); if (what == 1) { sym_assume(s > nc + 1); for (int i = 0; i < nk; ++i) if (kn[i] == v1) kn[i] = s; v1 = s; } else { sym_assume(s < 0.5); v0 = s; } }
  else if (what == 1) { double s = pick("s", 1); for (int i = 0; i < nk; ++i) if (kn[i] == v1) kn[i] = v1 + s; v1 += s; }
  else { double s = sym_num("t", 15, 16, 1); v0 += s * 0.5; v1 -= s * 0.25; }
  sym_assert(e->SetEntityForm(form), "forms 0 to 5 are accepted");
  sym_assert(e->SetNURBSData(nc, order, kn.data(), co.data(), rat, v0, v1), "consistent curve data is accepted");
  write_read(a, b);
  sym_reach("nurbs-read"); if (rat) sym_reach("rational"); else sym_reach("polynomial");
  IGES_ENTITY_126* g = got<IGES_ENTITY_126>(b, 126);
  int n2, o2; double *k2, *c2; bool r2, cl, pe; double w0, w1;
  sym_assert(g->GetNURBSData(n2, o2, &k2, &c2, r2, cl, pe, w0, w1), "the curve data can be retrieved");
  sym_assert(n2 == nc && o2 == order && r2 == rat, "size, order and kind of curve are read back");
  sym_assert(g->GetEntityForm() == form, "the form number is read back");
  for (int i = 0; i < nk; ++i) sym_assert(nearr(k2[i], kn[i]), "every knot is read back");
  for (int i = 0; i < nc * st; ++i) sym_assert(nearr(c2[i], co[i]), "every control point and weight is read back");
  sym_assert(nearr(w0, v0) && nearr(w1, v1), "the parameter range is read back");
}
// large and small arcs whose end points are not exact in the digits of the file
extern "C" void c01_arc_large() {
  static const double R[] = { 0.01, 1, 250, 20000, 1e6 }, A[] = { 0.1, 0.77, 1.3, 2.2, 3.3, 4.4, 5.9 }; IGES a, b; double* f[7]; IGES_ENTITY_100* e = fresh<IGES_ENTITY_100>(a, 100); double r = R[sym_choice("radius", 5)], u = A[sym_choice("from", 7)], v = A[sym_choice("to", 7)];
  e->xCenter = 2.5 * r; e->yCenter = -r; e->zOffset = 1; e->xStart = e->xCenter + r * std::cos(u); e->yStart = e->yCenter + r * std::sin(u); e->xEnd = e->xCenter + r * std::cos(v); e->yEnd = e->yCenter + r * std::sin(v); fields100(e, f); std::vector<double> w = vals(f, 7); write_read(a, b); IGES_ENTITY_100* g = got<IGES_ENTITY_100>(b, 100); fields100(g, f); same(f, w, 7, "every arc parameter is read back with the value that was written"); sym_reach("arc-read"); }
