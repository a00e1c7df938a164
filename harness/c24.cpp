// C24: curves report their end points, closure and constituents
#include "models.h"
static double el(const std::string& n, int b = 12) { return __sym_intreal(n.c_str(), -(1L << b), 1L << b); }
static void place(IGES& g, IGES_ENTITY* e, MCAD_TRANSFORM& t, bool with) { if (!with) return; for (int i = 0; i < 9; ++i) t.R.v[i / 3][i % 3] = el("R" + istr(i), 6); t.T = MCAD_POINT(el("Tx"), el("Ty"), el("Tz")); IGES_ENTITY_124* x = fresh<IGES_ENTITY_124>(g, 124); x->T = t; sym_assert(e->SetTransform(x), "a transformation can be set"); }
static MCAD_POINT app(const MCAD_TRANSFORM& t, const MCAD_POINT& p) { double q[3] = { p.x, p.y, p.z }, r[3] = { t.T.x, t.T.y, t.T.z }; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] = r[i] + t.R.v[i][j] * q[j]; return MCAD_POINT(r[0], r[1], r[2]); }
static void is(const MCAD_POINT& a, const MCAD_POINT& b, const char* m) { sym_assert((a.x == b.x) & (a.y == b.y) & (a.z == b.z), m); }
static void ends(IGES_CURVE* c, const MCAD_POINT& a, const MCAD_POINT& b, const MCAD_TRANSFORM& t) {
  MCAD_POINT p, q; sym_assert(c->GetStartPoint(p, false) && c->GetEndPoint(q, false), "a curve has end points"); is(p, a, "the start point is that of the geometry"); is(q, b, "the end point is that of the geometry");
  sym_assert(c->GetStartPoint(p) && c->GetEndPoint(q), "a curve has end points"); is(p, app(t, a), "the start point is transformed"); is(q, app(t, b), "the end point is transformed");
  sym_assert(c->GetNSegments() == 1 && c->GetNCurves() == 0 && !c->GetCurve(0) && !c->GetCurve(-1), "a simple curve has no constituents"); }
static IGES_ENTITY_110* line(IGES& g, const MCAD_POINT& a, const MCAD_POINT& b) { IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(g, 110); l->X1 = a.x; l->Y1 = a.y; l->Z1 = a.z; l->X2 = b.x; l->Y2 = b.y; l->Z2 = b.z; return l; }
extern "C" void c24_line() { IGES g; MCAD_POINT a(el("ax"), el("ay"), el("az")), b(el("bx"), el("by"), el("bz")); IGES_ENTITY_110* l = line(g, a, b); sym_assert(l->SetEntityForm(sym_choice("form", 3)), "a line has three forms"); MCAD_TRANSFORM t; place(g, l, t, sym_choice("placed", 2)); ends(l, a, b, t); sym_assert(!l->IsClosed(), "a line is not closed"); sym_reach("line"); }
static double dist(double x, double y) { return (x < 0 ? -x : x) + (y < 0 ? -y : y); }
extern "C" void c24_arc() {
  IGES g; IGES_ENTITY_100* c = fresh<IGES_ENTITY_100>(g, 100); double cx = el("cx"), cy = el("cy"); MCAD_POINT a(el("ax"), el("ay"), el("z")), b(el("bx"), el("by"), a.z); c->xCenter = cx; c->yCenter = cy; c->xStart = a.x; c->yStart = a.y; c->xEnd = b.x; c->yEnd = b.y; c->zOffset = a.z; MCAD_TRANSFORM t; place(g, c, t, sym_choice("placed", 2)); ends(c, a, b, t);
  bool cl = c->IsClosed(), same = (a.x == b.x) & (a.y == b.y), zero = (a.x == cx) & (a.y == cy); sym_assert(cl == (same && !zero), "an arc is closed exactly when its end points coincide and its radius is not zero"); sym_reach(cl ? "closed" : "open"); }
// the distance of the end points within which an arc is closed is the resolution
extern "C" void c24_arc_near() { IGES g; double r = 0.001; if (sym_choice("res", 2)) r = 0.5; g.globalData.minResolution = r; IGES_ENTITY_100* c = fresh<IGES_ENTITY_100>(g, 100); double d = sym_num("d", 1L << 12, 4096, 3) , e = sym_choice("axis", 2) ? d : 0; c->xStart = 16; c->xEnd = e ? 16 : 16 + d; c->yEnd = e; bool cl = c->IsClosed(); double m = d < 0 ? -d : d; if (m <= r / 4) sym_assert(cl, "an arc whose end points are within the resolution is closed"); if (m > 2 * r) sym_assert(!cl, "an arc whose end points are apart is open"); sym_reach(cl ? "closed" : "open"); }
extern "C" void c24_conic() {
  IGES g; IGES_ENTITY_104* c = fresh<IGES_ENTITY_104>(g, 104); MCAD_POINT a(el("ax"), el("ay"), el("z")), b(el("bx"), el("by"), a.z); int f = sym_choice("form", 3); if (f == 0) { c->A = 1; c->C = 4; c->F = -16; } else if (f == 1) { c->A = 1; c->C = -4; c->F = -16; } else { c->A = 1; c->E = -2; }
  c->X1 = a.x; c->Y1 = a.y; c->X2 = b.x; c->Y2 = b.y; c->ZT = a.z; MCAD_TRANSFORM t; place(g, c, t, sym_choice("placed", 2)); ends(c, a, b, t); bool cl = c->IsClosed(), same = (a.x == b.x) & (a.y == b.y); sym_assert(cl == (f == 0 && same), "a conic is closed exactly when it is an ellipse whose end points coincide"); sym_reach(cl ? "closed" : "open"); }
extern "C" void c24_nurbs() { IGES g; IGES_ENTITY_126* c = mk126(g); sym_assert(c->GetNCurves() == 0, "a spline curve has no constituents"); sym_assert(!c->GetCurve(sym_choice("i", 3) - 1), "a spline curve has no constituents"); sym_reach("spline"); }
static bool near0(double d) { return d == 0; }
// a composite curve of lines and arcs
extern "C" void c24_composite() {
  IGES g, h; int n = sym_choice("n", (int)sym_param("n", 3)) + 1, k = sym_choice("kind", 3), file = (int)sym_param("file", 0); if (file && n > 2) sym_assume(false); IGES_ENTITY_102* c = fresh<IGES_ENTITY_102>(g, 102); MCAD_POINT p, q; sym_assert(!c->GetStartPoint(p) && !c->GetEndPoint(q) && !c->IsClosed() && c->GetNSegments() == 0 && c->GetNCurves() == 0 && !c->GetCurve(0), "an empty composite curve has no end points");
  bool tail = k == 1 && n == 2 && sym_choice("tail", 2); std::vector<IGES_CURVE*> in; std::vector<MCAD_POINT> s, e; for (int i = 0; i < n; ++i) {
    MCAD_POINT a, b; if (file) { a = MCAD_POINT(i + 1, 2 + i, 0); b = MCAD_POINT(i + 2, 3 + i, 0); if (i == n - 1 && n > 1) b = sym_choice("close", 2) ? MCAD_POINT(1, 2, 0) : MCAD_POINT(sym_num("end", 1L << 12, 4, 3), 2, 5); } else { a = MCAD_POINT(el("ax" + istr(i)), el("ay" + istr(i)), k == 2 && i == n - 1 ? 0 : el("az" + istr(i))); b = MCAD_POINT(el("bx" + istr(i)), el("by" + istr(i)), k == 2 && i == n - 1 ? 0 : el("bz" + istr(i))); }
    IGES_CURVE* v; if (k == 2 && i == n - 1 && !file) { IGES_ENTITY_100* x = fresh<IGES_ENTITY_100>(g, 100); x->xStart = a.x; x->yStart = a.y; x->xEnd = b.x; x->yEnd = b.y; x->xCenter = 8192; v = x; } else v = line(g, a, b);
    MCAD_TRANSFORM t; if (k == 1 && i == (tail ? n - 1 : 0) && !file) { t.T = MCAD_POINT(3, el("Tu"), 5); t.R.v[0][0] = 2; t.R.v[0][1] = el("Ru", 6); IGES_ENTITY_124* x = fresh<IGES_ENTITY_124>(g, 124); x->T = t; sym_assert(v->SetTransform(x), "a transformation can be set"); }
    bool was = c->IsClosed(); int m = c->GetNCurves(); bool ok = c->AddSegment(v); sym_assert(ok == !was, "a segment is refused exactly when the curve is already closed"); if (!ok) { sym_assert(c->GetNCurves() == m, "a refused segment is not listed"); sym_assert(v->refs.empty(), "a refused segment is not referenced"); sym_reach("refused"); break; }
    in.push_back(v); s.push_back(app(t, a)); e.push_back(app(t, b)); 
    sym_assert(c->GetNSegments() == (int)in.size() && c->GetNCurves() == (int)in.size() && !c->GetCurve((int)in.size()) && !c->GetCurve(-1), "the number of segments is the number added"); for (size_t j = 0; j < in.size(); ++j) sym_assert(c->GetCurve((int)j) == in[j], "segments are listed in the order in which they were added");
    if (in.size() > 1) { bool meet = near0(s[0].x - e.back().x) & near0(s[0].y - e.back().y) & near0(s[0].z - e.back().z); sym_assert(c->IsClosed() == meet, "a composite curve is closed exactly when its end meets its start"); sym_reach(meet ? "closed" : "open"); } }
  bool was = c->IsClosed(); sym_assert(!c->AddSegment(0), "a missing segment is refused"); IGES_ENTITY_102* d = fresh<IGES_ENTITY_102>(g, 102); sym_assert(!c->AddSegment(d) && d->refs.empty(), "a composite curve is refused"); if (!was) sym_assert(c->AddSegment(in[0]), "adding a segment again is no error"); sym_assert(c->GetNCurves() == (int)in.size(), "a segment is listed once");
  MCAD_TRANSFORM t; if (k == 1 && !file) { static const int R[9] = { 0, -1, 0, 2, 0, 0, 0, 1, 1 }; if (n < 3 && sym_choice("placed", 2)) { for (int i = 0; i < 9; ++i) t.R.v[i / 3][i % 3] = R[i]; t.T = MCAD_POINT(el("Tx"), 4, el("Tz")); IGES_ENTITY_124* x = fresh<IGES_ENTITY_124>(g, 124); x->T = t; sym_assert(c->SetTransform(x), "a transformation can be set"); } } else if (!file) place(g, c, t, n == 1 || sym_choice("placed", 2)); sym_assert(c->GetStartPoint(p) && c->GetEndPoint(q), "a composite curve has end points"); is(p, app(t, s[0]), "the start point is that of the first segment"); is(q, app(t, e.back()), "the end point is that of the last segment");
  sym_assert(c->IsClosed() == was, "placing a curve does not open or close it");
  if (file) { sym_assert(g.DelEntity(d), "an entity can be deleted"); write_read(g, h); IGES_ENTITY_102* r = got<IGES_ENTITY_102>(h, 102); sym_assert(r->GetNCurves() == (int)in.size(), "the segments are read back"); sym_assert(r->IsClosed() == was, "closure is read back"); for (int i = 0; i < r->GetNCurves(); ++i) { MCAD_POINT u, v; sym_assert(r->GetCurve(i)->GetStartPoint(u) && r->GetCurve(i)->GetEndPoint(v), "a segment has end points"); sym_assert(nearr(u.x, s[i].x) & nearr(u.y, s[i].y) & nearr(v.x, e[i].x) & nearr(v.z, e[i].z), "the segments are read back in order"); } sym_reach("read"); } }
// removing segments by deleting them: what remains is connected
extern "C" void c24_delete() { IGES g; int n = sym_choice("n", 3) + 2; IGES_ENTITY_102* c = fresh<IGES_ENTITY_102>(g, 102); std::vector<IGES_CURVE*> in; for (int i = 0; i < n; ++i) { in.push_back(line(g, MCAD_POINT(i, i, 0), MCAD_POINT(i + 1, i + 1, 0))); sym_assert(c->AddSegment(in.back()), "a segment can be added"); }
  int d = sym_choice("which", 4); if (d >= n) return; sym_assert(g.DelEntity(in[d]), "a segment can be deleted"); in.erase(in.begin() + d); if (d > 0 && d < n - 1) { for (size_t i = 0; i < in.size(); ++i) sym_assert(in[i]->refs.empty(), "segments of a broken curve are released"); in.clear(); }
  sym_assert(c->GetNCurves() == (int)in.size(), "the remaining segments are connected"); for (size_t i = 0; i < in.size(); ++i) sym_assert(c->GetCurve((int)i) == in[i], "the remaining segments keep their order"); sym_reach("deleted"); }
