// C28: a closed outline becomes a closed surface
#include "h.h"
#include <core/entity100.h>
#include <core/entity102.h>
#include <core/entity110.h>
#include <core/entity120.h>
#include <core/entity124.h>
#include <core/entity126.h>
#include <core/entity128.h>
#include <core/entity142.h>
#include <core/entity144.h>
#define private public
#define protected public
#include <geom/mcad_segment.h>
#include <geom/geom_wall.h>
#include <geom/geom_cylinder.h>
#include <geom/iges_geom_pcb.h>
#undef private
#undef protected
typedef MCAD_POINT P3;
typedef std::vector<IGES_ENTITY_144*> Faces;
static const double TOL = 1e-6;
static bool at(const P3& a, const P3& b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return (x <= TOL) & (-x <= TOL) & (y <= TOL) & (-y <= TOL) & (z <= TOL) & (-z <= TOL); }
static double el(const std::string& n, long r = 1L << 12) { return __sym_intreal(n.c_str(), -r, r); }
// an edge in space: its ends, and for an arc the direction of its middle from the chord (zero for a line)
struct Edge { P3 a, b, w; };
static Edge edge_of(IGES_CURVE* c) {
  Edge e; sym_assert(c->GetStartPoint(e.a, true) && c->GetEndPoint(e.b, true), "an edge has end points"); e.w = P3(0, 0, 0);
  if (c->GetEntityType() == 110) return e;
  sym_assert(c->GetEntityType() == 100, "an edge in space is a line or an arc"); IGES_ENTITY_100* r = (IGES_ENTITY_100*)c;
  double sx = r->xStart - r->xCenter, sy = r->yStart - r->yCenter, ex = r->xEnd - r->xCenter, ey = r->yEnd - r->yCenter, cr = sx * ey - sy * ex, dr = sx * sx + sy * sy - ex * ex - ey * ey;
  sym_assert((dr <= TOL) & (-dr <= TOL), "the ends of an arc are at the same distance from its centre"); sym_assert(cr >= -TOL, "an arc is at most half a turn");
  P3 p(-sy + ey, sx - ex, 0), q(0, 0, 0); IGES_ENTITY_124* t = 0; if (r->GetTransform((IGES_ENTITY**)&t) && t) { p = t->T.R * p; q = t->T.R * q; double d = t->T.R.v[0][0] * t->T.R.v[1][1] * t->T.R.v[2][2]; sym_assert(t->GetEntityForm() == (d > 0 ? 0 : 1), "the form of a placement agrees with its handedness"); }
  e.w = P3(p.x - q.x, p.y - q.y, p.z - q.z); return e; }
// the corners of a flat face
static double* flat(IGES_ENTITY* s) {
  int n1, n2, o1, o2; double *k1, *k2, *c, u0, u1, v0, v1; bool r, a, b, p, q; sym_assert(((IGES_ENTITY_128*)s)->GetNURBSData(n1, n2, o1, o2, &k1, &k2, &c, r, a, b, p, q, u0, u1, v0, v1), "a flat face has data");
  sym_assert(n1 == 2 && n2 == 2 && o1 == 2 && o2 == 2 && !r, "a flat face is bilinear"); sym_assert(k1[1] == 0 && k1[2] == 1 && k2[1] == 0 && k2[2] == 1 && u0 == 0 && u1 == 1 && v0 == 0 && v1 == 1, "a flat face has unit parameters"); return c; }
// a point of a surface
static P3 point(IGES_ENTITY* s, double u, double v) {
  if (s->GetEntityType() == 128) { double* c = flat(s);
    double r[3]; for (int i = 0; i < 3; ++i) { double p = c[i] + (c[3 + i] - c[i]) * u, q = c[6 + i] + (c[9 + i] - c[6 + i]) * u; r[i] = p + (q - p) * v; } return P3(r[0], r[1], r[2]); }
  sym_assert(s->GetEntityType() == 120, "a face is flat or a surface of revolution"); IGES_ENTITY_120* b = (IGES_ENTITY_120*)s; IGES_CURVE *ax = 0, *ge = 0; sym_assert(b->GetAxis(&ax) && b->GetGeneratrix(&ge), "a surface of revolution has an axis and a generatrix"); sym_assert(ax->GetEntityType() == 110 && ge->GetEntityType() == 110, "an upright cylinder is made from lines");
  IGES_ENTITY_110 *a = (IGES_ENTITY_110*)ax, *g = (IGES_ENTITY_110*)ge; sym_assert((a->X1 == a->X2) & (a->Y1 == a->Y2) & (g->X1 == g->X2) & (g->Y1 == g->Y2), "a wall is upright"); double d = a->Z2 > a->Z1 ? 1 : -1, x = g->X1 - a->X1, y = g->Y1 - a->Y1, cs = cos(v), sn = d * sin(v);
  return P3(a->X1 + (x * cs - y * sn), a->Y1 + (x * sn + y * cs), g->Z1 + (g->Z2 - g->Z1) * u); }
static void same_side(double d, double w) { if (w > 0.5) sym_assert(d > 0, "the arc in parameters is the arc in space"); if (w < -0.5) sym_assert(d < 0, "the arc in parameters is the arc in space"); }
static void loop(IGES_ENTITY_142* l, IGES_ENTITY* surf, std::vector<Edge>& out, size_t ne) {
  IGES_ENTITY *s = 0, *b = 0, *c = 0; sym_assert(l->GetSPTR(&s) && s == surf, "the boundary of a face is on the surface of the face"); sym_assert(l->GetBPTR(&b) && l->GetCPTR(&c) && b->GetEntityType() == 102 && c->GetEntityType() == 102, "a boundary is given in parameters and in space");
  IGES_ENTITY_102 *pb = (IGES_ENTITY_102*)b, *pc = (IGES_ENTITY_102*)c; int n = pc->GetNCurves(); sym_assert(n > 0 && pb->GetNCurves() == n, "both representations of a boundary have the same number of curves"); if (ne) sym_assert(n == (int)ne, "a boundary has the expected number of edges");
  P3 last, first, lp, fp; for (int i = 0; i < n; ++i) {
    Edge e = edge_of(pc->GetCurve(i)); P3 p, q; IGES_CURVE* k = pb->GetCurve(i); sym_assert(k->GetEntityType() == 126, "a boundary in parameters is made from splines"); sym_assert(k->GetStartPoint(p, true) && k->GetEndPoint(q, true), "an edge has end points");
    sym_assert(at(point(surf, p.x, p.y), e.a), "the start of an edge in parameters is its start in space"); sym_assert(at(point(surf, q.x, q.y), e.b), "the end of an edge in parameters is its end in space");
    if (surf->GetEntityType() == 120 && pc->GetCurve(i)->GetEntityType() == 100) { P3 m = point(surf, (p.x + q.x) / 2, (p.y + q.y) / 2), mm((e.a.x + e.b.x) / 2, (e.a.y + e.b.y) / 2, 0); same_side(m.x - mm.x, e.w.x); same_side(m.y - mm.y, e.w.y); }
    if (i) { sym_assert(at(last, e.a), "the edges of a boundary follow one another"); sym_assert(at(P3(lp.x, lp.y, 0), P3(p.x, p.y, 0)), "the edges of a boundary follow one another in parameters"); } else { first = e.a; fp = p; } last = e.b; lp = q; out.push_back(e); }
  sym_assert(at(last, first), "a boundary is closed"); sym_assert(at(P3(lp.x, lp.y, 0), P3(fp.x, fp.y, 0)), "a boundary is closed in parameters"); }
static void face(IGES_ENTITY_144* f, std::vector<Edge>& out, int inner, size_t ne = 0) {
  IGES_ENTITY* s = 0; sym_assert(f->GetPTS(s) && s, "a face has a surface"); IGES_ENTITY_142* o = 0; sym_assert(f->GetPTO(o) && o, "a face has an outer boundary"); loop(o, s, out, ne);
  IGES_ENTITY_142** in = 0; size_t n = 0; bool some = f->GetPTIList(n, in); sym_assert((some ? (int)n : 0) == inner, "a face has one inner boundary for each opening"); for (int i = 0; i < inner; ++i) loop(in[i], s, out, 0); }
static void closed(const std::vector<Edge>& v) {
  for (size_t i = 0; i < v.size(); ++i) { int n = 0; for (size_t j = 0; j < v.size(); ++j) if (j != i) { bool fw = at(v[i].a, v[j].a) & at(v[i].b, v[j].b), bw = at(v[i].a, v[j].b) & at(v[i].b, v[j].a); if ((fw | bw) && at(v[i].w, v[j].w)) ++n; } sym_assert(n == 1, "every edge of a face is an edge of exactly one other face"); } }
static P3 cross(const P3& a, const P3& b) { return P3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
// the direction of the normal (u direction x v direction) at the parameters 0, 0 .. of a flat face
static P3 flat_normal(IGES_ENTITY_144* f) { IGES_ENTITY* s = 0; sym_assert(f->GetPTS(s) && s->GetEntityType() == 128, "a flat face"); double* c = flat(s); return cross(P3(c[3] - c[0], c[4] - c[1], c[5] - c[2]), P3(c[6] - c[0], c[7] - c[1], c[8] - c[2])); }
// one wall through four corners
extern "C" void c28_wall() {
  IGES g; P3 p[4]; double x0 = el("x0"), y0 = el("y0"), x1 = el("x1"), y1 = el("y1"), zt = el("zt"), zb = el("zb"); sym_assume((x0 - x1) * (x0 - x1) + (y0 - y1) * (y0 - y1) >= 1); sym_assume(zt > zb); p[0] = P3(x0, y0, zb); p[1] = P3(x1, y1, zb); p[2] = P3(x1, y1, zt); p[3] = P3(x0, y0, zt);
  IGES_GEOM_WALL w; sym_assert(!w.Instantiate(&g) && g.entities.empty(), "a wall without corners makes nothing"); sym_assert(w.SetParams(p[0], p[1], p[2], p[3]), "four corners make a wall"); sym_assert(!w.Instantiate(0), "a wall needs a model"); IGES_ENTITY_144* f = w.Instantiate(&g); sym_assert(f, "a wall can be made"); std::vector<Edge> e; face(f, e, 0, 4); for (int i = 0; i < 4; ++i) sym_assert(at(e[i].a, p[i]) & at(e[i].b, p[(i + 1) & 3]), "the corners of a wall are those given");
  P3 n = flat_normal(f), d(x1 - x0, y1 - y0, 0); P3 o = cross(d, P3(0, 0, zt - zb)); sym_assert((n.x == o.x) & (n.y == o.y) & (n.z == o.z), "the normal of a wall is given by the order of its corners"); sym_reach("wall"); }
static const int DIR[8][2] = { { 5, 0 }, { 4, 3 }, { 0, 5 }, { -3, 4 }, { -5, 0 }, { -4, -3 }, { 0, -5 }, { 3, -4 } };
// the wall along one segment of an outline or an opening
static void normals(Faces& f, bool outline, bool cw, const P3& c) { // the normal of a part of a cylinder points away from its axis, or to it
  bool away = (outline != cw); for (size_t i = 0; i < f.size(); ++i) { IGES_ENTITY* s = 0; f[i]->GetPTS(s); sym_assert(s->GetEntityType() == 120, "a curved wall is a surface of revolution"); IGES_CURVE *ax = 0, *ge = 0; ((IGES_ENTITY_120*)s)->GetAxis(&ax); ((IGES_ENTITY_120*)s)->GetGeneratrix(&ge); IGES_ENTITY_110 *a = (IGES_ENTITY_110*)ax, *g = (IGES_ENTITY_110*)ge; sym_assert((a->X1 == c.x) & (a->Y1 == c.y), "the axis is at the centre");
    // derivative along the generatrix x (axis x radius): its component along the radius has the sign of -(dz generatrix)(dz axis)
    double dz = (g->Z2 - g->Z1), az = (a->Z2 - a->Z1); bool out = (dz < 0) == (az > 0); sym_assert(out == away, "the normal of a curved wall points out of the board"); } }
extern "C" void c28_curved() {
  IGES g; int i = sym_choice("from", 8), j = sym_choice("to", 8), cw = sym_choice("cw", 2), rev = sym_choice("opening", 2); if (sym_param("few", 0) && ((i & 1) == (j & 1) && i != j)) sym_assume(false); double k = __sym_intreal("k", 1, 100), cx = el("cx"), cy = el("cy"), zt = el("zt"), zb = el("zb"); sym_assume(zt > zb); P3 c(cx, cy, 0), s(cx + DIR[i][0] * k, cy + DIR[i][1] * k, 0), e(cx + DIR[j][0] * k, cy + DIR[j][1] * k, 0); bool circle = i == j; if (circle && (cw || i > 1)) return;
  MCAD_SEGMENT m; sym_assert(m.SetParams(c, s, e, cw), "an arc is accepted"); IGES_GEOM_PCB o; Faces f; sym_assert(o.GetSegmentWall(&g, f, zt, zb, &m, rev), "the wall along an arc can be made"); sym_assert(!f.empty() && f.size() < 4, "an arc is at most three parts"); normals(f, !rev, cw, c);
  std::vector<Edge> v; for (size_t q = 0; q < f.size(); ++q) { size_t was = v.size(); face(f[q], v, 0, 4); sym_assert(v.size() == was + 4, "a wall has four edges"); sym_assert((v[was].a.z == zt) & (v[was].b.z == zt) & (v[was + 2].a.z == zb) & (v[was + 2].b.z == zb), "a wall reaches from the top to the bottom"); sym_assert(at(P3(v[was].w.x, v[was].w.y, 0), P3(v[was + 2].w.x, v[was + 2].w.y, 0)), "the upper and the lower edge bend the same way"); }
  // the parts follow one another counterclockwise from one end of the arc to the other
  if (!circle) { P3 a = cw ? e : s, b = cw ? s : e; a.z = b.z = zt; sym_assert(at(v[0].a, a), "the wall starts where the arc starts"); sym_assert(at(v[v.size() - 4].b, b), "the wall ends where the arc ends"); } else sym_assert(at(v[v.size() - 4].b, v[0].a), "the wall of a circle is closed"); for (size_t q = 4; q < v.size(); q += 4) sym_assert(at(v[q].a, v[q - 4].b), "the parts of a wall follow one another");
  sym_reach(circle ? "circle" : f.size() == 1 ? "one" : f.size() == 2 ? "two" : "three"); }
static MCAD_SEGMENT* seg(const P3& a, const P3& b) { MCAD_SEGMENT* s = new MCAD_SEGMENT; sym_assert(s->SetParams(a, b), "a line is accepted"); return s; }
static MCAD_SEGMENT* arc(const P3& c, const P3& a, const P3& b, bool cw) { MCAD_SEGMENT* s = new MCAD_SEGMENT; sym_assert(s->SetParams(c, a, b, cw), "an arc is accepted"); return s; }
static void add(MCAD_OUTLINE& o, MCAD_SEGMENT* s) { bool err = true; bool ok = o.AddSegment(s, err); sym_assert(ok && !err, "a continuing segment is accepted"); }
static void build(IGES& g, IGES_GEOM_PCB& o, double zt, double zb, int openings, std::vector<Edge>& v, int& nf) {
  Faces f; bool err = true; sym_assert(o.IsClosed(), "the outline is closed"); sym_assert(o.GetVerticalSurface(&g, err, f, zt, zb) && !err, "the sides of a board can be made"); size_t n = f.size(); sym_assert(o.GetTrimmedPlane(&g, err, f, zt, false) && !err, "the top of a board can be made"); sym_assert(o.GetTrimmedPlane(&g, err, f, zb, true) && !err, "the bottom of a board can be made"); sym_assert(f.size() == n + 2, "a board has a top and a bottom"); 
  for (size_t i = 0; i < f.size(); ++i) face(f[i], v, i < n ? 0 : openings); closed(v); P3 a = flat_normal(f[n]), b = flat_normal(f[n + 1]); sym_assert((a.x == 0) & (a.y == 0) & (a.z > 0), "the normal of the top points up"); sym_assert((b.x == 0) & (b.y == 0) & (b.z < 0), "the normal of the bottom points down"); nf = (int)f.size(); }
static double off(const char* n, double base) { return base + __sym_intreal(n, -48, 48) / 16; }
// a polygon with openings
extern "C" void c28_polygon() {
  IGES g; int hole = sym_choice("hole", 3), cut = sym_choice("cut", 2), rev = sym_choice("order", 2); IGES_GEOM_PCB o; P3 p[5] = { P3(0, off("a", 100), 0), P3(off("b", 90), 0, 0), P3(256, off("c", 120), 0), P3(off("d", 200), 250, 0), P3(off("e", 60), off("f", 246), 0) }; 
  for (int i = 0; i < 5; ++i) add(o, rev ? seg(p[(5 - i) % 5], p[4 - i]) : seg(p[i], p[(i + 1) % 5])); bool err = true;
  for (int i = 0; i < hole; ++i) { double r = 2 + 1.5 * i + __sym_intreal(i ? "r1" : "r0", 1, 16) / 16, x = off(i ? "x1" : "x0", 100 + 40 * i), y = off(i ? "y1" : "y0", 80 + 30 * i); sym_assert(o.AddCutout(arc(P3(x, y, 0), P3(x + r, y, 0), P3(x + r, y, 0), false), false, err) && !err, "a hole is accepted"); }
  if (cut) { MCAD_OUTLINE* c = new MCAD_OUTLINE; P3 q[3] = { P3(off("s", 150), off("t", 150), 0), P3(off("u", 170), off("v", 150), 0), P3(off("w", 160), off("q", 170), 0) }; for (int i = 0; i < 3; ++i) add(*c, seg(q[i], q[(i + 1) % 3])); sym_assert(o.AddCutout(c, false, err) && !err, "an opening is accepted"); }
  double zt = off("zt", 20), zb = off("zb", 5); std::vector<Edge> v; int nf; build(g, o, zt, zb, hole + cut, v, nf); sym_assert(nf == 5 + 2 * hole + 3 * cut + 2, "a board has one side for each part of its boundary"); sym_reach(hole ? "hole" : "plain"); if (cut) sym_reach("cut"); }
// an outline with an arc in its lower side, or an opening with one
extern "C" void c28_arcs() {
  IGES g; int i = sym_choice("from", 8), j = sym_choice("to", 8), cw = sym_choice("cw", 2), in = sym_choice("opening", 2); if (i == j || (sym_param("few", 0) && (i + j + cw + in) % 4)) return; double k = __sym_intreal("k", 1, 4), cx = __sym_intreal("cx", 100, 120), cy = __sym_intreal("cy", 40, 60); P3 c(cx, cy, 0), s(cx + DIR[i][0] * k, cy + DIR[i][1] * k, 0), e(cx + DIR[j][0] * k, cy + DIR[j][1] * k, 0);
  IGES_GEOM_PCB o; bool err; double w = in ? 64 : 0; MCAD_OUTLINE* q = in ? new MCAD_OUTLINE : &o; P3 p[4] = { P3(w, w / 4, 0), P3(256 - w, w / 4, 0), P3(256 - w, 256 - w, 0), P3(w, 256 - w, 0) }; add(*q, seg(p[0], s)); add(*q, arc(c, s, e, cw)); add(*q, seg(e, p[1])); for (int t = 1; t < 4; ++t) add(*q, seg(p[t], p[(t + 1) % 4]));
  if (in) { P3 b[4] = { P3(0, 0, 0), P3(256, 0, 0), P3(256, 256, 0), P3(0, 256, 0) }; for (int t = 0; t < 4; ++t) add(o, seg(b[t], b[(t + 1) % 4])); sym_assert(o.AddCutout(q, false, err) && !err, "an opening is accepted"); }
  double zt = off("zt", 20), zb = off("zb", 5); std::vector<Edge> v; int nf; build(g, o, zt, zb, in, v, nf); sym_reach(in ? "opening" : "outline"); if (cw) sym_reach("clockwise"); }
// a round board
extern "C" void c28_round() { IGES g; IGES_GEOM_PCB o; int hole = sym_choice("hole", 2); int where = sym_choice("centre", 3); double cx = where == 0 ? 0 : where == 1 ? -384 : 1000, cy = where == 0 ? 0 : where == 1 ? 512 : -31.25; add(o, arc(P3(cx, cy, 0), P3(cx + 128, cy, 0), P3(cx + 128, cy, 0), false)); bool err; if (hole) { double x = __sym_intreal("x", -20, 20), r = __sym_intreal("r", 1, 30); sym_assert(o.AddCutout(arc(P3(cx + x, cy, 0), P3(cx + x, cy + r, 0), P3(cx + x, cy + r, 0), false), false, err), "a hole is accepted"); } double zt = off("zt", 20), zb = off("zb", 5); std::vector<Edge> v; int nf; build(g, o, zt, zb, hole, v, nf); sym_assert(nf == 4 + 2 * hole, "a round board has two sides"); sym_reach(hole ? "hole" : "plain"); }
// what is made can be written and read
extern "C" void c28_written() {
  IGES g, h; IGES_GEOM_PCB o; P3 p[4] = { P3(0, 0, 0), P3(64, 0, 0), P3(64, 64, 0), P3(0, 64, 0) }; for (int i = 0; i < 4; ++i) { if (i == 1) { add(o, arc(P3(64, 32, 0), p[1], p[2], sym_choice("cw", 2))); continue; } add(o, seg(p[i], p[(i + 1) % 4])); }
  double zt = off("zt", 20), zb = off("zb", 5); std::vector<Edge> v, u; int nf; build(g, o, zt, zb, 0, v, nf); write_read(g, h); Faces f; for (size_t i = 0; i < h.entities.size(); ++i) if (h.entities[i]->GetEntityType() == 144) f.push_back((IGES_ENTITY_144*)h.entities[i]); sym_assert((int)f.size() == nf, "every face is read back"); for (size_t i = 0; i < f.size(); ++i) face(f[i], u, 0); closed(u); sym_assert(u.size() == v.size(), "every edge is read back"); sym_reach("read"); }
// nothing is made from an open outline
extern "C" void c28_open() { IGES g; IGES_GEOM_PCB o; Faces f; bool err = false; int n = sym_choice("n", 4); double x = el("x"), y = el("y"); P3 p[4] = { P3(0, 0, 0), P3(5000, 0, 0), P3(5000, 5000, 0), P3(x, y, 0) }; sym_assume((x < 0) | (y > 5000)); for (int i = 0; i < n; ++i) add(o, seg(p[i], p[i + 1])); sym_assert(!o.IsClosed(), "an open outline is open"); sym_assert(!o.GetVerticalSurface(&g, err, f, 1, 0) && err, "an open outline has no sides"); err = false; sym_assert(!o.GetTrimmedPlane(&g, err, f, 1, false) && err, "an open outline has no top"); sym_assert(f.empty() && g.entities.empty(), "nothing is made from an open outline"); sym_reach("open"); }
