// C12: transformations are affine maps and compose
#include "models.h"
static double el(const std::string& n, int b) { return __sym_intreal(n.c_str(), -(1L << b), 1L << b); }
static MCAD_MATRIX mat(const std::string& n, int b = 8) { MCAD_MATRIX m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.v[i][j] = el(n + istr(i) + istr(j), b); return m; }
static MCAD_POINT vec(const std::string& n, int b = 16) { return MCAD_POINT(el(n + "x", b), el(n + "y", b), el(n + "z", b)); }
static MCAD_TRANSFORM tr(const std::string& n, int b = 8, int c = 16) { MCAD_TRANSFORM t; t.R = mat(n + "R", b); t.T = vec(n + "T", c); return t; }
// the reference: plain arithmetic on arrays
struct A3 { double v[3]; };
static A3 ref(const MCAD_TRANSFORM& t, const A3& p) { A3 r; for (int i = 0; i < 3; ++i) { const double q[3] = {t.T.x, t.T.y, t.T.z}; r.v[i] = q[i]; for (int j = 0; j < 3; ++j) r.v[i] = r.v[i] + t.R.v[i][j] * p.v[j]; } return r; }
static A3 a3(const MCAD_POINT& p) { A3 r = {{p.x, p.y, p.z}}; return r; }
static void near3(const MCAD_POINT& p, const A3& r, const char* m) { sym_assert(nearr(p.x, r.v[0], 1e-7) & nearr(p.y, r.v[1], 1e-7) & nearr(p.z, r.v[2], 1e-7), m); }
static void same(const MCAD_POINT& p, const A3& r, const char* m) { sym_assert((p.x == r.v[0]) & (p.y == r.v[1]) & (p.z == r.v[2]), m); }
static void samem(const MCAD_MATRIX& a, const double* b, const char* m) { bool ok = true; for (int i = 0; i < 9; ++i) ok = ok & (a.v[i / 3][i % 3] == b[i]); sym_assert(ok, m); }
extern "C" void c12_apply() {
  MCAD_TRANSFORM t = tr("t", 12, 20), k = t; MCAD_POINT p = vec("p", 20), q = p; same(t * p, ref(t, a3(p)), "a transform applied to a point is rotation times point plus translation");
  same(t.R * p, ref(MCAD_TRANSFORM(t.R, MCAD_POINT(0, 0, 0)), a3(p)), "a matrix applied to a point"); same(p, a3(q), "applying a transform leaves the point"); same(t.T, a3(k.T), "applying a transform leaves the transform");
  MCAD_TRANSFORM id; same(id * p, a3(p), "a new transform is the identity"); MCAD_TRANSFORM u(t.R, t.T), v(u), w; w = v; same(w * p, ref(t, a3(p)), "a copied transform is the same transform"); sym_reach("apply"); }
extern "C" void c12_compose() {
  MCAD_TRANSFORM t = tr("t"), s = tr("s"), m = t * s, n = t; n *= s; MCAD_POINT p = vec("p"); A3 w = ref(t, ref(s, a3(p))); same(m * p, w, "composing then applying is applying one after the other"); same(n * p, w, "composing in place is composing"); same(t * (s * p), w, "applying one after the other");
  MCAD_TRANSFORM q = t; q *= q; same(q * p, ref(t, ref(t, a3(p))), "a transform composed with itself"); sym_reach("compose"); }
extern "C" void c12_matrix() {
  MCAD_MATRIX a = mat("a", 12), b = mat("b", 12); double s = el("s", 12), p[9], q[9], u[9], k[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int c = i * 3 + j; p[c] = a.v[i][0] * b.v[0][j] + a.v[i][1] * b.v[1][j] + a.v[i][2] * b.v[2][j]; q[c] = a.v[i][j] + b.v[i][j]; u[c] = a.v[i][j] - b.v[i][j]; k[c] = a.v[i][j] * s; }
  samem(a * b, p, "matrix product"); samem(a + b, q, "matrix sum"); samem(a - b, u, "matrix difference"); samem(a * s, k, "matrix times number"); samem(s * a, k, "number times matrix");
  MCAD_MATRIX m = a; m *= b; samem(m, p, "matrix product in place"); m = a; m += b; samem(m, q, "matrix sum in place"); m = a; m -= b; samem(m, u, "matrix difference in place"); m = a; m *= s; samem(m, k, "matrix times number in place");
  double z[9], y[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int c = i * 3 + j; y[c] = a.v[i][0] * a.v[0][j] + a.v[i][1] * a.v[1][j] + a.v[i][2] * a.v[2][j]; z[c] = 2 * a.v[i][j]; } m = a; m *= m; samem(m, y, "matrix product with itself in place"); m = a; m += m; samem(m, z, "matrix sum with itself in place"); m -= m; for (int i = 0; i < 9; ++i) z[i] = 0; samem(m, z, "matrix difference with itself in place");
  MCAD_TRANSFORM t(a, MCAD_POINT(b.v[0][0], b.v[1][1], b.v[2][2])), v = s * t; samem(v.R, k, "number times transform"); same(v.T, a3(MCAD_POINT(s * b.v[0][0], s * b.v[1][1], s * b.v[2][2])), "number times transform"); t *= s; samem(t.R, k, "transform times number"); same(t.T, a3(v.T), "transform times number"); sym_reach("matrix"); }
extern "C" void c12_point() {
  MCAD_POINT a = vec("a", 20), b = vec("b", 20), r; double s = el("s", 20); same(a + b, a3(MCAD_POINT(a.x + b.x, a.y + b.y, a.z + b.z)), "point sum"); same(a - b, a3(MCAD_POINT(a.x - b.x, a.y - b.y, a.z - b.z)), "point difference"); same(a * s, a3(MCAD_POINT(a.x * s, a.y * s, a.z * s)), "point times number"); same(s * a, a3(a * s), "number times point");
  r = a; r += b; same(r, a3(a + b), "point sum in place"); r = a; r -= b; same(r, a3(a - b), "point difference in place"); r = a; r *= s; same(r, a3(a * s), "point times number in place"); r = a; r += r; same(r, a3(MCAD_POINT(2 * a.x, 2 * a.y, 2 * a.z)), "point sum with itself in place"); r -= r; same(r, a3(MCAD_POINT(0, 0, 0)), "point difference with itself in place"); sym_reach("point"); }
static MCAD_TRANSFORM fixed(const std::string& n) { static const int R[3][9] = {{0,-1,0,1,0,0,0,0,1},{0,0,1,1,0,0,0,1,0},{-1,0,0,0,0,1,0,1,0}}; MCAD_TRANSFORM t; int k = sym_choice((n + "rot").c_str(), 3); for (int i = 0; i < 9; ++i) t.R.v[i / 3][i % 3] = R[k][i]; t.T = MCAD_POINT(n == "t" ? sym_num("tx", 1L << 16, 4, 1) : 3.25, 7, n == "s" ? -12.5 : 0); return t; }
// an entity placed by a chain of transformation entities; optionally after the file is written and read
extern "C" void c12_chain() {
  int n = sym_choice("n", (int)sym_param("depth", 3) + 1), file = sym_choice("file", 2); IGES g; int kind = sym_choice("kind", 4); IGES_ENTITY* e; MCAD_POINT p, q, r, k; std::string tn[3] = {"t", "s", "u"};
  if (kind == 0) { IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(g, 110); if (file) { p = MCAD_POINT(sym_num("px", 1L << 16, 4, 1), 2, 3); q = MCAD_POINT(-1, 5.5, 4); if (n == 3) return; } else { p = vec("p", 12); q = vec("q", 12); } l->X1 = p.x; l->Y1 = p.y; l->Z1 = p.z; l->X2 = q.x; l->Y2 = q.y; l->Z2 = q.z; e = l; }
  else if (kind == 1) { if (file) return; IGES_ENTITY_100* c = fresh<IGES_ENTITY_100>(g, 100); p = vec("p", 12); q = vec("q", 12); q.z = p.z; c->zOffset = p.z; c->xStart = p.x; c->yStart = p.y; c->xEnd = q.x; c->yEnd = q.y; c->xCenter = el("cx", 12); c->yCenter = el("cy", 12); e = c; }
  else if (kind == 2) { if (file) return; IGES_ENTITY_104* c = fresh<IGES_ENTITY_104>(g, 104); p = vec("p", 12); q = vec("q", 12); q.z = p.z; c->ZT = p.z; c->X1 = p.x; c->Y1 = p.y; c->X2 = q.x; c->Y2 = q.y; e = c; }
  else { if (n == 3) return; IGES_ENTITY_102* c = fresh<IGES_ENTITY_102>(g, 102); if (file) return; IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(g, 110), *m = fresh<IGES_ENTITY_110>(g, 110); p = vec("p", 12); q = vec("q", 12); l->X1 = p.x; l->Y1 = p.y; l->Z1 = p.z; l->X2 = 1; l->Y2 = 2; l->Z2 = 30000; m->X1 = 1; m->Y1 = 2; m->Z1 = 30000; m->X2 = q.x; m->Y2 = q.y; m->Z2 = q.z; sym_assume(p.z != 4096);
    MCAD_TRANSFORM v = tr("v", 6, 12); IGES_ENTITY_124* x = fresh<IGES_ENTITY_124>(g, 124); x->T = v; l->SetTransform(x); m->SetTransform(x); bool ok = c->AddSegment(l); ok = c->AddSegment(m) && ok; sym_assert(ok, "segments can be added"); e = c; A3 a = ref(v, a3(p)), b = ref(v, a3(q)); p = MCAD_POINT(a.v[0], a.v[1], a.v[2]); q = MCAD_POINT(b.v[0], b.v[1], b.v[2]); }
  A3 a = a3(p), b = a3(q); IGES_ENTITY* at = e; for (int i = 0; i < n; ++i) { IGES_ENTITY_124* x = fresh<IGES_ENTITY_124>(g, 124); x->T = file ? fixed(tn[i]) : tr(tn[i], 6, 12); sym_assert(at->SetTransform(x), "a transformation can be set"); a = ref(x->T, a); b = ref(x->T, b); at = x; }
  MCAD_POINT p0, q0; IGES h; IGES_CURVE* c = dynamic_cast<IGES_CURVE*>(e); if (file) { write_read(g, h); c = got<IGES_ENTITY_110>(h, 110); }
  sym_assert(c->GetStartPoint(r, true) && c->GetEndPoint(k, true), "a curve has end points"); 
  same(r, a, "the start point is placed by the product of the chain"); same(k, b, "the end point is placed by the product of the chain");
  if (kind < 3) { sym_assert(c->GetStartPoint(p0, false) && c->GetEndPoint(q0, false), "a curve has end points"); same(p0, a3(p), "the start point without transformation"); same(q0, a3(q), "the end point without transformation"); }
  if (n) { IGES_ENTITY* x = 0; sym_assert(c->GetTransform(&x) && x, "the transformation of an entity can be retrieved"); if (kind < 3) same(((IGES_ENTITY_124*)x)->GetTransformMatrix() * p, a, "the overall transform of a chain is the product"); } sym_reach(file ? "chain-read" : "chain"); }
