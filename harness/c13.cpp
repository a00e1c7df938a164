// C13: comparison of points and calculation of normals
#include "h.h"
static const double DEN = 1024;
static double co(const char* n, long hi) { return __sym_intreal(n, -hi, hi) / DEN; }
extern "C" void c13_match() {
  static const double R[] = {0.01, 0.001, 0.125, 1.0, 0.05}, B[] = {0, 1000, -30000, 7}; double r = R[sym_choice("res", 5)], bx = B[sym_choice("bx", 4)], by = B[sym_choice("by", 4)], bz = B[sym_choice("bz", 4)]; long hi = 1L << 11;
  MCAD_POINT p(bx + co("px", hi), by + co("py", hi), bz + co("pz", hi)), q(bx + co("qx", hi), by + co("qy", hi), bz + co("qz", hi)), p0 = p, q0 = q; double dx = p.x - q.x, dy = p.y - q.y, dz = p.z - q.z; bool m = PointMatches(p, q, r);
  sym_assert(m == PointMatches(q, p, r), "the comparison is symmetric"); bool in = (dx <= r) & (dx >= -r) & (dy <= r) & (dy >= -r) & (dz <= r) & (dz >= -r), out = (dx > 2 * r) | (dx < -2 * r) | (dy > 2 * r) | (dy < -2 * r) | (dz > 2 * r) | (dz < -2 * r);
  sym_assert(!in | m, "points within the resolution in every coordinate match"); sym_assert(!out | !m, "points apart by more than twice the resolution in a coordinate do not match"); sym_assert((p.x == p0.x) & (q.y == q0.y) & (p.z == p0.z), "the points are left alone"); sym_reach(m ? "match" : "differ"); }
extern "C" void c13_identical() { static const double R[] = {1e-8, 1e-12, 0.001, 100}; static const double S[] = {1, 1e-9, 3e7, 1e9, 1e12, 0}; double s = S[sym_choice("scale", 6)], r = R[sym_choice("res", 4)]; MCAD_POINT p(s * 0.7, -s * 0.3, s), q = p; sym_assert(PointMatches(p, q, r), "a point matches itself"); if (s > 1e6) { q.y += s * 0.01 + 3 * r; sym_assert(!PointMatches(p, q, r) && !PointMatches(q, p, r), "far points do not match"); q = p; q.z -= s * 0.01 + 3 * r; sym_assert(!PointMatches(p, q, r), "far points do not match"); } sym_reach("identical"); }
// the normal of three points in a plane spanned by two directions: perpendicular, of unit length, right handed
extern "C" void c13_normal() {
  static const int D[][9] = {{1,0,0, 0,1,0, 0,0,1}, {0,1,0, 0,0,1, 1,0,0}, {0,0,1, 1,0,0, 0,1,0}, {3,4,0, -4,3,0, 0,0,5}, {0,3,4, 0,-4,3, 5,0,0}, {2,1,-2, 1,2,2, 2,-2,1}, {0,1,0, 1,0,0, 0,0,-1}}; static const int L[] = {1,1,1,5,5,3,1};
  const int* d = D[sym_choice("plane", 7)]; int k = 0; for (; D[k] != d; ++k) {} long hi = 1L << sym_param("bits", 6); static const double A[] = {1, 3, 0.25, 40}; double a = A[sym_choice("a", 4)], b = __sym_intreal("b", 1, hi), c = __sym_intreal("c", -hi, hi); if (sym_choice("ex", 2)) c = 0; MCAD_POINT o(co("ox", 1L << 10), co("oy", 1L << 10), co("oz", 1L << 10)), n; if (!sym_choice("off", 2)) o = MCAD_POINT(1, 2, 3);
  MCAD_POINT u(d[0], d[1], d[2]), v(d[3], d[4], d[5]), p1 = o + u * a, p2 = o + (u * c + v * b); sym_assert(CalcNormal(&o, &p1, &p2, &n), "a normal can be calculated"); double e = 2e-8;
  sym_assert(nearr(n.x, (double)d[6] / L[k], e) & nearr(n.y, (double)d[7] / L[k], e) & nearr(n.z, (double)d[8] / L[k], e), "the normal is the unit vector perpendicular to the plane, right handed"); sym_reach("normal"); }
extern "C" void c13_unit() {
  static const int D[][4] = {{1,0,0,1}, {0,-1,0,1}, {3,0,-4,5}, {2,-1,2,3}, {6,2,-3,7}}; int k = sym_choice("dir", 5); double s = __sym_intreal("s", 1, 1L << sym_param("bits", 12)); static const double Q[] = {1, 1.0 / 1024, 1.0 / 65536}; s = s * Q[sym_choice("scale", 3)]; double x = D[k][0] * s, y = D[k][1] * s, z = D[k][2] * s; sym_assert(CheckNormal(x, y, z), "a vector can be normalised"); double l = D[k][3];
  sym_assert(nearr(x, D[k][0] / l, 2e-8) & nearr(y, D[k][1] / l, 2e-8) & nearr(z, D[k][2] / l, 2e-8), "the normalised vector has the same direction and unit length"); sym_reach("unit"); }
extern "C" void c13_degenerate() { double x = 0, y = 0, z = 0; MCAD_POINT p(co("x", 1L << 20), co("y", 1L << 20), co("z", 1L << 20)), n; sym_assert(CheckNormal(x, y, z) && x == 0 && y == 0 && z == 1, "a zero vector reverts to the Z direction"); MCAD_POINT q = p; sym_assert(CalcNormal(&p, &q, &q, &n) && n.x == 0 && n.y == 0 && n.z == 1, "coinciding points give the Z direction"); sym_assert(!CalcNormal(0, &p, &q, &n) && !CalcNormal(&p, 0, &q, &n) && !CalcNormal(&p, &q, 0, &n) && !CalcNormal(&p, &q, &q, 0), "a missing point is refused"); sym_reach("degenerate"); }
