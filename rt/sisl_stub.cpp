// The SISL spline library is external (binary only).  Construction and destruction of curve objects are modelled;
// straight lines, two by two
// surfaces, arcs (by their end points) and the position at an end are modelled; reaching anything else ends the path as undecided.
#include "sym.h"
#include <sisl.h>
#include <cstdlib>
#include <cstring>
#include <cmath>
extern "C" {
SISLCurve* newCurve(int vertnum, int order, double* knot, double* ecoef, int kind, int dim, int copy) {
  if (vertnum < order || order < 1 || dim < 1) return 0;
  SISLCurve* c = (SISLCurve*)malloc(sizeof(SISLCurve)); memset(c, 0, sizeof *c);
  c->ik = order; c->in = vertnum; c->ikind = kind; c->idim = dim; c->icopy = copy;
  int kd = (kind == 2 || kind == 4) ? dim + 1 : dim;
  if (copy == 1) { c->et = (double*)malloc((vertnum + order) * sizeof(double)); memcpy(c->et, knot, (vertnum + order) * sizeof(double)); c->ecoef = (double*)malloc(vertnum * kd * sizeof(double)); memcpy(c->ecoef, ecoef, vertnum * kd * sizeof(double)); }
  else { c->et = knot; c->ecoef = ecoef; }
  return c; }
void freeCurve(SISLCurve* c) { if (!c) return; if (c->icopy) { free(c->et); free(c->ecoef); } free(c); }
void freeSurf(SISLSurf* c) { if (!c) return; if (c->icopy) { free(c->et1); free(c->et2); free(c->ecoef); } free(c); }
// straight line between two points as an order-2 curve parameterised by arc length
void s1602(double a[], double b[], int order, int dim, double sp, double* ep, SISLCurve** rc, int* st) {
  if (order != 2) { __sym_fail_engine("s1602 order"); }
  double q = 0; for (int i = 0; i < dim; i++) q += (b[i] - a[i]) * (b[i] - a[i]);
  double k[4], e[6]; *ep = sp + sqrt(q); k[0] = k[1] = sp; k[2] = k[3] = *ep;
  for (int i = 0; i < dim; i++) { e[i] = a[i]; e[dim + i] = b[i]; }
  *rc = newCurve(2, 2, k, e, 1, dim, 1); *st = 0; }
// position at an end of a clamped curve; anything else is not modelled
void s1225(SISLCurve* c, int der, double par, int* left, double* eder, double* curvature, double* radius, int* st) {
  int n = c->in, k = c->ik, d = c->idim, kd = (c->ikind == 2 || c->ikind == 4) ? d + 1 : d, at = -1;
  if (der == 0 && par == c->et[0] && c->et[0] == c->et[k - 1]) at = 0; else if (der == 0 && par == c->et[n + k - 1] && c->et[n] == c->et[n + k - 1]) at = n - 1;
  if (at < 0) __sym_fail_engine("SISL s1225 inside a curve");
  for (int i = 0; i < d; i++) eder[i] = kd > d ? c->ecoef[at * kd + i] / c->ecoef[at * kd + d] : c->ecoef[at * kd + i]; *left = at; *st = 0; }
// an arc about an axis along z: modelled by one cubic; its end points are those of the arc (the library itself uses more pieces)
void s1303(double* p, double, double angle, double* c, double* axis, int dim, SISLCurve** rc, int* st) {
  if (dim != 3 || axis[0] != 0 || axis[1] != 0 || (axis[2] != 1 && axis[2] != -1)) __sym_fail_engine("SISL s1303 axis");
  double g = axis[2] < 0 ? -angle : angle, cs = cos(g), sn = sin(g), x = p[0] - c[0], y = p[1] - c[1], k[8] = { 0, 0, 0, 0, 1, 1, 1, 1 }, e[12]; if (g == 3.14159265358979323846 || g == -3.14159265358979323846) { cs = -1; sn = 0; }
  e[0] = e[3] = p[0]; e[1] = e[4] = p[1]; e[2] = e[5] = e[8] = e[11] = p[2]; e[6] = e[9] = c[0] + x * cs - y * sn; e[7] = e[10] = c[1] + x * sn + y * cs;
  *rc = newCurve(4, 4, k, e, 1, 3, 1); *st = 0; }
// the bilinear surface through two by two points with uniform parameters
void s1536(double* pts, int m1, int m2, int dim, int par, int c1, int c2, int c3, int c4, int o1, int o2, int open1, int open2, SISLSurf** rs, int* st) {
  if (m1 != 2 || m2 != 2 || dim != 3 || par != 2 || c1 || c2 || c3 || c4 || o1 != 2 || o2 != 2 || open1 != 1 || open2 != 1) __sym_fail_engine("SISL s1536");
  SISLSurf* s = (SISLSurf*)malloc(sizeof(SISLSurf)); memset(s, 0, sizeof *s); s->ik1 = s->ik2 = s->in1 = s->in2 = 2; s->ikind = 1; s->idim = 3; s->icopy = 1; s->et1 = (double*)malloc(4 * sizeof(double)); s->et2 = (double*)malloc(4 * sizeof(double)); s->ecoef = (double*)malloc(12 * sizeof(double));
  for (int i = 0; i < 4; i++) s->et1[i] = s->et2[i] = i / 2; memcpy(s->ecoef, pts, 12 * sizeof(double)); *rs = s; *st = 0; }
}
