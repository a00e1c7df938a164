// C25: spline data is copied, returned as given, and accepted only if consistent
#include "models.h"
static double el(const std::string& n, int b = 20) { return __sym_intreal(n.c_str(), -(1L << b), 1L << b); }
struct Cv { int n, k; std::vector<double> knot, c; bool rat; double v0, v1; };
static Cv sy(const std::string& p, int n, int k, bool rat) { Cv d; d.n = n; d.k = k; d.rat = rat; for (int i = 0; i < n + k; ++i) d.knot.push_back(el(p + "k" + istr(i))); for (int i = 0; i < n * (rat ? 4 : 3); ++i) d.c.push_back(el(p + "c" + istr(i))); d.v0 = el(p + "v0"); d.v1 = el(p + "v1"); return d; }
static bool range(const std::vector<double>& k, double a, double b) { return (a >= k.front()) & (a < k.back()) & (b > a) & (b <= k.back()); }
static bool set(IGES_ENTITY_126* s, const Cv& d) { std::vector<double> k(d.knot), c(d.c); bool r = s->SetNURBSData(d.n, d.k, &k[0], &c[0], d.rat, d.v0, d.v1); for (size_t i = 0; i < k.size(); ++i) k[i] = -77; for (size_t i = 0; i < c.size(); ++i) c[i] = -77; return r; }
static void holds(IGES_ENTITY_126* s, const Cv& d) {
  int n, k; double *kn, *c, v0, v1; bool rat, cl, per; sym_assert(s->GetNURBSData(n, k, &kn, &c, rat, cl, per, v0, v1), "spline data can be retrieved"); sym_assert(n == d.n && k == d.k && rat == d.rat, "order, size and kind are returned as given"); bool ok = (v0 == d.v0) & (v1 == d.v1); for (size_t i = 0; i < d.knot.size(); ++i) ok = ok & (kn[i] == d.knot[i]); sym_assert(ok, "knots and range are returned as given"); ok = true; for (size_t i = 0; i < d.c.size(); ++i) ok = ok & (c[i] == d.c[i]); sym_assert(ok, "coefficients are returned as given"); }
// setting the data of a curve with three or more points also looks for its plane, which divides: such points lie on one axis
static Cv cv(const std::string& p, int n, int k, bool rat) { Cv d = sy(p, n, k, rat); if (n > 2) for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) if (j != (n + k) % 3) d.c[i * (rat ? 4 : 3) + j] = 0; return d; }
extern "C" void c25_curve() {
  IGES g; IGES_ENTITY_126* s = fresh<IGES_ENTITY_126>(g, 126); int n0, k0; double *a, *b, x, y; bool p, q, r; sym_assert(!s->GetNURBSData(n0, k0, &a, &b, p, q, r, x, y), "a new spline curve has no data"); Cv old; bool has = false;
  for (int i = 0; i < (int)sym_param("sets", 2); ++i) { std::string t = "s" + istr(i); int n = sym_choice((t + "n").c_str(), 3) + 2, k = sym_choice((t + "k").c_str(), 3) + 2; if (k > n) return; Cv d = cv(t, n, k, sym_choice((t + "rat").c_str(), 2)); bool ok = set(s, d); sym_assert(ok == range(d.knot, d.v0, d.v1), "data is accepted exactly when the range lies within the knots"); if (ok) { old = d; has = true; sym_reach("accepted"); } else sym_reach("refused"); if (has) holds(s, old); else sym_assert(!s->GetNURBSData(n0, k0, &a, &b, p, q, r, x, y), "refused data is not kept"); } }
// sizes and orders, missing data
extern "C" void c25_sizes() {
  IGES g; int surf = sym_choice("surface", 2), had = sym_choice("had", 2); double kn[8] = { 0, 0, 1, 2, 3, 4, 5, 5 }, c[64]; for (int i = 0; i < 64; ++i) c[i] = i; int n = sym_choice("n", 6) - 1, k = sym_choice("k", 5), miss = sym_choice("missing", surf ? 4 : 3); bool want = k >= 2 && n >= k && miss == 0 && n + k <= 8; if (n + k > 8) return; double v1 = n + k > 0 ? kn[n + k - 1] : 1;
  if (!surf) { IGES_ENTITY_126* s = had ? mk126(g) : fresh<IGES_ENTITY_126>(g, 126); bool ok = s->SetNURBSData(n, k, miss == 1 ? 0 : kn, miss == 2 ? 0 : c, false, 0, v1); sym_assert(ok == want, "data is accepted exactly when order and size are consistent"); if (!ok && had) { Cv d; d.n = d.k = 3; d.rat = false; static const double K[6] = { 0, 0, 0, 1, 1, 1 }, C[9] = { 0, 0, 0, 1, 1, 0, 2, 0, 0 }; d.knot.assign(K, K + 6); d.c.assign(C, C + 9); d.v0 = 0; d.v1 = 1; holds(s, d); } sym_reach(ok ? "accepted" : "refused"); return; }
  int first = sym_choice("first", 2); IGES_ENTITY_128* s = had ? mk128(g) : fresh<IGES_ENTITY_128>(g, 128); double k2[4] = { 0, 0, 1, 1 }; bool ok = first ? s->SetNURBSData(n, 2, k, 2, miss == 1 ? 0 : kn, miss == 2 ? 0 : k2, miss == 3 ? 0 : c, false, false, false, 0, v1, 0, 1) : s->SetNURBSData(2, n, 2, k, miss == 1 ? 0 : k2, miss == 2 ? 0 : kn, miss == 3 ? 0 : c, false, false, false, 0, 1, 0, v1); sym_assert(ok == want, "data is accepted exactly when order and size are consistent");
  int a, b, d, e; double *p, *q, *z, u0, u1, w0, w1; bool r, c1, c2, p1, p2; bool h = s->GetNURBSData(a, b, d, e, &p, &q, &z, r, c1, c2, p1, p2, u0, u1, w0, w1); sym_assert(h == (ok || had), "refused data is not kept"); if (!ok && had) { sym_assert(a == 2 && b == 2 && d == 2 && e == 2 && p[3] == 1 && q[1] == 0 && z[3] == 1 && z[11] == 0 && u0 == 0 && u1 == 1, "refused data leaves the entity as it was"); } sym_reach(ok ? "accepted" : "refused"); }
struct Sf { int n1, n2, k1, k2; std::vector<double> a, b, c; bool rat, p1, p2; double u0, u1, v0, v1; };
static void sholds(IGES_ENTITY_128* s, const Sf& d) {
  int n1, n2, k1, k2; double *a, *b, *c, u0, u1, v0, v1; bool rat, c1, c2, p1, p2; sym_assert(s->GetNURBSData(n1, n2, k1, k2, &a, &b, &c, rat, c1, c2, p1, p2, u0, u1, v0, v1), "surface data can be retrieved"); sym_assert(n1 == d.n1 && n2 == d.n2 && k1 == d.k1 && k2 == d.k2 && rat == d.rat && p1 == d.p1 && p2 == d.p2, "orders, sizes and kind are returned as given");
  bool ok = (u0 == d.u0) & (u1 == d.u1) & (v0 == d.v0) & (v1 == d.v1); for (size_t i = 0; i < d.a.size(); ++i) ok = ok & (a[i] == d.a[i]); for (size_t i = 0; i < d.b.size(); ++i) ok = ok & (b[i] == d.b[i]); sym_assert(ok, "knots and ranges are returned as given"); ok = true; for (size_t i = 0; i < d.c.size(); ++i) ok = ok & (c[i] == d.c[i]); sym_assert(ok, "coefficients are returned as given"); }
extern "C" void c25_surface() {
  IGES g; IGES_ENTITY_128* s = fresh<IGES_ENTITY_128>(g, 128); int m0, m1, m2, m3; double *a, *b, *c, x; bool r; sym_assert(!s->GetNURBSData(m0, m1, m2, m3, &a, &b, &c, r, r, r, r, r, x, x, x, x), "a new surface has no data"); Sf old; bool has = false;
  for (int i = 0; i < (int)sym_param("sets", 2); ++i) { std::string t = "s" + istr(i); Sf d; int sh = sym_choice((t + "shape").c_str(), 4); d.n1 = sh & 1 ? 3 : 2; d.k1 = sh == 3 ? 3 : 2; d.n2 = sh == 2 ? 4 : sh == 3 ? 3 : 2; d.k2 = sh == 2 ? 3 : 2; int fl = sym_choice((t + "flags").c_str(), 4); d.rat = fl & 1; d.p1 = fl >= 2; d.p2 = fl == 3; for (int j = 0; j < d.n1 + d.k1; ++j) d.a.push_back(el(t + "a" + istr(j))); for (int j = 0; j < d.n2 + d.k2; ++j) d.b.push_back(el(t + "b" + istr(j))); for (int j = 0; j < d.n1 * d.n2 * (d.rat ? 4 : 3); ++j) d.c.push_back(el(t + "c" + istr(j))); d.u0 = el(t + "u0"); d.u1 = el(t + "u1"); d.v0 = el(t + "v0"); d.v1 = el(t + "v1");
    std::vector<double> A(d.a), B(d.b), C(d.c); bool ok = s->SetNURBSData(d.n1, d.n2, d.k1, d.k2, &A[0], &B[0], &C[0], d.rat, d.p1, d.p2, d.u0, d.u1, d.v0, d.v1); A.assign(A.size(), -7); B.assign(B.size(), -7); C.assign(C.size(), -7); sym_assert(ok == (range(d.a, d.u0, d.u1) && range(d.b, d.v0, d.v1)), "data is accepted exactly when the ranges lie within the knots"); if (ok) { old = d; has = true; sym_reach("accepted"); } else sym_reach("refused"); if (has) sholds(s, old); else sym_assert(!s->GetNURBSData(m0, m1, m2, m3, &a, &b, &c, r, r, r, r, r, x, x, x, x), "refused data is not kept"); } }
// data retrieved from an entity and handed to it or to another
extern "C" void c25_self() {
  IGES g; int surf = sym_choice("surface", 2), other = sym_choice("other", 2); bool rat = sym_choice("rat", 2); if (!surf) { Cv d = cv("d", 3, 2, rat); sym_assume(range(d.knot, d.v0, d.v1)); IGES_ENTITY_126* s = fresh<IGES_ENTITY_126>(g, 126), *o = other ? fresh<IGES_ENTITY_126>(g, 126) : s; sym_assert(set(s, d), "valid data is accepted"); int n, k; double *kn, *c, v0, v1; bool r, cl, per; sym_assert(s->GetNURBSData(n, k, &kn, &c, r, cl, per, v0, v1), "spline data can be retrieved"); sym_assert(o->SetNURBSData(n, k, kn, c, r, v0, v1), "retrieved data is accepted"); holds(o, d); holds(s, d); if (other) { sym_assert(g.DelEntity(s), "an entity can be deleted"); holds(o, d); } sym_reach("curve"); return; }
  Sf d; d.n1 = d.n2 = d.k1 = d.k2 = 2; d.rat = rat; d.p1 = d.p2 = false; for (int j = 0; j < 4; ++j) { d.a.push_back(el("a" + istr(j))); d.b.push_back(el("b" + istr(j))); } for (int j = 0; j < (rat ? 16 : 12); ++j) d.c.push_back(el("c" + istr(j))); d.u0 = el("u0"); d.u1 = el("u1"); d.v0 = el("v0"); d.v1 = el("v1"); sym_assume(range(d.a, d.u0, d.u1)); sym_assume(range(d.b, d.v0, d.v1));
  IGES_ENTITY_128* s = fresh<IGES_ENTITY_128>(g, 128), *o = other ? fresh<IGES_ENTITY_128>(g, 128) : s; sym_assert(s->SetNURBSData(2, 2, 2, 2, &d.a[0], &d.b[0], &d.c[0], rat, false, false, d.u0, d.u1, d.v0, d.v1), "valid data is accepted"); int n1, n2, k1, k2; double *a, *b, *c, u0, u1, v0, v1; bool r, c1, c2, p1, p2; sym_assert(s->GetNURBSData(n1, n2, k1, k2, &a, &b, &c, r, c1, c2, p1, p2, u0, u1, v0, v1), "surface data can be retrieved"); sym_assert(o->SetNURBSData(n1, n2, k1, k2, a, b, c, r, p1, p2, u0, u1, v0, v1), "retrieved data is accepted"); sholds(o, d); sholds(s, d); if (other) { sym_assert(g.DelEntity(s), "an entity can be deleted"); sholds(o, d); } sym_reach("surface"); }
