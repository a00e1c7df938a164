// the numbers of a model, and what a scale does to them
#pragma once
#include "models.h"
static const double MM[] = { 25.4, 1, 0, 304.8, 1609344, 1000, 1e6, 0.0254, 0.001, 10, 0.0000254 };
static const char* NAME[] = { "IN", "MM", "", "FT", "MI", "M", "KM", "MIL", "UM", "CM", "UIN" };
struct Fld { double* p; int deg; };
typedef std::vector<Fld> FL;
static void ad(FL& f, double& d, int g) { Fld x = { &d, g }; f.push_back(x); }
static void pt(FL& f, MCAD_POINT& p, int g) { ad(f, p.x, g); ad(f, p.y, g); ad(f, p.z, g); }
// is the curve the parameter space curve of some entity, or a part of one
static bool param(IGES& g, IGES_ENTITY* c) {
  for (size_t i = 0; i < g.entities.size(); ++i) { IGES_ENTITY* e = g.entities[i];
    if (e->entityType == 142 && ((IGES_ENTITY_142*)e)->BPTR == c) return true;
    if (e->entityType == 508) { std::vector<LOOP_DATA*>& v = ((IGES_ENTITY_508*)e)->edges; for (size_t j = 0; j < v.size(); ++j) for (size_t k = 0; k < v[j]->pcurves.size(); ++k) if (v[j]->pcurves[k]->curve == c) return true; }
    if (e->entityType == 102) { std::list<IGES_CURVE*>& v = ((IGES_ENTITY_102*)e)->curves; for (std::list<IGES_CURVE*>::iterator j = v.begin(); j != v.end(); ++j) if (*j == c) return param(g, e); } }
  return false; }
// the numbers of an entity: 1 a length, 0 not a length, 2 a coefficient of a conic, -1 without meaning
static FL fields(IGES& g, IGES_ENTITY* e) {
  FL f; bool ps = param(g, e); int L = ps ? 0 : 1;
  switch (e->entityType) {
    case 100: { IGES_ENTITY_100* q = (IGES_ENTITY_100*)e; double* v[] = { &q->xCenter, &q->yCenter, &q->xStart, &q->yStart, &q->xEnd, &q->yEnd }; for (int i = 0; i < 6; ++i) ad(f, *v[i], L); ad(f, q->zOffset, ps ? -1 : 1); } break;
    case 104: { IGES_ENTITY_104* q = (IGES_ENTITY_104*)e; double* v[] = { &q->A, &q->B, &q->C, &q->D, &q->E, &q->F }; for (int i = 0; i < 6; ++i) ad(f, *v[i], ps ? 0 : 2); ad(f, q->X1, L); ad(f, q->Y1, L); ad(f, q->X2, L); ad(f, q->Y2, L); ad(f, q->ZT, ps ? -1 : 1); } break;
    case 110: { IGES_ENTITY_110* q = (IGES_ENTITY_110*)e; ad(f, q->X1, L); ad(f, q->Y1, L); ad(f, q->X2, L); ad(f, q->Y2, L); ad(f, q->Z1, ps ? -1 : 1); ad(f, q->Z2, ps ? -1 : 1); } break;
    case 124: { IGES_ENTITY_124* q = (IGES_ENTITY_124*)e; for (int i = 0; i < 9; ++i) ad(f, q->T.R.v[i / 3][i % 3], 0); pt(f, q->T.T, 1); } break;
    case 126: { IGES_ENTITY_126* q = (IGES_ENTITY_126*)e; int w = q->PROP3 ? 3 : 4; for (int i = 0; i < q->nCoeffs; ++i) { ad(f, q->coeffs[w * i], L); ad(f, q->coeffs[w * i + 1], L); ad(f, q->coeffs[w * i + 2], ps ? -1 : 1); if (w == 4) ad(f, q->coeffs[w * i + 3], 0); } for (int i = 0; i < q->nKnots; ++i) ad(f, q->knots[i], 0); ad(f, q->V0, 0); ad(f, q->V1, 0); } break;
    case 128: { IGES_ENTITY_128* q = (IGES_ENTITY_128*)e; int w = q->PROP3 ? 3 : 4; for (int i = 0; i < q->nCoeffs1 * q->nCoeffs2 * w; ++i) ad(f, q->coeffs[i], i % w == 3 ? 0 : 1); for (int i = 0; i < q->nKnots1; ++i) ad(f, q->knots1[i], 0); for (int i = 0; i < q->nKnots2; ++i) ad(f, q->knots2[i], 0); ad(f, q->U0, 0); ad(f, q->U1, 0); ad(f, q->V0, 0); ad(f, q->V1, 0); } break;
    case 120: ad(f, ((IGES_ENTITY_120*)e)->startAngle, 0); ad(f, ((IGES_ENTITY_120*)e)->endAngle, 0); break;
    case 122: ad(f, ((IGES_ENTITY_122*)e)->LX, 1); ad(f, ((IGES_ENTITY_122*)e)->LY, 1); ad(f, ((IGES_ENTITY_122*)e)->LZ, 1); break;
    case 154: { IGES_ENTITY_154* q = (IGES_ENTITY_154*)e; double* v[] = { &q->H, &q->R, &q->X1, &q->Y1, &q->Z1, &q->I1, &q->J1, &q->K1 }; for (int i = 0; i < 8; ++i) ad(f, *v[i], i < 5); } break;
    case 164: { IGES_ENTITY_164* q = (IGES_ENTITY_164*)e; double* v[] = { &q->L, &q->I1, &q->J1, &q->K1 }; for (int i = 0; i < 4; ++i) ad(f, *v[i], i < 1); } break;
    case 314: ad(f, ((IGES_ENTITY_314*)e)->red, 0); ad(f, ((IGES_ENTITY_314*)e)->green, 0); ad(f, ((IGES_ENTITY_314*)e)->blue, 0); break;
    case 408: { IGES_ENTITY_408* q = (IGES_ENTITY_408*)e; ad(f, q->X, 1); ad(f, q->Y, 1); ad(f, q->Z, 1); ad(f, q->S, 0); } break;
    case 502: { IGES_ENTITY_502* q = (IGES_ENTITY_502*)e; for (size_t i = 0; i < q->vertices.size(); ++i) pt(f, q->vertices[i], 1); } break; }
  return f; }
// a rational spline curve and surface
static IGES_ENTITY_126* rat126(IGES& g) { IGES_ENTITY_126* s = fresh<IGES_ENTITY_126>(g, 126); double k[4] = { 0, 0, 1, 1 }, c[8] = { 0, 0, 0, 1, 1, 1, 0, 2 }; sym_assert(s->SetNURBSData(2, 2, k, c, true, 0, 1), "accepted"); return s; }
static void rat128(IGES& g) { IGES_ENTITY_128* s = fresh<IGES_ENTITY_128>(g, 128); double k[4] = { 0, 0, 1, 1 }, c[16] = { 0, 0, 0, 1, 1, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 2 }; sym_assert(s->SetNURBSData(2, 2, 2, 2, k, k, c, true, false, false, 0, 1, 0, 1), "accepted"); }
// parameter space curves of every type, directly or in a composite curve
static IGES_ENTITY* pcurve(IGES& g, int k) { if (k == 0) return mk110(g); if (k == 1) return mk100(g); if (k == 2) return mk(g, 104); if (k == 3) return mk126(g); if (k == 4) return rat126(g); IGES_ENTITY_102* c = fresh<IGES_ENTITY_102>(g, 102); sym_assert(c->AddSegment(mk110(g)) && c->AddSegment(mk100(g)), "a composite curve can be built"); return c; }
static const int NM = NTYPES + 3;
static void build(IGES& g, int m) {
  if (m < NTYPES) { mk(g, TYPES[m]); return; } if (m == NTYPES) { rat126(g); rat128(g); return; }
  int k = sym_choice("curve", 6); if (m == NTYPES + 1) { IGES_ENTITY_142* c = fresh<IGES_ENTITY_142>(g, 142); IGES_ENTITY* s = mk128(g), *p = pcurve(g, k); bool early = sym_choice("order", 2) == 0; bool ok = true; if (early) ok = c->SetBPTR(p); ok = c->SetSPTR(s) && c->SetCPTR(mk100(g, 3)) && ok; if (!early) ok = c->SetBPTR(p) && ok; sym_assert(ok, "a curve on a surface can be built"); return; }
  mk(g, 502); IGES_ENTITY_508* l = find<IGES_ENTITY_508>(g, 508); LOOP_DATA* d = new LOOP_DATA; d->data = find<IGES_ENTITY>(g, 504); d->idx = 1; d->pcurves.push_back(new LOOP_PAIR(true, pcurve(g, k))); sym_assert(l->AddEdge(d), "an edge with a curve in parameter space can be added"); }
struct Was { IGES_ENTITY* e; FL f; std::vector<double> v; };
static std::vector<Was> fill(IGES& g, bool sym) {
  std::vector<Was> r; int n = 0; for (size_t i = 0; i < g.entities.size(); ++i) { Was w; w.e = g.entities[i]; w.f = fields(g, w.e); for (size_t k = 0; k < w.f.size(); ++k) { ++n; *w.f[k].p = sym ? __sym_intreal(("v" + istr(n)).c_str(), w.f[k].deg == 2 ? -1024 : -1048576, w.f[k].deg == 2 ? 1024 : 1048576) : *w.f[k].p + n * 0.37 + 0.5; w.v.push_back(*w.f[k].p); } r.push_back(w); } return r; }
static bool eq(double a, double b, bool exact) { return exact ? a == b : a == b || std::fabs(a - b) <= 1e-9 * std::fabs(b); }
static void check(std::vector<Was>& w, double s, bool exact) {
  for (size_t i = 0; i < w.size(); ++i) { FL& f = w[i].f; std::vector<double>& v = w[i].v; bool len = true, oth = true, con = true; int base = -1;
    for (size_t k = 0; k < f.size(); ++k) { double x = *f[k].p; if (f[k].deg == 1) len = len & eq(x, v[k] * s, exact); else if (f[k].deg == 0) oth = oth & (x == v[k]); else if (f[k].deg == 2 && base < 0) base = (int)k; }
    sym_assert(len, "every length and coordinate is multiplied by the scale"); sym_assert(oth, "angles, directions, weights, knots and parameters are unchanged");
    if (base >= 0) { // the new equation holds for the scaled points: all six coefficients in proportion
      double n[6], o[6] = { v[base] , v[base + 1], v[base + 2], v[base + 3] * s, v[base + 4] * s, v[base + 5] * s * s }; for (int k = 0; k < 6; ++k) n[k] = *f[base + k].p; for (int a = 0; a < 6; ++a) for (int b = 0; b < a; ++b) con = con & eq(n[a] * o[b], n[b] * o[a], exact); sym_assert(con, "the equation of a conic describes the scaled conic"); } } }
