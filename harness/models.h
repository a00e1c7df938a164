// small valid models of every entity type
#pragma once
#include "h.h"
static const int TYPES[] = { 110, 100, 104, 102, 124, 126, 120, 122, 128, 142, 144, 154, 164, 180, 308, 314, 406, 408, 502, 504, 508, 510, 514, 186 };
static const int NTYPES = sizeof TYPES / sizeof *TYPES;

static inline IGES_ENTITY_110* mk110(IGES& g, double x = 0, double y = 0) { IGES_ENTITY_110* l = fresh<IGES_ENTITY_110>(g, 110); l->X1 = x; l->Y1 = y; l->X2 = x + 1; l->Y2 = y + 1; return l; }
static inline IGES_ENTITY_100* mk100(IGES& g, double r = 2) { IGES_ENTITY_100* c = fresh<IGES_ENTITY_100>(g, 100); c->xStart = c->xEnd = r; return c; }
static inline IGES_ENTITY_128* mk128(IGES& g) {
  IGES_ENTITY_128* s = fresh<IGES_ENTITY_128>(g, 128); double k[4] = { 0, 0, 1, 1 }, c[12] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0 };
  sym_assert(s->SetNURBSData(2, 2, 2, 2, k, k, c, false, false, false, 0, 1, 0, 1), "a bilinear patch is accepted"); return s; }
static inline IGES_ENTITY_126* mk126(IGES& g) {
  IGES_ENTITY_126* s = fresh<IGES_ENTITY_126>(g, 126); double k[6] = { 0, 0, 0, 1, 1, 1 }, c[9] = { 0, 0, 0, 1, 1, 0, 2, 0, 0 };
  sym_assert(s->SetNURBSData(3, 3, k, c, false, 0, 1), "a quadratic curve is accepted"); return s; }
static inline IGES_ENTITY_154* mk154(IGES& g, double h = 1) { IGES_ENTITY_154* c = fresh<IGES_ENTITY_154>(g, 154); c->H = h; c->R = 2; c->I1 = 0; c->J1 = 0; c->K1 = 1; return c; }
static inline IGES_ENTITY_142* mk142(IGES& g, IGES_ENTITY* s) { IGES_ENTITY_142* c = fresh<IGES_ENTITY_142>(g, 142); bool ok = c->SetSPTR(s) && c->SetBPTR(mk100(g, 1)) && c->SetCPTR(mk100(g, 3)); sym_assert(ok, "a curve on a surface can be built"); return c; }
static inline IGES_ENTITY_308* mk308(IGES& g, IGES_ENTITY* m) { IGES_ENTITY_308* s = fresh<IGES_ENTITY_308>(g, 308); s->NAME = "SUB"; sym_assert(s->AddDE(m), "a member is accepted"); return s; }

// an entity of the given type with everything it needs; `root` is set to an entity that keeps it referenced, if it needs one
static inline IGES_ENTITY* mk(IGES& g, int type) {
  bool ok = true, dup = false; IGES_ENTITY* r = 0;
  switch (type) {
    case 110: r = mk110(g); break;
    case 100: r = mk100(g); break;
    case 104: { IGES_ENTITY_104* e = fresh<IGES_ENTITY_104>(g, 104); e->A = 1; e->C = 1; e->F = -1; e->X1 = 1; e->X2 = -1; ok = e->SetEntityForm(1); r = e; break; }
    case 102: { IGES_ENTITY_102* e = fresh<IGES_ENTITY_102>(g, 102); ok = e->AddSegment(mk110(g, 0, 0)) && e->AddSegment(mk110(g, 1, 1)); r = e; break; }
    case 124: { IGES_ENTITY_110* l = mk110(g); IGES_ENTITY_124* e = fresh<IGES_ENTITY_124>(g, 124); e->T.T.x = 5; ok = l->SetTransform(e); r = e; break; }
    case 126: r = mk126(g); break;
    case 128: r = mk128(g); break;
    case 120: { IGES_ENTITY_120* e = fresh<IGES_ENTITY_120>(g, 120); ok = e->SetL(mk110(g)) && e->SetC(mk100(g)); e->startAngle = 0; e->endAngle = 2; r = e; break; }
    case 122: { IGES_ENTITY_122* e = fresh<IGES_ENTITY_122>(g, 122); IGES_ENTITY_100* c = mk100(g); ok = e->SetDE(c); e->LX = 2; e->LY = 0; e->LZ = 5; r = e; break; }
    case 142: r = mk142(g, mk128(g)); break;
    case 144: { IGES_ENTITY_128* s = mk128(g); IGES_ENTITY_142 *o = mk142(g, s), *h = mk142(g, s); IGES_ENTITY_144* e = fresh<IGES_ENTITY_144>(g, 144); ok = e->SetPTS(s) && e->SetPTO(o) && e->AddPTI(h); r = e; break; }
    case 154: r = mk154(g); break;
    case 164: { IGES_ENTITY_164* e = fresh<IGES_ENTITY_164>(g, 164); ok = e->SetClosedCurve(mk100(g)); e->L = 3; e->I1 = 0; e->J1 = 0; e->K1 = 1; r = e; break; }
    case 180: { IGES_ENTITY_180* e = fresh<IGES_ENTITY_180>(g, 180); ok = e->AddArg(mk154(g, 1)) && e->AddArg(mk154(g, 2)) && e->AddOp((BTREE_OPERATOR)1); r = e; break; }
    case 308: r = mk308(g, mk110(g)); break;
    case 314: { IGES_ENTITY_314* e = fresh<IGES_ENTITY_314>(g, 314); e->red = 10; e->green = 20; e->blue = 30; e->cname = "C"; ok = mk110(g)->SetColor(e); r = e; break; }
    case 406: { IGES_ENTITY_406* e = fresh<IGES_ENTITY_406>(g, 406); ok = e->SetEntityForm(15) && e->SetData("N") && mk110(g)->AddOptionalEntity(e); r = e; break; }
    case 408: { IGES_ENTITY_308* s = mk308(g, mk110(g)); IGES_ENTITY_408* e = fresh<IGES_ENTITY_408>(g, 408); ok = e->SetDE(s); e->X = e->Y = e->Z = 1; e->S = 1; r = e; break; }
    case 502: { IGES_ENTITY_502* e = fresh<IGES_ENTITY_502>(g, 502); e->AddVertex(MCAD_POINT(0, 0, 0)); e->AddVertex(MCAD_POINT(1, 1, 0)); IGES_ENTITY_504* q = fresh<IGES_ENTITY_504>(g, 504); ok = q->AddEdge(mk110(g), e, 1, e, 2); IGES_ENTITY_508* l = fresh<IGES_ENTITY_508>(g, 508);
      LOOP_DATA* d = new LOOP_DATA; d->data = q; d->idx = 1; ok = ok && l->AddEdge(d); IGES_ENTITY_510* f = fresh<IGES_ENTITY_510>(g, 510); ok = ok && f->SetSurface(mk128(g)) && f->AddBound(l);
      IGES_ENTITY_514* s = fresh<IGES_ENTITY_514>(g, 514); ok = ok && s->SetEntityForm(1) && f->addReference(s, dup); s->mfaces.push_back(std::make_pair(f, true));
      IGES_ENTITY_186* m = fresh<IGES_ENTITY_186>(g, 186); ok = ok && s->addReference(m, dup); m->mshell = s; r = e; break; }
    case 504: case 508: case 510: case 514: case 186: mk(g, 502); r = find<IGES_ENTITY>(g, type); break;
  }
  sym_assert(ok && r, "a small valid model can be built");
  return r; }
