// who refers to whom
#pragma once
#include "models.h"
typedef std::vector<IGES_ENTITY*> EL;
static inline void put(EL& v, IGES_ENTITY* e) { if (e) v.push_back(e); }
static inline EL children(IGES_ENTITY* e) {
  EL v; put(v, e->pStructure); put(v, e->pLineFontPattern); put(v, e->pLevel); put(v, e->pView); put(v, e->pTransform); put(v, e->pLabelAssoc); put(v, e->pColor); for (size_t i = 0; i < e->extras.size(); ++i) put(v, e->extras[i]);
  switch (e->entityType) {
    case 102: { IGES_ENTITY_102* p = (IGES_ENTITY_102*)e; for (std::list<IGES_CURVE*>::iterator i = p->curves.begin(); i != p->curves.end(); ++i) put(v, *i); } break;
    case 120: put(v, ((IGES_ENTITY_120*)e)->L); put(v, ((IGES_ENTITY_120*)e)->C); break;
    case 122: put(v, ((IGES_ENTITY_122*)e)->DE); break;
    case 142: put(v, ((IGES_ENTITY_142*)e)->SPTR); put(v, ((IGES_ENTITY_142*)e)->BPTR); put(v, ((IGES_ENTITY_142*)e)->CPTR); break;
    case 144: { IGES_ENTITY_144* p = (IGES_ENTITY_144*)e; put(v, p->PTS); put(v, p->PTO); for (std::list<IGES_ENTITY_142*>::iterator i = p->PTI.begin(); i != p->PTI.end(); ++i) put(v, *i); } break;
    case 164: put(v, ((IGES_ENTITY_164*)e)->PTR); break;
    case 180: { IGES_ENTITY_180* p = (IGES_ENTITY_180*)e; for (std::list<BTREE_NODE*>::iterator i = p->nodes.begin(); i != p->nodes.end(); ++i) if (!(*i)->op) put(v, (*i)->pEnt); } break;
    case 186: { IGES_ENTITY_186* p = (IGES_ENTITY_186*)e; put(v, p->mshell); for (std::list<std::pair<IGES_ENTITY_514*, bool> >::iterator i = p->mvoids.begin(); i != p->mvoids.end(); ++i) put(v, i->first); } break;
    case 308: { IGES_ENTITY_308* p = (IGES_ENTITY_308*)e; for (std::list<IGES_ENTITY*>::iterator i = p->DE.begin(); i != p->DE.end(); ++i) put(v, *i); } break;
    case 408: put(v, ((IGES_ENTITY_408*)e)->DE); break;
    case 504: { IGES_ENTITY_504* p = (IGES_ENTITY_504*)e; for (std::list<EDGE_DATA>::iterator i = p->edges.begin(); i != p->edges.end(); ++i) { put(v, i->curv); put(v, i->svp); put(v, i->tvp); } } break;
    case 508: { IGES_ENTITY_508* p = (IGES_ENTITY_508*)e; for (size_t i = 0; i < p->edges.size(); ++i) { put(v, p->edges[i]->data); for (size_t k = 0; k < p->edges[i]->pcurves.size(); ++k) put(v, p->edges[i]->pcurves[k]->curve); } } break;
    case 510: { IGES_ENTITY_510* p = (IGES_ENTITY_510*)e; put(v, p->msurface); for (size_t i = 0; i < p->mloops.size(); ++i) put(v, p->mloops[i]); } break;
    case 514: { IGES_ENTITY_514* p = (IGES_ENTITY_514*)e; for (size_t i = 0; i < p->mfaces.size(); ++i) put(v, p->mfaces[i].first); } break; }
  return v; }
static inline bool in(const EL& v, IGES_ENTITY* e) { return std::find(v.begin(), v.end(), e) != v.end(); }
static inline void consistent(IGES& g) {
  const EL& all = g.entities; for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) sym_assert(all[i] != all[j], "an entity is listed once");
  for (size_t i = 0; i < all.size(); ++i) {
    IGES_ENTITY* e = all[i]; EL c = children(e); for (size_t k = 0; k < c.size(); ++k) { sym_assert(in(all, c[k]), "a reference names an entity of the model"); int n = 0; for (std::list<IGES_ENTITY*>::iterator r = c[k]->refs.begin(); r != c[k]->refs.end(); ++r) if (*r == e) ++n; sym_assert(n == 1, "the target knows who refers to it"); }
    for (std::list<IGES_ENTITY*>::iterator r = e->refs.begin(); r != e->refs.end(); ++r) { sym_assert(in(all, *r), "who refers to an entity is in the model"); EL p = children(*r); sym_assert(in(p, e), "a recorded reference exists"); } } }
// one linking operation of the programming interface; false: not applicable
static const int COMMON = 5;
static inline int nslots(int t) { switch (t) { case 102: case 122: case 164: case 180: case 408: case 514: return COMMON + 1; case 120: case 308: case 510: case 186: return COMMON + 2; case 142: return COMMON + 3; case 144: return COMMON + 4; case 504: return COMMON + 1; case 508: return COMMON + 3; } return COMMON; }
#define CV dynamic_cast<IGES_CURVE*>(c)
static inline bool op(IGES& g, IGES_ENTITY* p, int slot, IGES_ENTITY* c, bool& done) {
  done = true; switch (slot) { case 0: return p->SetTransform(c); case 1: return p->SetColor(c); case 2: return p->SetLevel(c); case 3: return p->AddOptionalEntity(c); case 4: return p->DelOptionalEntity(c); }
  int s = slot - COMMON; IGES_CURVE* v = CV; bool cv = !c || v; done = false;
  #define DO(x) do { done = true; return x; } while (0)
  switch (p->entityType) {
    case 102: if (cv) DO(((IGES_ENTITY_102*)p)->AddSegment(v)); break; case 120: if (cv) DO(s ? ((IGES_ENTITY_120*)p)->SetC(v) : ((IGES_ENTITY_120*)p)->SetL(v)); break; case 122: if (cv) DO(((IGES_ENTITY_122*)p)->SetDE(v)); break;
    case 142: { IGES_ENTITY_142* q = (IGES_ENTITY_142*)p; DO(s == 0 ? q->SetSPTR(c) : s == 1 ? q->SetBPTR(c) : q->SetCPTR(c)); } break;
    case 144: { IGES_ENTITY_144* q = (IGES_ENTITY_144*)p; if (s == 0) DO(q->SetPTS(c)); IGES_ENTITY_142* b = dynamic_cast<IGES_ENTITY_142*>(c); if (c && !b) break; DO(s == 1 ? q->SetPTO(b) : s == 2 ? q->AddPTI(b) : q->DelPTI(b)); } break;
    case 164: if (cv) DO(((IGES_ENTITY_164*)p)->SetClosedCurve(v)); break; case 180: { IGES_ENTITY_180* q = (IGES_ENTITY_180*)p; done = true; bool ok = q->AddArg(c); if (ok) q->AddOp((BTREE_OPERATOR)1); return ok; } break;
    case 308: DO(s ? ((IGES_ENTITY_308*)p)->DelDE(c) : ((IGES_ENTITY_308*)p)->AddDE(c)); break; case 408: { IGES_ENTITY_308* b = dynamic_cast<IGES_ENTITY_308*>(c); if (c && !b) break; DO(((IGES_ENTITY_408*)p)->SetDE(b)); } break;
    case 504: { IGES_ENTITY_502* w = find<IGES_ENTITY_502>(g, 502, sym_choice("vertices", 2)); IGES_ENTITY_502* u = find<IGES_ENTITY_502>(g, 502, sym_choice("vertices2", 2)); int i = sym_int("vi", 0, 3); DO(((IGES_ENTITY_504*)p)->AddEdge(c, w, 1, u, i)); } break;
    case 508: { LOOP_DATA* d = new LOOP_DATA; d->data = s == 1 ? find<IGES_ENTITY>(g, 504) : s == 2 ? find<IGES_ENTITY>(g, 502) : c; d->isVertex = d->data && d->data->entityType == 502; d->idx = 1; if (s) { LOOP_PAIR* lp = new LOOP_PAIR(true, c); d->pcurves.push_back(lp); if (sym_choice("pcurves", 2)) { lp = new LOOP_PAIR(false, sym_choice("same", 2) ? c : find<IGES_ENTITY>(g, 100, 0)); d->pcurves.push_back(lp); } }
      done = true; bool ok = ((IGES_ENTITY_508*)p)->AddEdge(d); if (!ok && d) { for (size_t i = 0; i < d->pcurves.size(); ++i) delete d->pcurves[i]; delete d; } return ok; } break;
    case 510: { IGES_ENTITY_510* q = (IGES_ENTITY_510*)p; if (s) DO(q->SetSurface(c)); IGES_ENTITY_508* b = dynamic_cast<IGES_ENTITY_508*>(c); if (c && !b) break; DO(q->AddBound(b)); } break; }
  return false; }
