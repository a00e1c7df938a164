// C09: references between entities stay consistent
#include "graph.h"
static void destroy(IGES& g) { g.Clear(); sym_assert(g.entities.empty(), "a cleared model is empty"); }
// a populated entity with spare children; any short sequence of operations
static void extra(IGES& g, int type, EL& pool) {
  pool.push_back(fresh<IGES_ENTITY>(g, 124)); pool.push_back(fresh<IGES_ENTITY>(g, 314)); IGES_ENTITY_406* p = fresh<IGES_ENTITY_406>(g, 406); p->SetEntityForm(15); p->SetData("N"); pool.push_back(p);
  switch (type) { case 102: case 120: case 122: case 164: case 308: case 504: case 508: pool.push_back(mk110(g, 2, 2)); pool.push_back(mk100(g)); break; case 142: pool.push_back(mk100(g)); pool.push_back(mk128(g)); break; case 144: pool.push_back(mk142(g, mk128(g))); break;
    case 180: pool.push_back(mk154(g, 3)); break; case 408: pool.push_back(mk308(g, mk110(g))); break; case 510: pool.push_back(mk128(g)); { IGES_ENTITY_508* l = fresh<IGES_ENTITY_508>(g, 508); pool.push_back(l); } break; }
  if (type == 504 || type == 508) { IGES_ENTITY_502* v = fresh<IGES_ENTITY_502>(g, 502); v->AddVertex(MCAD_POINT(5, 5, 5)); pool.push_back(v); } if (type == 504) pool.push_back(fresh<IGES_ENTITY>(g, 502)); }
extern "C" void c09_sequence() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES), steps = (int)sym_param("steps", 2), cross = (int)sym_param("cross", 0); IGES g; int type = TYPES[lo + sym_choice("type", hi - lo)]; IGES_ENTITY* p = mk(g, type); EL pool; EL own = children(p); for (size_t i = 0; i < own.size(); ++i) if (!in(pool, own[i])) pool.push_back(own[i]); extra(g, type, pool); pool.push_back(p); consistent(g);
  for (int s = 0; s < steps; ++s) {
    std::string n = istr(s); int what = sym_choice(("what" + n).c_str(), 3); if (what == 2 && !cross) what = 0;
    if (what == 1) { IGES_ENTITY* d = pool[sym_choice(("del" + n).c_str(), (int)pool.size())]; if (!d) return; sym_assert(g.DelEntity(d), "an entity of the model can be deleted"); for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == d) pool[i] = 0; if (d == p) p = 0; sym_reach("deleted"); }
    else { IGES_ENTITY* q = what == 2 ? pool[sym_choice(("on" + n).c_str(), (int)pool.size())] : p; if (!q) return; int k = sym_choice(("child" + n).c_str(), (int)pool.size() + 1); IGES_ENTITY* c = k < (int)pool.size() ? pool[k] : 0; if (k < (int)pool.size() && !c) return;
      bool done = false; bool ok = op(g, q, sym_choice(("slot" + n).c_str(), nslots(q->entityType)), c, done); if (!done) return; sym_reach(ok ? "linked" : "refused"); }
    consistent(g); }
  if (sym_choice("cull", 2)) { g.Cull(); consistent(g); } destroy(g); }
// a model read from a file is as consistent as one built by hand, and so is one whose entities are deleted one by one in any order
extern "C" void c09_read() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES); IGES a, g; mk(a, TYPES[lo + sym_choice("type", hi - lo)]); write_read(a, g); consistent(g); sym_reach("read");
  int n = (int)sym_param("dels", 2); for (int i = 0; i < n && !g.entities.empty(); ++i) { g.DelEntity(g.entities[sym_choice(("del" + istr(i)).c_str(), (int)g.entities.size())]); consistent(g); } g.Cull(); consistent(g); destroy(g); }
