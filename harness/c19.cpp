// C19: culling removes exactly the orphans
#include "graph.h"
// the model as plain data: who refers to whom, by structure and by attributes
struct Node { IGES_ENTITY* e; int type, dep, form; bool verts, alive; std::vector<int> ch, at; };
typedef std::vector<Node> Gr;
static int idx(IGES& g, IGES_ENTITY* e) { for (size_t i = 0; i < g.entities.size(); ++i) if (g.entities[i] == e) return (int)i; return -1; }
static Gr graph(IGES& g) {
  Gr r; for (size_t i = 0; i < g.entities.size(); ++i) { IGES_ENTITY* e = g.entities[i]; Node n; n.e = e; n.type = e->entityType; n.dep = (int)e->depends; n.form = e->form; n.verts = n.type == 502 && !((IGES_ENTITY_502*)e)->vertices.empty(); n.alive = true; EL c = children(e); for (size_t k = 0; k < c.size(); ++k) { bool a = c[k] == e->pTransform || c[k] == e->pColor || in(e->extras, c[k]); (a ? n.at : n.ch).push_back(idx(g, c[k])); } r.push_back(n); } return r; }
static bool has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static bool referred(const Gr& g, int x) { for (size_t i = 0; i < g.size(); ++i) if (g[i].alive && (has(g[i].ch, x) || has(g[i].at, x))) return true; return false; }
static bool orphan(const Gr& g, int x) {
  const Node& n = g[x]; bool ref = referred(g, x); size_t k = n.ch.size();
  switch (n.type) {
    case 124: case 314: return !ref; case 502: return !ref || !n.verts; case 504: case 508: return !ref || k == 0; case 510: return !ref || k < 2; case 186: return k == 0; case 514: if (k == 0) return true; break;
    case 102: case 308: case 408: case 122: case 164: if (k == 0) return true; break; case 120: if (k < 2) return true; break; case 142: { bool surf = false; for (size_t i = 0; i < k; ++i) if (g[n.ch[i]].type == 128) surf = true; if (!surf || k < 2) return true; } break; // the surface, or both curves, are missing
    case 144: { bool surf = false; for (size_t i = 0; i < k; ++i) if (g[n.ch[i]].type == 128) surf = true; if (!surf) return true; } break; case 406: if (n.form == 0) return true; break; }
  return !ref && n.dep != STAT_INDEPENDENT; }
static void drop(std::vector<int>& v, int x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); }
static void remove(Gr& g, int x) { g[x].alive = false; for (size_t i = 0; i < g.size(); ++i) { Node& n = g[i]; drop(n.at, x); if (!has(n.ch, x)) continue; bool mid = n.type == 102 && n.ch.front() != x && n.ch.back() != x; drop(n.ch, x); if (mid || n.type == 180 || n.type == 504 || n.type == 508) n.ch.clear(); } }
static void cull(Gr& g, bool top) { bool more = true; while (more) { more = false; for (size_t i = 0; i < g.size(); ++i) if (g[i].alive && (orphan(g, (int)i) || (top && g[i].type != 408 && !referred(g, (int)i)))) { remove(g, (int)i); more = true; } } }
static void agrees(IGES& g, const Gr& w) {
  size_t k = 0; for (size_t i = 0; i < w.size(); ++i) { if (!w[i].alive) continue; sym_assert(k < g.entities.size() && g.entities[k] == w[i].e, "an entity that is in use is kept, in its place, and every orphan is removed"); ++k; } sym_assert(k == g.entities.size(), "every orphan is removed"); consistent(g); }
static void settle(IGES& g, bool top) { Gr w = graph(g); cull(w, top); size_t n = g.entities.size(); g.Cull(top); agrees(g, w); EL now = g.entities; g.Cull(top); sym_assert(now == g.entities, "culling again changes nothing"); sym_reach(now.size() < n ? "culled" : "kept"); }
static void deps(IGES& g) { for (size_t i = 0; i < g.entities.size(); ++i) { int d = (int)g.entities[i]->depends; g.entities[i]->depends = (IGES_STAT_DEPENDS)sym_int(("dep" + istr((long)i)).c_str(), 0, 3); (void)d; } }
// entities of several types in every order of creation, with every choice of members and dependency
static const int ORD[6][7] = { {0,1,2,3,4,5,6}, {6,5,4,3,2,1,0}, {3,0,4,1,6,2,5}, {2,4,0,5,3,1,6}, {4,2,6,3,0,1,5}, {5,1,3,2,0,6,4} };
extern "C" void c19_graph() {
  IGES g; static const int T[7] = { 110, 110, 102, 308, 408, 124, 314 }; IGES_ENTITY* n[7]; int o = (int)sym_param("order", 0); for (int i = 0; i < 7; ++i) n[ORD[o][i]] = fresh<IGES_ENTITY>(g, T[ORD[o][i]]); bool ok = true; IGES_ENTITY_110 *a = (IGES_ENTITY_110*)n[0], *b = (IGES_ENTITY_110*)n[1]; a->X2 = 1; b->X1 = 1; b->Y2 = 7; IGES_ENTITY_102* c = (IGES_ENTITY_102*)n[2]; IGES_ENTITY_308* s = (IGES_ENTITY_308*)n[3]; IGES_ENTITY_408* u = (IGES_ENTITY_408*)n[4]; s->NAME = "S";
  int m = sym_choice("curve", 3); if (m) ok = c->AddSegment(a) && ok; if (m > 1) ok = c->AddSegment(b) && ok; int d = sym_choice("figure", 4); if (d & 1) ok = s->AddDE(c) && ok; if (d & 2) ok = s->AddDE(b) && ok; if (sym_choice("instance", 2)) ok = u->SetDE(s) && ok;
  int t = sym_choice("placed", 4); if (t) ok = n[t == 1 ? 0 : t == 2 ? 4 : 2]->SetTransform(n[5]) && ok; int k = sym_choice("coloured", 3); if (k) ok = n[k == 1 ? 1 : 3]->SetColor(n[6]) && ok; sym_assert(ok, "links are accepted"); deps(g); settle(g, sym_choice("top", 2)); }
// models of every type, from which an entity has been deleted
extern "C" void c19_types() {
  IGES g; int m = sym_choice("model", (int)(sym_param("hi", NTYPES) - sym_param("lo", 0))) + (int)sym_param("lo", 0); mk110(g, 50, 50); mk(g, TYPES[m]); int second = sym_choice("second", 2); if (second) { IGES_ENTITY_308* s = fresh<IGES_ENTITY_308>(g, 308); s->NAME = "T"; s->AddDE(find<IGES_ENTITY>(g, TYPES[m])); }
  int n = (int)g.entities.size(), k = sym_choice("delete", 16); if (k > n) return; if (k) sym_assert(g.DelEntity(g.entities[k - 1]), "an entity can be deleted"); int d = sym_choice("dep", 3); if (d) deps(g); settle(g, d == 2); }
// a file: what is read is what is not an orphan
extern "C" void c19_read() {
  FFile f; int v = sym_choice("order", 3); int a, b, s, i; static const char* D[] = { "00000000", "00010000", "00020000", "00030000" };
  if (v == 0) { a = 1; b = 3; s = 5; i = 7; } else if (v == 1) { i = 1; s = 3; b = 5; a = 7; } else { b = 1; i = 3; a = 5; s = 7; } int use = sym_choice("use", 4); // which links exist
  for (int k = 1; k < 9; k += 2) { if (k == a) f.add(110, "0.,0.,0.,1.,1.,0.;"); else if (k == b) f.add(110, "5.,0.,0.,1.,1.,0.;"); else if (k == s) f.add(308, std::string("0,1HS,") + (use & 1 ? "2," + istr(a) + "," + istr(b) : "1," + istr(a)) + ";"); else f.add(use & 2 ? 408 : 110, use & 2 ? istr(s) + ",0.,0.,0.,1.;" : "9.,0.,0.,1.,1.,0.;"); }
  bool dep[9]; for (int k = 1; k < 9; k += 2) { int q = sym_choice(("dep" + istr(k)).c_str(), 3); dep[k] = q != 0; f.ents[k / 2].de[8] = D[q]; }
  IGES g; sym_assert(read_text(g, f.text()), "the file can be read"); bool keepI = !dep[i], keepS = !dep[s] || ((use & 2) && keepI), keepA = !dep[a] || keepS, keepB = !dep[b] || ((use & 1) && keepS); if ((use & 2) && !keepS) keepI = false; int n = 0; if (!(use & 2)) n += keepI;
  sym_assert(count(g, 110) == n + keepA + keepB, "a curve is read exactly when it is independent or in use"); sym_assert(count(g, 308) == keepS, "a subfigure is read exactly when it is independent or in use"); sym_assert(count(g, 408) == ((use & 2) && keepI), "an instance is read exactly when it is independent"); consistent(g); sym_reach("read"); }
