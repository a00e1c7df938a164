// C20: the optional references of an entity
#include "graph.h"
typedef std::vector<int> VI;
static IGES_ENTITY_406* prop(IGES& g, const std::string& n) { IGES_ENTITY_406* e = fresh<IGES_ENTITY_406>(g, 406); bool ok = e->SetEntityForm(15) && e->SetData(n.c_str()); sym_assert(ok, "a name property can be made"); return e; }
static void listed(IGES_ENTITY* o, const EL& w) {
  int n = (int)w.size(); sym_assert(o->GetNOptionalEntities() == n, "the number of optional entities is that of the accepted ones"); size_t m = 77; IGES_ENTITY** l = 0; bool r = o->GetOptionalEntities(m, l); sym_assert(r == (n > 0) && m == (size_t)n, "the list has one item for each accepted one");
  for (int i = 0; i < n; ++i) sym_assert(o->GetOptionalEntity(i) == w[i] && l[i] == w[i], "the optional entities are listed in the order of acceptance"); sym_assert(o->GetOptionalEntity(n) == 0 && o->GetOptionalEntity(-1) == 0, "there is nothing else in the list"); }
// any sequence of additions, removals and deletions
extern "C" void c20_sequence() {
  IGES g; int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES); int t = TYPES[lo + sym_choice("owner", hi - lo)]; IGES_ENTITY* o = mk(g, t); EL had = children(o), w; if (t == 406) { o = find<IGES_ENTITY>(g, 406); }
  IGES_ENTITY* p[3] = { prop(g, "A"), prop(g, "B"), prop(g, "C") }; bool alive[3] = { true, true, true }; int n = (int)sym_param("n", 3); IGES_ENTITY* other = mk110(g, 70, 70);
  for (size_t i = 0; i < o->extras.size(); ++i) w.push_back(o->extras[i]);
  for (int s = 0; s < n; ++s) {
    int k = sym_choice("op", 12);
    if (k < 9) { int i = k % 3; if (!alive[i]) return; bool is = in(w, p[i]);
      if (k < 3) { bool ok = o->AddOptionalEntity(p[i]); sym_assert(ok == !is, "a property is accepted exactly when it is not yet listed"); if (ok) { w.push_back(p[i]); sym_assert(p[i]->parent == &g && in(g.entities, p[i]), "an accepted property belongs to the model"); sym_reach("added"); } else sym_reach("duplicate"); }
      else if (k < 6) { bool ok = o->DelOptionalEntity(p[i]); sym_assert(ok == is, "a property can be removed exactly when it is listed"); if (ok) { w.erase(std::find(w.begin(), w.end(), p[i])); sym_reach("removed"); } }
      else { sym_assert(p[i]->parent->DelEntity(p[i]), "a property can be deleted"); alive[i] = false; if (is) { w.erase(std::find(w.begin(), w.end(), p[i])); sym_reach("deleted"); } } }
    else if (k == 9) { sym_assert(!o->AddOptionalEntity(0) && !o->DelOptionalEntity(0), "a missing entity is refused"); sym_assert(!o->AddOptionalEntity(other) && !o->DelOptionalEntity(other) && other->refs.empty(), "an entity which is neither property nor association is refused"); }
    else if (k == 10) { if (t == 406 || !w.empty() || !alive[0]) return; IGES_ENTITY_406* q = prop(g, "Q"); sym_assert(q->AddOptionalEntity(p[0]) && q->GetNOptionalEntities() == 1 && q->DelOptionalEntity(p[0]), "a property can have properties"); sym_assert(g.DelEntity(q), "a property can be deleted"); }
    else { if (s + 1 < n) return; sym_assert(g.DelEntity(o), "the owner can be deleted"); for (int i = 0; i < 3; ++i) if (alive[i]) sym_assert(p[i]->refs.empty(), "the properties of a deleted entity are no longer in use"); consistent(g); sym_reach("owner"); return; }
    listed(o, w); consistent(g); } }
static std::string nm(IGES_ENTITY* e) { return e && e->GetEntityType() == 406 && e->GetEntityForm() == 15 ? *(const std::string*)((IGES_ENTITY_406*)e)->GetData() : std::string("?"); }
static void names(IGES_ENTITY* o, const std::vector<std::string>& w) { sym_assert(o && o->GetNOptionalEntities() == (int)w.size(), "an entity read back has as many optional entities"); for (size_t i = 0; i < w.size(); ++i) sym_assert(nm(o->GetOptionalEntity((int)i)) == w[i], "the optional entities are those written, in their order"); }
// writing, reading, and writing and reading again
extern "C" void c20_file() {
  IGES g, a, b; int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES); int t = TYPES[lo + sym_choice("owner", hi - lo)]; mk110(g, 60, 60); bool before = sym_choice("before", 2); int n = sym_choice("count", 3); if (sym_param("many", 0)) n = (int)sym_param("many", 0) + n; std::vector<IGES_ENTITY_406*> p; if (before) for (int i = 0; i < n; ++i) p.push_back(prop(g, "N" + istr(i)));
  mk(g, t); if (!before) for (int i = 0; i < n; ++i) p.push_back(prop(g, "N" + istr(i))); IGES_ENTITY* o = 0; int nth = 0; for (size_t i = 0; i < g.entities.size() && !o; ++i) if (g.entities[i]->GetEntityType() == t && (t != 110 || ((IGES_ENTITY_110*)g.entities[i])->X1 < 50) && !(t == 406 && in(EL(p.begin(), p.end()), g.entities[i]))) o = g.entities[i];
  for (size_t i = 0; i < g.entities.size() && g.entities[i] != o; ++i) nth += g.entities[i]->GetEntityType() == t; std::vector<std::string> w; for (size_t i = 0; i < o->extras.size(); ++i) w.push_back(nm(o->extras[i]));
  bool rev = sym_choice("reverse", 2); for (int i = 0; i < n; ++i) { int k = rev ? n - 1 - i : i; sym_assert(o->AddOptionalEntity(p[k]), "a property is accepted"); w.push_back("N" + istr(k)); }
  bool com = sym_choice("comment", 2); if (com) o->AddComment("a comment"); std::string len((size_t)sym_choice("filler", 3) * 20, 'x'); if (!p.empty()) { p.back()->SetData(("N" + len).c_str()); for (size_t i = 0; i < w.size(); ++i) if (w[i] == "N" + istr(n - 1)) w[i] = "N" + len; }
  write_read(g, a); names(find<IGES_ENTITY>(a, t, nth), w); names(o, w); write_read(a, b, "again.igs"); IGES_ENTITY* q = find<IGES_ENTITY>(b, t, nth); names(q, w); names(o, w); sym_assert(q->GetNComments() == com, "the comment is kept"); consistent(a); consistent(b);
  if (!w.empty()) { IGES_ENTITY* x = q->GetOptionalEntity(0); sym_assert(q->DelOptionalEntity(x) && b.DelEntity(x), "what was read can be removed"); w.erase(w.begin()); names(q, w); consistent(b); sym_reach("some"); } else sym_reach("none"); }
// the two sections at the end of the parameters, as any program may write them
extern "C" void c20_read() {
  FFile f; int na = sym_choice("na", 3), nb = sym_choice("nb", 3), form = sym_choice("omit", 3); static const char* N[] = { "P", "Q", "R", "S" }; std::vector<std::string> w; int used = 0; std::string A, B; bool dup = sym_choice("twice", 2) && na + nb > 1; int unk = sym_choice("unknown", 2) ? 9 + 2 : 0; // DE 11 is an entity of an unknown type
  for (int i = 0; i < na; ++i) { if (unk && i == 0) { A += "," + istr(unk); continue; } if (dup && used) used--; A += "," + istr(3 + 2 * used); w.push_back(N[used]); ++used; } for (int i = 0; i < nb; ++i) { if (dup && used) used--; B += "," + istr(3 + 2 * used); w.push_back(N[used]); ++used; }
  if (unk && na == 0) return; if (dup && w.size() < 2) return; std::string e; if (nb == 0 && form == 1) e = "," + istr(na) + A; else if (nb == 0 && na == 0 && form == 2) e = ""; else if (na == 0 && form == 2) e = ",," + istr(nb) + B; else if (form == 0) e = "," + istr(na) + A + "," + istr(nb) + B; else return;
  f.add(110, "0.,0.,0.,1.,1.,0." + e + ";"); for (int i = 0; i < 4; ++i) f.add(406, "1,1H" + std::string(N[i]) + ";", 15); f.add(unk ? 212 : 110, "5.,5.,0.,1.,1.,0.;"); IGES g; bool ok = read_text(g, f.text());
  if (dup) { sym_assert(!ok && g.entities.empty(), "an entity listed twice is an error"); sym_reach("twice"); return; }
  sym_assert(ok, "optional entities of known types, and of types that are not supported, can be read"); names(find<IGES_ENTITY>(g, 110), w); consistent(g); sym_assert(count(g, 406) == 4, "the properties are kept"); sym_reach("read"); if (unk) sym_reach("unknown"); }
// numbers that do not fit
extern "C" void c20_bad() {
  FFile f; int na = sym_int("na", -2, 9), d1 = sym_int("d1", -3, 9), nb = sym_int("nb", -2, 9), d2 = sym_int("d2", -3, 9); std::ostringstream s; s << na << "," << d1 << "," << nb << "," << d2; f.add(110, "0.,0.,0.,1.,1.,0.," + s.str() + ";"); f.add(406, "1,1HP;", 15); f.add(406, "1,1HQ;", 15); f.add(110, "5.,5.,0.,1.,1.,0.;");
  IGES g; bool ok = read_text(g, f.text()); consistent(g); bool p1 = d1 == 3 || d1 == 5, p2 = d2 == 3 || d2 == 5; bool good = (na == 1 && nb == 1 && p1 && p2 && d1 != d2) || (na == 2 && p1 && (nb == 3 || nb == 5) && nb != d1 && d2 == 0) || (na == 0 && d1 == 2 && (nb == 3 || nb == 5) && p2 && nb != d2);
  if (good) { sym_assert(ok, "valid numbers are accepted"); IGES_ENTITY* o = find<IGES_ENTITY>(g, 110); sym_assert(o->GetNOptionalEntities() == 2, "both are listed"); sym_reach("good"); } else { sym_assert(!ok && g.entities.empty(), "a wrong number of entities, or a number that names none, is an error"); sym_reach("bad"); } }
