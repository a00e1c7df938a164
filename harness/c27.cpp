// C27: an IDF board that is written is read again with the same contents
#include "c21.cpp"
#include <new>
static std::string slurp(const char* n) { std::string s; return vfs_get(n, s) ? s : std::string("?"); }
static const char* W_ = "an item is read as it was written";
static bool tol(double a, double b, double t) { return std::fabs(a - b) <= t; }
// the places to which a value is written, in mm
struct Tol { double len, dia, z, ang, seg; Tol(int u) : len(u ? 0.05 * 0.0254 + 1e-9 : 0.5e-5 + 1e-9), dia(u ? len : 0.5e-3 + 1e-9), z(u ? len : 0.5e-3 + 1e-9), ang(0.5e-3 + 1e-9), seg(0.5e-3 + 1e-9) {} };
static void sameLoops(BOARD_OUTLINE* a, BOARD_OUTLINE* b, const Tol& t, bool ends = true) {
  sym_assert(a->owner == b->owner, "the owner is read as it was written"); sym_assert(a->comments == b->comments, "the comments are read as they were written"); sym_assert(a->outlines.size() == b->outlines.size(), "there are as many loops as were written");
  std::list<IDF_OUTLINE*>::const_iterator i = a->outlines.begin(), j = b->outlines.begin(); for (; i != a->outlines.end(); ++i, ++j) { sym_assert((*i)->size() == (*j)->size(), "a loop has as many segments as were written"); std::list<IDF_SEGMENT*>::iterator s = (*i)->begin(), r = (*j)->begin(); if (!ends) continue;
    for (; s != (*i)->end(); ++s, ++r) { sym_assert(tol((*s)->startPoint.x, (*r)->startPoint.x, t.len) && tol((*s)->startPoint.y, (*r)->startPoint.y, t.len) && tol((*s)->endPoint.x, (*r)->endPoint.x, t.len) && tol((*s)->endPoint.y, (*r)->endPoint.y, t.len), "a segment is where it was written"); sym_assert((*s)->IsCircle() ? (*r)->IsCircle() && tol((*s)->radius, (*r)->radius, 2 * t.len) : tol((*s)->angle, (*r)->angle, t.seg), "a segment is of the shape that was written"); } } }
static bool sameList(const std::list<std::string>& a, const std::list<std::string>& b) { return a == b; }
static void sameDrill(IDF_DRILL_DATA* p, IDF_DRILL_DATA* q, const Tol& t) { sym_assert(tol(p->dia, q->dia, t.dia) && tol(p->x, q->x, t.len) && tol(p->y, q->y, t.len), "a hole is where it was written"); sym_assert(p->plating == q->plating && p->owner == q->owner && p->GetDrillRefDes() == q->GetDrillRefDes() && p->GetDrillHoleType() == q->GetDrillHoleType(), "a hole is read as it was written"); }
template<class L> static void sameRoute(L& a, L& b, const Tol& t) { sym_assert(a.size() == b.size(), "every outline is read again"); typename L::iterator i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) { sym_assert((*i)->layers == (*j)->layers, "the layer is read as it was written"); sameLoops(*i, *j, t); } }
template<class L> static void samePlace(L& a, L& b, const Tol& t) { sym_assert(a.size() == b.size(), "every outline is read again"); typename L::iterator i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) { sym_assert((*i)->side == (*j)->side, "the side is read as it was written"); sym_assert(tol((*i)->thickness, (*j)->thickness, (*i)->thickness < 0 ? 0 : t.len), "the height is read as it was written"); sameLoops(*i, *j, t); } }
static void same(IDF3_BOARD& a, IDF3_BOARD& b, int u, int d = 0) {
  Tol t(u); sym_assert(b.GetUnit() == u, "the unit is the one asked for"); sym_assert(b.boardName == a.boardName, "the name of the board is read as it was written"); sym_assert(b.brdFileVersion == a.brdFileVersion + d && b.libFileVersion == a.libFileVersion + d, "the file versions are read as they were written");
  sym_assert(tol(a.olnBoard.thickness, b.olnBoard.thickness, t.len), "the thickness is read as it was written"); sameLoops(&a.olnBoard, &b.olnBoard, t);
  sym_assert(a.olnOther.size() == b.olnOther.size(), "every outline is read again"); for (std::map<std::string, OTHER_OUTLINE*>::iterator i = a.olnOther.begin(), j = b.olnOther.begin(); i != a.olnOther.end(); ++i, ++j) { sym_assert(i->first == j->first && i->second->uniqueID == j->second->uniqueID && i->second->side == j->second->side, W_); sym_assert(tol(i->second->thickness, j->second->thickness, t.len), "the height is read as it was written"); sameLoops(i->second, j->second, t); }
  sameRoute(a.olnRoute, b.olnRoute, t); sameRoute(a.olnRouteKeepout, b.olnRouteKeepout, t); samePlace(a.olnPlace, b.olnPlace, t); samePlace(a.olnPlaceKeepout, b.olnPlaceKeepout, t);
  sym_assert(a.olnViaKeepout.size() == b.olnViaKeepout.size(), "every outline is read again"); for (std::list<VIA_KO_OUTLINE*>::iterator i = a.olnViaKeepout.begin(), j = b.olnViaKeepout.begin(); i != a.olnViaKeepout.end(); ++i, ++j) sameLoops(*i, *j, t);
  sym_assert(a.olnGroup.size() == b.olnGroup.size(), "every outline is read again"); for (std::multimap<std::string, GROUP_OUTLINE*>::iterator i = a.olnGroup.begin(), j = b.olnGroup.begin(); i != a.olnGroup.end(); ++i, ++j) { sym_assert(i->first == j->first && i->second->side == j->second->side, W_); sameLoops(i->second, j->second, t); }
  sym_assert(a.board_drills.size() == b.board_drills.size(), "every hole is read again"); for (std::list<IDF_DRILL_DATA*>::iterator i = a.board_drills.begin(), j = b.board_drills.begin(); i != a.board_drills.end(); ++i, ++j) sameDrill(*i, *j, t);
  sym_assert(a.notes.size() == b.notes.size(), "every note is read again"); for (std::list<IDF_NOTE*>::iterator i = a.notes.begin(), j = b.notes.begin(); i != a.notes.end(); ++i, ++j) sym_assert(tol((*i)->xpos, (*j)->xpos, t.len) && tol((*i)->ypos, (*j)->ypos, t.len) && tol((*i)->height, (*j)->height, t.len) && tol((*i)->length, (*j)->length, t.len) && (*i)->text == (*j)->text, "a note is read as it was written");
  sym_assert(a.noteComments == b.noteComments && a.drillComments == b.drillComments && a.placeComments == b.placeComments, "the comments are read as they were written");
  sym_assert(a.components.size() == b.components.size(), "every component is read again"); for (std::map<std::string, IDF3_COMPONENT*>::iterator i = a.components.begin(), j = b.components.begin(); i != a.components.end(); ++i, ++j) { IDF3_COMPONENT* p = i->second, * q = j->second; sym_assert(i->first == j->first && p->GetRefDes() == q->GetRefDes(), "a component has its designator");
    sym_assert(p->GetOutlinesSize() == q->GetOutlinesSize(), "a component has its outlines"); if (p->GetOutlinesSize()) { sym_assert(tol(p->xpos, q->xpos, t.len) && tol(p->ypos, q->ypos, t.len) && tol(p->angle, q->angle, t.ang), "a component is where it was written"); sym_assert(p->layer == q->layer && p->placement == q->placement, "a component is placed as it was written"); }
    sym_assert(p->GetDrills()->size() == q->GetDrills()->size(), "every hole is read again"); for (std::list<IDF_DRILL_DATA*>::const_iterator k = p->GetDrills()->begin(), l = q->GetDrills()->begin(); k != p->GetDrills()->end(); ++k, ++l) sameDrill(*k, *l, t);
    for (std::list<IDF3_COMP_OUTLINE_DATA*>::const_iterator k = p->GetOutlinesData()->begin(), l = q->GetOutlinesData()->begin(); k != p->GetOutlinesData()->end(); ++k, ++l) { double x, y, z, w, X, Y, Z, A; (*k)->GetOffsets(x, y, z, w); (*l)->GetOffsets(X, Y, Z, A); sym_assert(tol(x, X, 2 * t.len) && tol(y, Y, 2 * t.len) && tol(z, Z, t.z) && tol(w, A, 2 * t.ang), "an outline of a component is where it was written"); sym_assert((*l)->GetOutline() && (*k)->GetOutline()->GetUID() == (*l)->GetOutline()->GetUID(), "a component has its outlines"); } }
  for (std::map<std::string, IDF3_COMP_OUTLINE*>::iterator i = a.compOutlines.begin(); i != a.compOutlines.end(); ++i) { if (!i->second->refNum) continue; IDF3_COMP_OUTLINE* p = i->second, * q = b.GetComponentOutlineByID(i->first); sym_assert(q && p->GetGeomName() == q->GetGeomName() && p->GetPartName() == q->GetPartName() && p->GetComponentClass() == q->GetComponentClass(), "the outline of a component is read as it was written"); Tol c(p->GetUnit() == IDF3::UNIT_THOU ? 1 : 0); sym_assert(tol(p->thickness, q->thickness, c.len), "the height is read as it was written"); sym_assert(p->GetComponentClass() == COMP_MECH || p->props == q->props, "the properties are read as they were written"); sameLoops(p, q, c); } }
static const char* REG = ".HEADER\nLIBRARY_FILE 3.0 sys date 4\n.END_HEADER\n# part one\n.ELECTRICAL\ngeo \"part 1\" MM 2.5\n0 0 0 0\n0 10 0 0\n0 0 5 0\n0 0 0 0\nPROP \"a b\" \"c d\"\nPROP r 5\n.END_ELECTRICAL\n.MECHANICAL\ngeo2 part THOU 250\n0 100 100 0\n0 200 100 360\n.END_MECHANICAL\n.ELECTRICAL\nunused part MM 1\n0 1 1 0\n0 2 1 360\n.END_ELECTRICAL\n";
static std::string wr(IDF3_BOARD& a, IDF3_BOARD& b, bool mm) { bool r = a.WriteFile("c.emn", mm); sym_assert(r, "a valid board can be written"); bool q = b.ReadFile("c.emn"); sym_assert(q, "a board that was written can be read"); return ""; }
// every kind of item, with every keyword
extern "C" void c27_items() {
  static const char* RF[] = { "BOARD", "NOREFDES", "PANEL", "U1", "\"U 2\"" }; static const char* HT[] = { "PIN", "VIA", "MTG", "TOOL", "slot", "\"My hole\"" }; static const char* OW[] = { "UNOWNED", "ECAD", "MCAD" }; static const char* LY[] = { "TOP", "BOTTOM", "BOTH", "INNER", "ALL" }; static const char* PL[] = { "PLACED", "UNPLACED", "MCAD", "ECAD" }; static const char* RD[] = { "U1", "\"U 2\"", "NOREFDES", "\"a\tb\"" };
  int s = (int)sym_param("s", 0), u = sym_choice("unit", 2), to = sym_choice("written_in", 2); double n = u ? 100 : 1; Brd f(3, u); std::string o = OW[sym_choice("owner", 3)], L = LY[sym_choice("layer", 5)], num1 = u ? "150" : "1.5", pt = u ? "0 100 100 0\n0 200 100 360\n" : "0 1 1 0\n0 2 1 360\n"; (void)n;
  bool side = s == 1 || s == 3 || s == 6 || s == 7, c = sym_choice("comment", 2); std::string t = c ? "# one\n#two words\n" : "";
  switch (s) {
  case 0: sym_assume(L == "TOP"); f.outline = t + ".BOARD_OUTLINE " + o + "\n" + num1 + "\n" + pt + ".END_BOARD_OUTLINE\n"; break;
  case 1: sym_assume(L == "TOP" || L == "BOTTOM"); f.body = t + ".OTHER_OUTLINE " + o + "\n\"id 1\" " + num1 + " " + L + "\n" + pt + ".END_OTHER_OUTLINE\n.OTHER_OUTLINE MCAD\nA 20 TOP\n" + pt + ".END_OTHER_OUTLINE\n"; break;
  case 2: f.body = t + ".ROUTE_OUTLINE " + o + "\n" + L + "\n" + pt + ".END_ROUTE_OUTLINE\n.ROUTE_OUTLINE MCAD\nTOP\n" + pt + ".END_ROUTE_OUTLINE\n"; break;
  case 3: sym_assume(L == "TOP" || L == "BOTTOM" || L == "BOTH"); f.body = t + ".PLACE_OUTLINE " + o + "\n" + L + (sym_choice("height", 2) ? " " + num1 : std::string()) + "\n" + pt + ".END_PLACE_OUTLINE\n"; break;
  case 4: f.body = t + ".ROUTE_KEEPOUT " + o + "\n" + L + "\n" + pt + ".END_ROUTE_KEEPOUT\n"; break;
  case 5: sym_assume(L == "TOP"); f.body = t + ".VIA_KEEPOUT " + o + "\n" + pt + ".END_VIA_KEEPOUT\n"; break;
  case 6: sym_assume(L == "TOP" || L == "BOTTOM" || L == "BOTH"); f.body = t + ".PLACE_KEEPOUT " + o + "\n" + L + " " + num1 + "\n" + pt + ".END_PLACE_KEEPOUT\n"; break;
  case 7: sym_assume(L == "TOP" || L == "BOTTOM" || L == "BOTH"); f.body = t + ".PLACE_REGION " + o + "\n" + L + " \"grp 1\"\n" + pt + ".END_PLACE_REGION\n.PLACE_REGION ECAD\nTOP \"grp 1\"\n" + pt + ".END_PLACE_REGION\n"; break;
  case 8: sym_assume(L == "TOP"); f.body = t + ".DRILLED_HOLES\n" + num1 + " 20 -30 " + (sym_choice("npth", 2) ? "NPTH " : "PTH ") + RF[sym_choice("refdes", 5)] + " " + HT[sym_choice("type", 6)] + " " + o + "\n2 1 2 PTH BOARD MTG ECAD\n2 3 4 NPTH U1 VIA MCAD\n.END_DRILLED_HOLES\n"; break;
  case 9: sym_assume(L == "TOP" && o == OW[0]); f.body = t + ".NOTES\n-10 20 3 4 \"some text\"\n1 2 3 4 word\n.END_NOTES\n"; break;
  case 10: { sym_assume((L == "TOP" || L == "BOTTOM") && o == OW[0]); int g = sym_choice("part", 2), r = sym_choice("refdes", 4); std::string P = PL[sym_choice("placement", 4)]; f.tail = t + ".PLACEMENT\n" + (g ? "geo \"part 1\" " : "geo2 part ") + RD[r] + "\n-12.5 40 2 90.5 " + L + " " + P + "\ngeo2 part U7\n1 2 0 45 TOP PLACED\n" + (sym_choice("several", 2) ? std::string("geo \"part 1\" ") + (r == 2 ? "U9" : RD[r]) + "\n7.5 -30 1 45 " + L + " " + P + "\n" : std::string()) + ".END_PLACEMENT\n"; break; } }
  IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC); sym_assert(rd(a, f.text(), REG), "a valid board and library can be read"); wr(a, b, to == 0); same(a, b, to); IDF3_BOARD ob(CAD_ELEC); sym_assert(rd(ob, f.text(), REG), "a valid board and library can be read"); same(ob, b, to, 1); sym_assert(b.libSource == "Created by KiCad-IDF Framework" && b.brdSource == b.libSource && b.idfVer == IDF_V3, "the header names its source"); sym_reach(to ? "thou" : "mm"); (void)side; }
// a board that was read from a file of version 2, in any unit
extern "C" void c27_older() {
  int v, u; versions(v, u); int to = sym_choice("written_in", 2); bool all = sym_choice("also_parts", 2); Brd f(v, u); std::string k = u == 2 ? "000" : u ? "" : "", z = v == 3 ? "0 " : "";
  f.outline = ".BOARD_OUTLINE" + std::string(v == 3 ? " ECAD" : "") + "\n15" + k + "\n0 0 0 0\n0 100" + k + " 0 0\n0 100" + k + " 200" + k + " 0\n0 0 0 0\n.END_BOARD_OUTLINE\n"; f.body = ".DRILLED_HOLES\n10" + k + " 20" + k + " 30" + k + (v == 3 ? " PTH BOARD PIN ECAD" : " PIN BOARD") + "\n.END_DRILLED_HOLES\n.ROUTE_KEEPOUT\n" + "TOP\n0 10" + k + " 10" + k + " 0\n0 20" + k + " 10" + k + " 360\n.END_ROUTE_KEEPOUT\n"; f.tail = ".PLACEMENT\ngeo part U1\n10" + k + " -20" + k + " " + z + "45 BOTTOM PLACED\n.END_PLACEMENT\n"; std::string l = std::string(".HEADER\nLIBRARY_FILE ") + (v == 3 ? "3.0" : "2.0") + " sys date 1\n.END_HEADER\n.ELECTRICAL\ngeo part " + UN[u] + " 20" + k + "\n0 10" + k + " 10" + k + " 0\n0 20" + k + " 10" + k + " 360\n.END_ELECTRICAL\n";
  IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC), o(CAD_ELEC); sym_assert(rd(a, f.text(), l.c_str()) && rd(o, f.text(), l.c_str()), "a valid board and library can be read"); sym_assert(a.WriteFile("c.emn", to == 0, all), "a valid board can be written"); sym_assert(b.ReadFile("c.emn"), "a board that was written can be read"); if (all || to == 0) o.GetComponentOutlineByID("geo_part")->unit = to && all ? IDF3::UNIT_THOU : u == 2 || all ? IDF3::UNIT_MM : o.GetComponentOutlineByID("geo_part")->unit; same(o, b, to, 1); if (all) sym_assert(b.GetComponentOutlineByID("geo_part")->GetUnit() == to, "the parts are written in the unit asked for"); sym_reach(v == 3 ? "three" : "two"); }

// values finer than what is written
extern "C" void c27_numbers() {
  int k = (int)sym_param("k", 0); IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC); sym_assert(rd(a, lines(BL, 0, NB), lines(LL, 0, NL).c_str()), "a valid board can be read"); double v[4]; static const char* N[] = { "first", "second", "third", "fourth" }; for (int i = 0; i < 4; ++i) v[i] = sym_num(N[i], 9000000, 1000000, k < 2 || ((k == 3 || k == 5) && i < 2) ? 3 : 1);
  switch (k) { case 0: { IDF_DRILL_DATA* d = a.board_drills.front(); d->x = v[0]; d->y = v[1]; break; } case 1: { IDF_NOTE* n = a.notes.front(); n->xpos = v[0]; n->ypos = v[1]; break; } case 2: { IDF_NOTE* n = a.notes.front(); n->height = v[0]; n->length = v[1]; a.board_drills.front()->dia = v[2] ; sym_assume(v[2] > 0.01); break; }
  case 3: { IDF3_COMPONENT* c = a.FindComponent("U1"); c->xpos = v[0]; c->ypos = v[1]; break; } case 5: { IDF3_COMPONENT* c = a.FindComponent("U1"); c->angle = v[0]; c->components.front()->zoff = v[2]; break; } case 4: for (int i = 0; i < 4; ++i) sym_assume(v[i] > 0.01); a.olnBoard.thickness = v[0]; a.olnOther.begin()->second->thickness = v[1]; a.olnPlace.front()->thickness = v[2]; a.olnPlaceKeepout.front()->thickness = v[3]; break; }
  wr(a, b, true); same(a, b, 0); sym_reach("read"); }
// loops whose vertices are put together through the interface, in either direction
static IDF_OUTLINE* loop(const double (*p)[2], int n, bool rev, const double* ang = 0) { IDF_OUTLINE* o = new IDF_OUTLINE; for (int i = 0; i < n; ++i) { int a = rev ? (n - i) % n : i, b = rev ? n - i - 1 : (i + 1) % n; IDF_POINT s, e; s.x = p[a][0]; s.y = p[a][1]; e.x = p[b][0]; e.y = p[b][1]; double g = ang ? (rev ? -ang[b] : ang[a]) : 0; o->push(g ? new IDF_SEGMENT(s, e, g, false) : new IDF_SEGMENT(s, e)); } return o; }
static void sameRing(IDF_OUTLINE* o, const double (*p)[2], int n, bool rev, const double* ang, double t) { std::vector<IDF_SEGMENT*> s(o->begin(), o->end()); sym_assert((int)s.size() == n, "a loop has as many segments as were written"); int at = -1; for (int k = 0; k < n && at < 0; ++k) if (tol(s[0]->startPoint.x, p[k][0], t) && tol(s[0]->startPoint.y, p[k][1], t)) at = k; sym_assert(at >= 0, "a loop goes through its vertices"); for (int i = 0; i < n; ++i) { int a = rev ? (at - i + 2 * n) % n : (at + i) % n, b = rev ? (a + n - 1) % n : (a + 1) % n; sym_assert(tol(s[i]->startPoint.x, p[a][0], t) && tol(s[i]->startPoint.y, p[a][1], t) && tol(s[i]->endPoint.x, p[b][0], t) && tol(s[i]->endPoint.y, p[b][1], t), "a segment is where it was written"); double g = ang ? (rev ? -ang[b] : ang[a]) : 0; sym_assert(tol(s[i]->angle, g, 0.0005), "a segment is of the shape that was written"); } }
extern "C" void c27_loops() {
  IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC); int u = sym_choice("written_in", 2); long m = sym_param("m", 6); double p[3][2] = { { 0, 0 }, { 5, -1 }, { 2, 4 } }; bool ccw = sym_choice("counterclockwise", 2); if (!ccw) { p[1][0] = 2; p[1][1] = 4; p[2][0] = 5; p[2][1] = -1; } if (!u) for (int i = 1; i < 3; ++i) { p[i][0] = sym_intreal(i == 1 ? "x1" : "x2", -m, m); p[i][1] = sym_intreal(i == 1 ? "y1" : "y2", -m, m); } double area = p[1][0] * p[2][1] - p[2][0] * p[1][1]; if (ccw) sym_assume(area > 0); else sym_assume(area < 0); if (u) for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) p[i][k] = p[i][k] * 25.4; 
  static const double Q[4][2] = { { 1, 1 }, { 3, 1 }, { 3, 2 }, { 1, 2 } }; bool cut = sym_choice("cut_out", 2), crev = cut && sym_choice("clockwise", 2); if (!a.AddBoardOutline(loop(p, 3, false))) sym_assert(false, "an outline can be added"); if (cut) sym_assert(a.AddBoardOutline(loop(Q, 4, crev)), "a cut-out can be added");
  wr(a, b, u == 0); double t = u ? 0.05 * 0.0254 + 1e-9 : 1e-5; sym_assert(b.GetBoardOutlinesSize() == (cut ? 2u : 1u), "there are as many loops as were written"); sameRing(b.olnBoard.outlines.front(), p, 3, !ccw, 0, t); if (cut) sameRing(b.olnBoard.outlines.back(), Q, 4, true, 0, t); sym_assert(b.olnBoard.outlines.front()->IsCCW() && (!cut || !b.olnBoard.outlines.back()->IsCCW()), "an outline is counterclockwise and a cut-out is clockwise"); sym_reach(cut ? "cut" : "outline"); }
// outlines with arcs, on the board and on a component
extern "C" void c27_arcs() {
  static const double A[] = { 0, 90, -90, 180, 45.5, 270, -200 }; static const double Q[4][2] = { { 1, 2 }, { 30, 2 }, { 30, 12.5 }, { 1, 12.5 } }; double g[4] = { A[sym_choice("first", 5)], A[sym_choice("second", 7)], 0, A[sym_choice("fourth", 3)] }; int u = sym_choice("written_in", 2); bool rev = sym_choice("clockwise", 2), cut = sym_choice("cut_out", 2); IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC);
  if (cut) { static const double B[4][2] = { { -90, -90 }, { 90, -90 }, { 90, 90 }, { -90, 90 } }; a.AddBoardOutline(loop(B, 4, false)); } sym_assert(a.AddBoardOutline(loop(Q, 4, rev, g)), "an outline can be added"); wr(a, b, u == 0); sameRing(b.olnBoard.outlines.back(), Q, 4, cut, g, u ? 0.05 * 0.0254 + 1e-9 : 1e-5); sym_reach(cut ? "cut" : "outline"); }
// text of any characters
extern "C" void c27_text() {
  int k = (int)sym_param("k", 0), n = (int)sym_param("n", 2); std::string s = sym_strv("text", 1, n, 33, 126), w; for (size_t i = 0; i < s.size(); ++i) sym_assume(s[i] != '"'); bool in = sym_choice("inner_space", 2); if (in) s = "x " + s; IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC); std::string q = "\"" + s + "\"", bt = lines(BL, 0, NB), lt = lines(LL, 0, NL); size_t at;
  struct R { const char* from, * to; bool lib; } static const r[] = { { "brd MM", " MM", false }, { "id 2.5", " 2.5", false }, { "TOP grp", "", false }, { "4 text", "", false }, { "BOARD PIN", " ", false }, { "NPTH U1 VIA", " VIA", false }, { "geo part U1", "", false }, { "PROP a b", "", true }, { "geo2 part THOU", " THOU", true } };
  if (k < 6 || k == 8) { std::string& t = r[k].lib ? lt : bt; at = t.find(r[k].from); std::string f = r[k].from, to; switch (k) { case 0: to = q + " MM"; break; case 1: to = q + " 2.5"; break; case 2: to = "TOP " + q; break; case 3: to = "4 " + q; break; case 4: to = "BOARD " + q; break; case 5: to = "NPTH " + q + " VIA"; break; case 8: to = "geo2 " + q + " THOU"; break; } t.replace(at, f.size(), to); if (k == 8) { at = bt.find("geo part NOREFDES"); bt.replace(at, 17, "geo2 " + q + " NOREFDES"); } }
  if (k == 6) { sym_assume(s != "~"); at = bt.find("geo part U1"); bt.replace(at, 11, "geo part " + q); } if (k == 7) { sym_assume(s != "a"); at = lt.find("PROP a b"); lt.replace(at, 8, "PROP a " + q + "\nPROP " + q + " 5"); } if (k == 9) { sym_assume(s[0] != '#'); bt = "" + lines(BL, 0, 4) + "#" + s + "\n" + lines(BL, 4, 52) + "# " + s + "\n#second\n" + lines(BL, 52, NB); }
  sym_assume(k != 5 || in); bool ok = rd(a, bt, lt.c_str()); sym_assert(ok, "a valid board and library can be read"); wr(a, b, true); same(a, b, 0); sym_reach(in ? "space" : "word"); }
// a file that cannot be written in full is reported
extern "C" void c27_failure() {
  IDF3_BOARD a(CAD_ELEC), b(CAD_ELEC); sym_assert(rd(a, lines(BL, 0, NB), lines(LL, 0, NL).c_str()), "a valid board can be read"); int how = sym_choice("how", 3); if (how == 0) vfs_deny("c.emn", true); else if (how == 1) vfs_deny("c.emp", true); else { int s = sym_int("space", 0, (int)sym_param("max", 400)); vfs_space(s); } bool r = a.WriteFile("c.emn"); sym_assert(!r, "a failure to write is reported"); sym_reach(how < 2 ? "denied" : "full"); }
