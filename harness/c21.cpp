// C21: IDF board and library files are read into what is written in them
#include "h.h"
#define private public
#define protected public
#include <idf_parser.h>
#include <idf_helpers.h>
#undef private
#undef protected
using namespace IDF3;
static const double FAC[] = { 1, 0.0254, 1e-5 }; static const char* UN[] = { "MM", "THOU", "TNM" };
// a keyword in any mixture of upper and lower case
static std::string kw(const char* s, bool any) { std::string r(s); if (any) for (size_t i = 0; i < r.size(); ++i) if (r[i] >= 'A' && r[i] <= 'Z') r[i] = (char)(r[i] + (sym_bool("case") ? 32 : 0)); return r; }
// a decimal number with symbolic digits
static std::string num(const char* n, double& v, bool neg = false, int e = -1, const char* pat = "d3") { v = sym_dec(n, pat, e); if (neg) v = -v; char b[64]; snprintf(b, sizeof b, "%.10g", v); return b; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
struct Brd { int ver, unit; std::string head, outline, body, tail; double f;
  Brd(int v = 3, int u = 0) : ver(v), unit(u), f(FAC[u]) { head = std::string(".HEADER\nBOARD_FILE ") + (v == 3 ? "3.0" : "2.0") + " \"Sys A\" 2020/01/01.10:00:00 7\n\"brd x\" " + UN[u] + "\n.END_HEADER\n"; outline = ".BOARD_OUTLINE MCAD\n1.5\n0 0 0 0\n0 10 0 0\n0 10 20 0\n0 0 0 0\n.END_BOARD_OUTLINE\n"; }
  std::string text() const { return head + outline + body + tail; } };
static bool rd(IDF3_BOARD& b, const std::string& t, const char* lib = 0) { vfs_put("b.emn", t); if (lib) vfs_put("b.emp", lib); return b.ReadFile("b.emn"); }
static bool empty(IDF3_BOARD& b) { return b.notes.empty() && b.board_drills.empty() && b.components.empty() && b.compOutlines.empty() && b.olnOther.empty() && b.olnRoute.empty() && b.olnPlace.empty() && b.olnRouteKeepout.empty() && b.olnViaKeepout.empty() && b.olnPlaceKeepout.empty() && b.olnGroup.empty() && b.boardName.empty() && b.olnBoard.outlines.empty() && b.unit == IDF3::UNIT_MM; }
static void versions(int& v, int& u) { int k = sym_choice("version_and_unit", 5); v = k < 2 ? 3 : 2; u = k < 2 ? k : k - 2; }

// words of a line
static bool spc(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" void c21_words() {
  int n = (int)sym_param("n", 5); std::string s = sym_strv("line", 0, n, 1, 126); int at = 0; bool q = false; std::string w;
  std::vector<std::string> want; std::vector<bool> wq; bool bad = false; size_t i = 0;
  for (;;) { while (i < s.size() && spc(s[i])) ++i; if (i >= s.size()) break; std::string t; if (s[i] == '"') { ++i; while (i < s.size() && s[i] != '"') t += s[i++]; if (i >= s.size()) { bad = true; break; } ++i; wq.push_back(true); } else { while (i < s.size() && !spc(s[i])) t += s[i++]; wq.push_back(false); } want.push_back(t); }
  for (size_t k = 0; k < want.size(); ++k) { sym_assert(GetIDFString(s, w, q, at), "each word of a line is found"); sym_assert(w == want[k] && q == wq[k], "a word is what is written"); }
  sym_assert(!GetIDFString(s, w, q, at), "there are no more words"); sym_reach(bad ? "unterminated" : want.size() > 1 ? "several" : "few"); }
extern "C" void c21_lines() {
  int n = (int)sym_param("n", 4); std::string s = sym_strv("text", 0, n, 9, 126); vfs_put("l.txt", s); std::ifstream f("l.txt", std::ios_base::in | std::ios_base::binary); size_t i = 0; int k = 0; std::string l; bool c = false; std::streampos p;
  while (i <= s.size() && k < 8) { size_t e = s.find('\n', i); bool last = e == std::string::npos; std::string t = s.substr(i, last ? std::string::npos : e - i); bool com = !t.empty() && t[0] == '#'; if (com) t = t.substr(1); while (!t.empty() && spc(t[0])) t = t.substr(1); while (!t.empty() && spc(t[t.size() - 1])) t = t.substr(0, t.size() - 1);
    bool r = FetchIDFLine(f, l, c, p); sym_assert(r == (com || !t.empty()), "a line is reported unless it is blank"); if (r) { sym_assert(l == t && c == com && (long)p == (long)i, "a line is what is written, without the white space around it"); sym_reach(com ? "comment" : "line"); } if (last || i >= s.size()) break; i = e + 1; ++k; if (i == s.size()) break; }
  sym_assert(!FetchIDFLine(f, l, c, p) || i == s.size(), "the end of the text is the end"); }
extern "C" void c21_keyword() { static const char* K[] = { "MM", "TNM", ".END_X", "A1" }; const char* k = K[sym_choice("keyword", 4)]; std::string s = sym_strv("word", 0, (int)sym_param("n", 5), 1, 126); bool same = s.size() == strlen(k); for (size_t i = 0; same && i < s.size(); ++i) { char c = s[i]; if (c >= 'a' && c <= 'z') c = (char)(c - 32); same = c == k[i]; } sym_assert(CompareToken(k, s) == same, "keywords are compared without regard to case"); sym_reach(same ? "same" : "differs"); }

// the header
extern "C" void c21_header() {
  static const char* V3[] = { "3.0", "3.", "3" }; static const char* V2[] = { "2.0", "2.", "2" }; int v, u; versions(v, u); int k = sym_choice("form", 3); bool any = k == 0; std::string src = sym_strv("source", 1, 2, 33, 126), nm = sym_strv("name", 0, 2, 32, 126); sym_assume(src[0] != '"'); for (size_t i = 0; i < nm.size(); ++i) sym_assume(nm[i] != '"');
  int ver = sym_int("file_version", 1, 9); IDF3_BOARD b(sym_bool("mcad") ? CAD_MECH : CAD_ELEC);
  std::string t = kw(".HEADER", any) + "\n" + kw("BOARD_FILE", any) + " " + (v == 3 ? V3[k] : V2[k]) + " " + src + " 2020/01/01 " + (char)('0' + ver) + "\n" + (k == 2 ? "\n  " : "") + "\"" + nm + "\" " + kw(UN[u], any) + "\n" + kw(".END_HEADER", any) + (k == 1 ? "\r\n" : "\n");
  Brd f(v, u); sym_assert(rd(b, t + f.outline), "a valid board can be read"); sym_assert(b.idfVer == (v == 3 ? IDF_V3 : IDF_V2) && b.GetUnit() == u && b.GetBoardName() == nm && b.brdSource == src && b.brdDate == "2020/01/01" && b.GetBoardVersion() == ver, "the header is what is written"); sym_assert(b.GetBoardOutlinesSize() == 1 && near(b.GetBoardThickness(), 1.5 * f.f), "the board is what is written"); sym_reach(v == 3 ? "three" : "two"); }

// holes
extern "C" void c21_drills() {
  static const char* RF[] = { "BOARD", "NOREFDES", "PANEL", "U1", "\"U 2\"" }; static const char* HT[] = { "PIN", "VIA", "MTG", "TOOL", "slot", "\"My hole\"" }; static const char* OW[] = { "UNOWNED", "ECAD", "MCAD" }; static const KEY_OWNER OV[] = { UNOWNED, ECAD, MCAD };
  int v, u; versions(v, u); Brd f(v, u); double d, x, y, d2; int e = u == 0 ? -1 : u == 1 ? 0 : 4; std::string ds = num("dia", d, false, e), xs = num("x", x, sym_bool("negative"), e), ys = num("y", y, false, e), d2s = num("dia2", d2, false, e); int r = sym_choice("refdes", 5), h = sym_choice("type", 6), o = sym_choice("owner", 3); bool np = sym_bool("npth"), any = sym_param("any", 0) != 0; std::string rs = kw(RF[r], any && r < 3), hs = kw(HT[h], any && h < 4), os = kw(OW[o], any);
  f.body = kw(".DRILLED_HOLES", any) + "\n" + ds + " " + xs + " " + ys + " " + (v == 3 ? kw(np ? "NPTH" : "PTH", any) + " " + rs + " " + hs + " " + os : hs + " " + rs) + "\n" + d2s + " 1 2 " + (v == 3 ? "PTH BOARD MTG ECAD" : "MTG BOARD") + "\n" + kw(".END_DRILLED_HOLES", any) + "\n";
  IDF3_BOARD b(CAD_ELEC); bool ok = rd(b, f.text()); sym_assert(ok, "a valid board can be read"); std::string rw = r == 4 ? "U 2" : RF[r], hw = h == 5 ? "My hole" : HT[h]; bool onb = r == 0 || r == 2; sym_assert(b.board_drills.size() == (onb ? 2u : 1u) && b.components.size() == (onb ? 0u : 1u), "there are as many holes as are written");
  IDF_DRILL_DATA* p = onb ? b.board_drills.front() : 0, *q = b.board_drills.back(); if (!onb) { IDF3_COMPONENT* c = b.FindComponent(rw); sym_assert(c && c->GetDrills()->size() == 1, "a hole belongs to its component"); p = c->GetDrills()->front(); }
  sym_assert(near(p->GetDrillDia(), d * f.f) && near(p->GetDrillXPos(), x * f.f) && near(p->GetDrillYPos(), y * f.f), "a hole is where it is written"); sym_assert(p->GetDrillPlating() == (v == 3 && np ? NPTH : PTH) && p->GetDrillRefDes() == rw && p->GetDrillHoleType() == hw && p->owner == (v == 3 ? OV[o] : UNOWNED), "a hole is what is written");
  sym_assert(near(q->GetDrillDia(), d2 * f.f) && near(q->GetDrillXPos(), f.f) && near(q->GetDrillYPos(), 2 * f.f) && q->GetDrillRefDes() == "BOARD" && q->GetDrillHoleType() == "MTG", "the second hole is what is written"); sym_reach(onb ? "board" : "component"); }
// notes
extern "C" void c21_notes() {
  int u = sym_choice("unit", 2); Brd f(3, u); double x, y, h, l; std::string xs = num("x", x, true), ys = num("y", y), hs = num("h", h), ls = num("l", l); std::string t = sym_strv("text", 0, 3, 32, 126); for (size_t i = 0; i < t.size(); ++i) sym_assume(t[i] != '"');
  f.body = "# first\n#\n#third \n.NOTES\n" + xs + "\t" + ys + "  " + hs + " " + ls + " \"" + t + "\"\n\n1 2 3 4 word\n.END_NOTES\n"; IDF3_BOARD b(CAD_ELEC); sym_assert(rd(b, f.text()), "a valid board can be read"); sym_assert(b.notes.size() == 2, "there are as many notes as are written"); IDF_NOTE* p = b.notes.front(), *q = b.notes.back(); double a, c; p->GetPosition(a, c); sym_assert(near(a, x * f.f) && near(c, y * f.f) && p->GetText() == t, "a note is what is written"); p->GetSize(a, c); sym_assert(near(a, h * f.f) && near(c, l * f.f), "a note is what is written"); q->GetSize(a, c); sym_assert(near(a, 3 * f.f) && near(c, 4 * f.f) && q->GetText() == "word", "the second note is what is written");
  sym_assert(b.noteComments.size() == 3 && b.noteComments.front() == "first" && b.noteComments.back() == "third", "the comments of a section are kept"); sym_reach("notes"); }
// outlines
static const int AN[] = { 0, 90, -90, 180, 360, -360 };
static void outl(BOARD_OUTLINE* o, double x0, double y0, double x1, double y1, int k, bool cut, double f) {
  sym_assert(o && o->outlines.size() == (cut ? 2u : 1u), "there are as many outlines as are written"); std::list<IDF_OUTLINE*>::const_iterator it = o->outlines.begin(); IDF_OUTLINE* a = *it; std::vector<IDF_SEGMENT*> s(a->begin(), a->end()); double W[5][2] = { { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 }, { x0, y0 } };
  if (k >= 4) { sym_assert(s.size() == 1 && s[0]->IsCircle() && near(s[0]->center.x, x0 * f) && near(s[0]->center.y, y0 * f) && near(s[0]->radius, (x1 - x0) * f), "a circle is what is written"); }
  else { sym_assert(s.size() == 4, "there are as many segments as are written"); for (int i = 0; i < 4; ++i) { sym_assert(near(s[i]->startPoint.x, W[i][0] * f) && near(s[i]->startPoint.y, W[i][1] * f) && near(s[i]->endPoint.x, W[i + 1][0] * f) && near(s[i]->endPoint.y, W[i + 1][1] * f), "a segment ends where it is written to"); sym_assert(s[i]->angle == (i == 1 ? AN[k] : 0), "the angle is what is written"); }
    if (k) { double d = (y1 - y0) / 2 * f, cx = x1 * f + (k == 1 ? -d : k == 2 ? d : 0), cy = y0 * f + d; sym_assert(std::fabs(s[1]->center.x - cx) < 1e-6 && std::fabs(s[1]->center.y - cy) < 1e-6 && std::fabs(s[1]->radius - (k == 3 ? d : d * 1.4142135623730951)) < 1e-6, "an arc has the stated angle"); } }
  if (cut) { a = *++it; sym_assert(a->size() == 1 && a->front()->IsCircle() && near(a->front()->radius, f), "a cut-out is what is written"); } }
extern "C" void c21_outline() {
  static const char* SEC[] = { ".BOARD_OUTLINE", ".OTHER_OUTLINE", ".ROUTE_OUTLINE", ".PLACE_OUTLINE", ".ROUTE_KEEPOUT", ".VIA_KEEPOUT", ".PLACE_KEEPOUT", ".PLACE_REGION" }; static const char* OW[] = { "UNOWNED", "ECAD", "MCAD", "" }; static const KEY_OWNER OV[] = { UNOWNED, ECAD, MCAD, UNOWNED }; static const char* LY[] = { "TOP", "BOTTOM", "BOTH", "INNER", "ALL" };
  int v, u; versions(v, u); int s = sym_choice("section", (int)(sym_param("hi", 8) - sym_param("lo", 0))) + (int)sym_param("lo", 0), o = sym_choice("owner", 4), k = sym_choice("shape", 6), ly = sym_choice("layer", 5); bool any = sym_param("any", 0) != 0, cut = s < 2 && sym_choice("cut_out", 2), crlf = sym_choice("crlf", 2); bool side = s == 1 || s == 3 || s == 6 || s == 7; if (s == 1) sym_assume(ly < 2); if (side) sym_assume(ly < 3); if (s == 2 || s == 4) sym_assume(v == 3 || ly < 3); if (!side && s != 2 && s != 4) sym_assume(ly == 0);
  Brd f(v, u); double x0 = 1, y0 = 2, x1 = 5.5, y1 = 8, th; std::string x1s = "5.5", y1s = "8", ts = num("t", th); if (!k && !u && sym_choice("far", 2)) { x1s = "1234.5"; x1 = 1234.5; y1s = "77"; y1 = 77; }
  std::string e = crlf ? "\r\n" : "\n", i0 = s >= 2 && sym_bool("loop_one") ? "1 " : "0 ", L = kw(LY[ly], any), t = kw(SEC[s], any) + (o < 3 ? " " + kw(OW[o], any) : std::string()) + e;
  if (s == 0) t += ts + e; if (s == 1) t += "\"id 1\" " + ts + (v == 3 ? " " + L : std::string()) + e; if ((s == 2 && v == 3) || s == 4) t += L + e; bool has = true; if ((s == 3 && v == 3) || s == 6) { has = s == 6 || sym_bool("height"); t += L + (has ? " " + ts : std::string()) + e; } if (s == 7) t += L + " grp" + e;
  if (k >= 4) t += i0 + "1 2 0" + e + i0 + x1s + " 2 " + istr(AN[k]) + e; else t += i0 + "1 2 0" + e + i0 + x1s + " 2 0.0" + e + i0 + x1s + " " + y1s + " " + istr(AN[k]) + e + i0 + "1 " + y1s + " 0" + e + i0 + "1 2 0" + e; if (cut) t += "1 3 3 0.0" + e + "1 4 3 360.0" + e;
  std::string en(SEC[s]); en = ".END_" + en.substr(1); t += kw(en.c_str(), any) + e; if (s == 0) f.outline = t; else f.body = t; IDF3_BOARD b(CAD_ELEC); sym_assert(rd(b, f.text()), "a valid board can be read");
  BOARD_OUTLINE* p = 0; IDF_LAYER got = LYR_INVALID, want = (IDF_LAYER)ly; double wt = th * f.f;
  switch (s) { case 0: p = &b.olnBoard; break; case 1: sym_assert(b.olnOther.size() == 1 && b.olnOther.begin()->first == "id 1", "the outline is present"); p = b.olnOther.begin()->second; got = ((OTHER_OUTLINE*)p)->GetSide(); if (v == 2) want = LYR_TOP; break; case 2: sym_assert(b.olnRoute.size() == 1, "the outline is present"); p = b.olnRoute.front(); got = ((ROUTE_OUTLINE*)p)->GetLayers(); if (v == 2) want = LYR_ALL; break; case 3: sym_assert(b.olnPlace.size() == 1, "the outline is present"); p = b.olnPlace.front(); got = ((PLACE_OUTLINE*)p)->GetSide(); if (v == 2) { want = LYR_TOP; wt = 0; } else if (!has) wt = -1; break;
    case 4: sym_assert(b.olnRouteKeepout.size() == 1, "the outline is present"); p = b.olnRouteKeepout.front(); got = ((ROUTE_OUTLINE*)p)->GetLayers(); break; case 5: sym_assert(b.olnViaKeepout.size() == 1, "the outline is present"); p = b.olnViaKeepout.front(); break; case 6: sym_assert(b.olnPlaceKeepout.size() == 1, "the outline is present"); p = b.olnPlaceKeepout.front(); got = ((PLACE_OUTLINE*)p)->GetSide(); break; case 7: sym_assert(b.olnGroup.size() == 1 && b.olnGroup.begin()->first == "grp", "the outline is present"); p = b.olnGroup.begin()->second; got = ((GROUP_OUTLINE*)p)->GetSide(); break; }
  sym_assert(p->owner == OV[o], "the owner is what is written"); if (s != 0 && s != 5) sym_assert(got == want, "the layer is what is written"); if (s == 0 || s == 1 || s == 3 || s == 6) sym_assert(near(p->thickness, wt), "the thickness is what is written"); outl(p, x0, y0, x1, y1, k, cut, f.f); sym_reach(k >= 4 ? "circle" : k ? "arc" : "lines"); }
// components and their outlines from the library
extern "C" void c21_parts() {
  static const char* PL[] = { "PLACED", "UNPLACED", "MCAD", "ECAD", "FIXED" }; static const IDF_PLACEMENT PV[] = { PS_PLACED, PS_UNPLACED, PS_MCAD, PS_ECAD }; static const char* RD[] = { "U1", "\"U 1\"", "NOREFDES" };
  int v, u; versions(v, u); Brd f(v, u); int pl = sym_choice("placement", 5), r = sym_choice("refdes", 3), lu = sym_choice("library_unit", 3), lv = v; bool bot = sym_bool("bottom"), mech = sym_bool("mechanical"), mc = sym_bool("mcad"), any = sym_param("any", 0) != 0; sym_assume(v == 3 ? pl < 4 && lu < 2 : pl != 2 && pl != 3);
  double x, y, z = 0, a, h, w; std::string xs = num("x", x, sym_bool("negative")), ys = num("y", y), zs = num("z", z), as = num("a", a, false, 0, "dd"), hs = num("h", h), ws = lu ? (w = 12.5, std::string("12.5")) : num("w", w, false, 0, "dd"); if (v == 2) z = 0;
  std::string lib = std::string(".HEADER\nLIBRARY_FILE ") + (lv == 3 ? "3.0" : "2.0") + " \"lib sys\" date 3\n.END_HEADER\n# about\n" + kw(mech ? ".MECHANICAL" : ".ELECTRICAL", any) + "\n\"geo 1\" part " + kw(UN[lu], any) + " " + hs + "\n0 0 0 0\n0 " + ws + " 0 0\n0 0 7 0\n0 0 0 0\n" + (!mech && lv == 3 ? "PROP \"a b\" 5\nPROP c \"d e\"\n" : "") + kw(mech ? ".END_MECHANICAL" : ".END_ELECTRICAL", any) + "\n";
  f.tail = kw(".PLACEMENT", any) + "\n\"geo 1\" part " + kw(RD[r], any && r == 2) + "\n" + xs + " " + ys + " " + (v == 3 ? zs + " " : std::string()) + as + " " + kw(bot ? "BOTTOM" : "TOP", any) + " " + kw(PL[pl], any) + "\n" + kw(".END_PLACEMENT", any) + "\n";
  IDF3_BOARD b(mc ? CAD_MECH : CAD_ELEC); sym_assert(rd(b, f.text(), lib.c_str()), "a valid board and library can be read"); sym_assert(b.components.size() == 1 && b.compOutlines.size() == 1, "there are as many components as are written"); IDF3_COMPONENT* c = b.components.begin()->second; if (r < 2) sym_assert(c->GetRefDes() == (r ? "U 1" : "U1") && b.FindComponent(c->GetRefDes()) == c, "a component has its designator");
  double px, py, pa; IDF_LAYER pside; sym_assert(c->GetPosition(px, py, pa, pside) && near(px, x * f.f) && near(py, y * f.f) && near(pa, a) && pside == (bot ? LYR_BOTTOM : LYR_TOP), "a component is where it is written"); sym_assert(c->GetPlacement() == (pl == 4 ? (mc ? PS_ECAD : PS_MCAD) : PV[pl]), "the placement is what is written"); sym_assert(c->GetOutlinesSize() == 1, "a component has its outline"); IDF3_COMP_OUTLINE_DATA* od = c->GetOutlinesData()->front(); double ox, oy, oz, oa; od->GetOffsets(ox, oy, oz, oa); sym_assert(ox == 0 && oy == 0 && oa == 0 && near(oz, z * f.f), "a component is as high as is written");
  IDF3_COMP_OUTLINE* ol = od->GetOutline(); sym_assert(ol && ol == b.GetComponentOutlineByID("geo 1_part") && ol->GetGeomName() == "geo 1" && ol->GetPartName() == "part" && ol->GetComponentClass() == (mech ? COMP_MECH : COMP_ELEC), "a component has its outline"); double lf = FAC[lu]; sym_assert(near(ol->thickness, h * lf) && ol->outlines.size() == 1 && ol->outlines.front()->size() == 3 && near(ol->outlines.front()->front()->endPoint.x, w * lf) && near((*++ol->outlines.front()->begin())->endPoint.y, 7 * lf), "the library's outline is what is written");
  sym_assert(b.libSource == "lib sys" && b.libDate == "date" && b.GetLibraryVersion() == 3 && ol->comments.size() == 1 && ol->comments.front() == "about", "the library's header is what is written"); if (!mech && lv == 3) sym_assert(ol->props.size() == 2 && ol->props["a b"] == "5" && ol->props["c"] == "d e", "the properties are what is written"); else sym_assert(ol->props.empty(), "the properties are what is written"); sym_reach(mech ? "mechanical" : "electrical"); }

// a file with everything in it, as lines of fields; the mask says what each field is:
// n a number that may not be quoted, m a number, k a keyword, s a string, o an optional field, v a field whose value is not checked
struct Ln { const char* text, * mask; };
static const Ln BL[] = { { ".HEADER", "k" }, { "BOARD_FILE 3.0 sys date 1", "kkssv" }, { "brd MM", "sk" }, { ".END_HEADER", "k" }, { ".BOARD_OUTLINE MCAD", "ko" }, { "1.5", "m" }, { "0 0 0 0", "nnnn" }, { "0 10 0 0", "nnnn" }, { "0 10 20 0.0", "nnnn" }, { "0 0 0 0", "nnnn" }, { ".END_BOARD_OUTLINE", "k" },
  { ".OTHER_OUTLINE ECAD", "uo" }, { "id 2.5 TOP", "smk" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_OTHER_OUTLINE", "k" }, { ".ROUTE_OUTLINE ECAD", "uo" }, { "ALL", "k" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_ROUTE_OUTLINE", "k" }, { ".PLACE_OUTLINE ECAD", "uo" }, { "BOTH 4", "kO" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_PLACE_OUTLINE", "k" },
  { ".ROUTE_KEEPOUT ECAD", "uo" }, { "TOP", "k" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_ROUTE_KEEPOUT", "k" }, { ".VIA_KEEPOUT ECAD", "uo" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_VIA_KEEPOUT", "k" }, { ".PLACE_KEEPOUT ECAD", "uo" }, { "BOTTOM 3", "km" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_PLACE_KEEPOUT", "k" }, { ".PLACE_REGION ECAD", "uo" }, { "TOP grp", "ks" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_PLACE_REGION", "k" },
  { ".DRILLED_HOLES", "u" }, { "1.5 2 3 PTH BOARD PIN ECAD", "nnnkssk" }, { "0.8 -2 3 NPTH U1 VIA MCAD", "nnnkssk" }, { ".END_DRILLED_HOLES", "k" }, { ".NOTES", "u" }, { "1 2 3 4 text", "nnnns" }, { ".END_NOTES", "k" }, { ".PLACEMENT", "u" }, { "geo part U1", "sss" }, { "1 2 0 90 TOP PLACED", "nmmmkk" }, { "geo part NOREFDES", "sss" }, { "5 6 0.5 0 BOTTOM ECAD", "nmmmkk" }, { ".END_PLACEMENT", "k" } };
static const int NB = sizeof BL / sizeof *BL;
static const Ln LL[] = { { ".HEADER", "k" }, { "LIBRARY_FILE 3.0 sys date 1", "kkssv" }, { ".END_HEADER", "k" }, { ".ELECTRICAL", "k" }, { "geo part MM 2.5", "sskm" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { "PROP a b", "kss" }, { ".END_ELECTRICAL", "k" }, { ".MECHANICAL", "k" }, { "geo2 part THOU 2.5", "sskm" }, { "0 1 1 0", "nnnn" }, { "0 2 1 360", "nnnn" }, { ".END_MECHANICAL", "k" } };
static const int NL = sizeof LL / sizeof *LL;
static std::string lines(const Ln* l, int a, int b) { std::string t; for (int i = a; i < b; ++i) t += std::string(l[i].text) + "\n"; return t; }
static std::vector<std::string> cut(const char* t) { std::vector<std::string> r; std::string w; for (; *t; ++t) if (*t == ' ') { r.push_back(w); w.clear(); } else w += *t; r.push_back(w); return r; }
static void full(IDF3_BOARD& b) { sym_assert(b.olnBoard.outlines.size() == 1 && b.olnOther.size() == 1 && b.olnRoute.size() == 1 && b.olnPlace.size() == 1 && b.olnRouteKeepout.size() == 1 && b.olnViaKeepout.size() == 1 && b.olnPlaceKeepout.size() == 1 && b.olnGroup.size() == 1 && b.board_drills.size() == 1 && b.notes.size() == 1 && b.components.size() == 2 && b.compOutlines.size() == 2, "every section is read"); }
// a component of several outlines: its position is that of the first, and the others are relative to it
extern "C" void c21_several() {
  int v, u; versions(v, u); Brd f(v, u); int same = sym_choice("differs_in", 4); bool bot = sym_choice("bottom", 2); double x, y, z = 0, a, x2, y2, z2 = 0, a2; std::string xs = "-12.5", ys = "40.25", zs = "2", as = "90", xs2 = "7.5", ys2 = "-30", zs2 = "1", as2 = "45"; x2 = 7.5; y2 = -30; z2 = 1; a2 = 45; if (!same && !u) { xs2 = num("x2", x2, false, 0); ys2 = num("y2", y2, true, 0); zs2 = num("z2", z2, false, 0); as2 = num("a2", a2, false, 0, "dd"); } x = -12.5; y = 40.25; z = 2; a = 90; if (v == 2) z = z2 = 0;
  std::string tl = bot ? " BOTTOM " : " TOP ", to = bot ? " TOP " : " BOTTOM "; f.tail = ".PLACEMENT\ngeo part U1\n" + xs + " " + ys + " " + (v == 3 ? zs + " " : std::string()) + as + tl + "PLACED\ngeo part U2\n1 2 " + (v == 3 ? "0 " : "") + "0 TOP PLACED\n" + (same == 3 ? "geo part U3\n" : "geo part U1\n") + xs2 + " " + ys2 + " " + (v == 3 ? zs2 + " " : std::string()) + as2 + (same == 1 ? to : tl) + (same == 2 ? "UNPLACED" : "PLACED") + "\n.END_PLACEMENT\n";
  IDF3_BOARD b(CAD_ELEC); bool r = rd(b, f.text(), lines(LL, 0, NL).c_str()); if (same == 1 || same == 2) { sym_assert(!r, "a component on both sides, or of two kinds of placement, is reported"); sym_assert(empty(b), "nothing is kept of a file with errors"); sym_reach("refused"); return; }
  sym_assert(r, "a valid board can be read"); sym_assert(b.components.size() == (same ? 3u : 2u), "there are as many components as are written"); IDF3_COMPONENT* c = b.FindComponent("U1"); sym_assert(c && c->GetOutlinesSize() == (same ? 1u : 2u), "a component has its outlines"); double px, py, pa, ox, oy, oz, oa; IDF_LAYER l; sym_assert(c->GetPosition(px, py, pa, l) && near(px, x * f.f) && near(py, y * f.f) && near(pa, a) && l == (bot ? LYR_BOTTOM : LYR_TOP), "a component is where it is written");
  c->GetOutlinesData()->front()->GetOffsets(ox, oy, oz, oa); sym_assert(ox == 0 && oy == 0 && oa == 0 && near(oz, z * f.f), "the first outline is at the component's position"); if (same) { sym_reach("two"); return; }
  c->GetOutlinesData()->back()->GetOffsets(ox, oy, oz, oa); if (!u) { double zw = v == 2 ? 0 : z2; sym_assert(ox == x2 - x, "the second outline is where it is written"); sym_assert(oy == y2 - y, "the second outline is where it is written"); sym_assert(oz == zw, "the second outline is where it is written"); sym_assert((oa == a2 - a), "the second outline is where it is written"); } else sym_assert(near(ox, x2 * f.f - x * f.f) && near(oy, y2 * f.f - y * f.f) && near(oa, a2 - a) && near(oz, z2 * f.f), "the second outline is where it is written"); sym_assert(c->GetOutlinesData()->back()->GetOutline() == b.GetComponentOutlineByID("geo_part"), "a component has its outlines"); sym_reach("one"); }
// one record is not as it has to be
extern "C" void c21_malformed() {
  int n = sym_choice("line", (int)(sym_param("hi", NB + NL) - sym_param("lo", 0))) + (int)sym_param("lo", 0); bool lib = n >= NB; const Ln& L = lib ? LL[n - NB] : BL[n]; std::vector<std::string> w = cut(L.text); int f = sym_choice("field", (int)w.size()), how = sym_choice("how", 4); char m = L.mask[f]; std::string was = w[f]; bool ok = false;
  if (how == 0) { w.erase(w.begin() + f); if (m == 'o' || m == 'O') ok = true; if (m == 'u') sym_assume(w.empty()); if (w.empty()) { sym_assume(m == 'k' && lib == false ? n > 3 && n != 10 : m != 'u'); } }
  else if (how == 1) { sym_assume(m != 's' && m != 'v' && m != 'o' && m != 'u'); std::string x = sym_str("byte", 1, 1, 126); if (m == 'n' || m == 'm' || m == 'O') { sym_assume(!(x[0] >= '0' && x[0] <= '9') && !spc(x[0]) && x[0] != '"' && x[0] != '#'); if (f == 0) sym_assume(x[0] != '.'); w[f] = x; } else { sym_assume(!spc(x[0])); w[f] += x; if (m == 'k' && was == "3.0") sym_assume(false); } }
  else if (how == 2) { sym_assume(m == 'n' || (m == 'k' && f == 0 && n < NB && was[0] == '.' && was.substr(0, 5) != ".END_")); w[f] = "\"" + was + "\""; }
  else { sym_assume(f == 0 && was.substr(0, 5) != ".END_" && m != 'u'); w.insert(w.begin(), "#"); }
  std::string t; for (size_t i = 0; i < w.size(); ++i) t += (i ? " " : "") + w[i]; t += "\n"; int i = lib ? n - NB : n; std::string bt = lib ? lines(BL, 0, NB) : lines(BL, 0, i) + t + lines(BL, i + 1, NB), lt = lib ? lines(LL, 0, i) + t + lines(LL, i + 1, NL) : lines(LL, 0, NL);
  IDF3_BOARD b(CAD_ELEC); bool r = rd(b, bt, lt.c_str()); sym_notev("line", n); sym_notev("field", f); sym_notev("how", how); if (ok) { sym_assert(r, "a field that is not required may be left out"); full(b); sym_reach("optional"); return; } sym_assert(!r, "a record that is not as it has to be is reported"); sym_assert(empty(b), "nothing is kept of a file with errors"); sym_reach("refused"); }
// the sections in any order, with comments, blank lines, unknown keywords, and no end of line at the end of the file
extern "C" void c21_sections() {
  static const int S[] = { 11, 16, 21, 26, 31, 35, 40, 45, 49, 52 }; const int NS = 9; int a = sym_choice("first", NS), d = sym_choice("distance", NS - 1) + 1, z = (a + d) % NS, x = sym_choice("between", 4); bool last = sym_bool("at_the_end"), nl = sym_bool("end_of_line");
  std::string t = lines(BL, 0, 11) + lines(BL, S[a], S[a + 1]) + (x == 0 ? "" : x == 1 ? "\n \t\n\r\n" : x == 2 ? "# one\n#two words \n" : ".MY_SECTION with words\n") + lines(BL, S[z], S[z + 1]); if (!last) t += lines(BL, 52, NB); if (!nl) t.erase(t.size() - 1); std::string l = lines(LL, 0, NL); if (!nl) l.erase(l.size() - 1);
  IDF3_BOARD b(CAD_ELEC); sym_notev("first", a); sym_notev("second", z); sym_notev("nl", nl); sym_notev("last", last); sym_assert(rd(b, t, l.c_str()), "the sections of a board may come in any order"); size_t n = b.olnOther.size() + b.olnRoute.size() + b.olnPlace.size() + b.olnRouteKeepout.size() + b.olnViaKeepout.size() + b.olnPlaceKeepout.size() + b.olnGroup.size() + (b.board_drills.empty() ? 0 : 1) + (b.notes.empty() ? 0 : 1); sym_assert(n == 2 && b.compOutlines.size() == 2, "every section is read");
  std::list<std::string>* c = 0; switch (z) { case 0: c = &b.olnOther.begin()->second->comments; break; case 1: c = &b.olnRoute.front()->comments; break; case 2: c = &b.olnPlace.front()->comments; break; case 3: c = &b.olnRouteKeepout.front()->comments; break; case 4: c = &b.olnViaKeepout.front()->comments; break; case 5: c = &b.olnPlaceKeepout.front()->comments; break; case 6: c = &b.olnGroup.begin()->second->comments; break; case 7: c = &b.drillComments; break; case 8: c = &b.noteComments; break; }
  if (x == 2) sym_assert(c->size() == 2 && c->front() == "one" && c->back() == "two words", "the comments of a section are kept"); else sym_assert(c->empty(), "there are no other comments"); sym_reach(last ? "short" : "placement"); }
// a file of which only a part is there
extern "C" void c21_truncated() {
  int n = sym_choice("lines", NB + NL - 1); bool lib = n >= NB; std::string bt = lib ? lines(BL, 0, NB) : lines(BL, 0, n), lt = lib ? lines(LL, 0, n - NB + 1) : lines(LL, 0, NL); if (lib) n = n - NB + 1; bool open = lib ? (n < 3 || (n > 3 && n < 9) || (n > 9 && n < 14)) : true; if (!lib) { static const int E[] = { 11, 16, 21, 26, 31, 35, 40, 45, 49, 52 }; for (int i = 0; i < 10; ++i) if (E[i] == n) open = false; }
  IDF3_BOARD b(CAD_ELEC); bool r = rd(b, bt, lt.c_str()); sym_notev("lines", n); sym_notev("lib", lib); sym_assert(r == !open, "a section that is not complete is reported"); if (!r) { sym_assert(empty(b), "nothing is kept of a file with errors"); sym_reach("refused"); } else sym_reach("read"); }
// any bytes anywhere: no memory error, and the file is read or nothing is kept
extern "C" void c21_bytes() {
  static const int R[][2] = { { 0, 11 }, { 11, 16 }, { 16, 26 }, { 26, 35 }, { 35, 45 }, { 45, 49 }, { 49, 52 }, { 52, 58 } }; int sec = (int)sym_param("sec", 0), n = (int)sym_param("n", 1); std::string t; bool lib = sec == 8; if (lib) t = lines(LL, 0, NL); else t = lines(BL, R[sec][0], R[sec][1]); int at = sym_choice("at", (int)t.size() - n + 1); for (int i = 0; i < n; ++i) { unsigned char c = sym_byte("byte"); if ((c >= '+' && c <= '9') || c == 'e' || c == 'E') c = (unsigned char)__sym_concretize(c); t[at + i] = (char)c; }
  if (sec && !lib) t = lines(BL, 0, 11) + t; IDF3_BOARD b(CAD_ELEC); bool r = lib ? rd(b, lines(BL, 0, 11), t.c_str()) : rd(b, t); if (!r) { sym_assert(empty(b), "nothing is kept of a file with errors"); sym_reach("refused"); } else sym_reach("read"); }
// what a loop of an outline must be
extern "C" void c21_loops() {
  static const char* T[] = { "0 0 0 0\n0 9 0 0\n0 9 9 0\n", "0 0 0 0\n0 9 0 0\n0 9 9 0\n1 1 1 0\n1 2 1 360\n", "0 0 0 0\n0 9 0 0\n0 9 9 0\n0 0 0 0\n0 3 3 0\n", "0 0 0 90\n0 9 0 0\n0 9 9 0\n0 0 0 0\n", "1 0 0 0\n1 9 0 0\n1 9 9 0\n1 0 0 0\n", "-1 0 0 0\n-1 9 0 0\n-1 9 9 0\n-1 0 0 0\n", "0 0 0 0\n0 9 0 0\n0 9 9 0\n0 0 0 0\n2 1 1 0\n2 2 1 360\n", "0 0 0 0\n0 9 0 0\n0 9 9 360\n0 0 0 0\n", "0 0 0 0\n", "0 0 0 0\n0 9 0 360\n1 1 1 0\n1 2 1 0\n1 2 2 0\n1 1 1 0\n2 5 5 0\n2 6 5 360\n", "0 0 0 0\n0 9 9 0\n0 9 0 0\n0 0 0 0\n1 1 1 0\n1 2 1 360\n" };
  int k = sym_choice("loops", (int)(sizeof T / sizeof *T)), s = sym_choice("section", 2); std::string t = s ? lines(BL, 0, 11) + ".ROUTE_KEEPOUT\nTOP\n" + T[k] + ".END_ROUTE_KEEPOUT\n" : lines(BL, 0, 4) + ".BOARD_OUTLINE\n1\n" + T[k] + ".END_BOARD_OUTLINE\n"; IDF3_BOARD b(CAD_ELEC); bool r = rd(b, t); bool good = s && k == 4; sym_notev("loops", k); sym_notev("section", s); sym_assert(r == good, "an outline that is not made of proper loops is reported"); if (!r) sym_assert(empty(b), "nothing is kept of a file with errors"); sym_reach(good ? "read" : "refused"); }
