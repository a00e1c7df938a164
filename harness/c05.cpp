// C05: start section and comments survive writing and reading
#include "models.h"
static std::string rtrim(std::string s) { while (!s.empty() && s[s.size() - 1] == ' ') s.erase(s.size() - 1); return s; }
static std::string txt(const char* n, int len) {
  std::string s; for (int i = 0; i < len; ++i) s += (char)('a' + i % 26);
  std::string nm(n); int at[3] = { 0, len > 2 ? (len - 1) / 2 : 0, len - 1 };
  for (int i = 0; i < 3 && i < len; ++i) s[at[i]] = (char)sym_int((nm + (char)('0' + i)).c_str(), 33, 126);
  return s; }
// the pieces of a text, at most w columns each
static void pieces(std::vector<std::string>& o, const std::string& s, int w) { for (size_t i = 0; i < s.size(); i += w) o.push_back(s.substr(i, w)); }

extern "C" void c05_header() {
  static const int L[] = { 1, 5, 71, 72, 73, 143, 144, 145, 216 }; IGES a, b; mk110(a); int n = 1 + sym_choice("lines", (int)sym_param("maxlines", 2)); std::vector<std::string> w;
  for (int i = 0; i < n; ++i) { std::string nm = "t"; nm += (char)('0' + i); std::string s = txt(nm.c_str(), L[sym_choice("len", 9)]); const char* c = s.c_str(); sym_assert(a.AddToHeader(c), "header text is accepted"); pieces(w, s, 72); }
  for (int k = 0; k < 3; ++k) {
    IGES& g = k == 1 ? b : a; if (k == 1) write_read(a, b);
    sym_assert(g.GetNHeaderLines() == w.size(), "the number of header lines is the number of lines added");
    size_t m = 99; const char** h = 0; sym_assert(g.GetHeaders(m, h) && m == w.size(), "all header lines are listed");
    for (size_t i = 0; i < m; ++i) { sym_assert(rtrim(h[i]) == w[i], "the header lines are the lines added, in order"); sym_assert(strlen(h[i]) == 72, "header lines are padded to the record"); } }
  sym_reach("header"); }

// the list of header lines is up to date after every change
extern "C" void c05_header_list() {
  IGES a, b; mk110(a); size_t m = 9; const char** h = 0; int pre = sym_choice("pre", 2);
  if (pre) { sym_assert(!a.GetHeaders(m, h) && m == 0 && !h, "an empty header has no lines"); sym_assert(a.GetNHeaderLines() == 0, "an empty header has no lines"); }
  std::string s = txt("t", 10); const char* c = s.c_str(); a.AddToHeader(c); a.GetHeaders(m, h); sym_assert(m == 1, "one line"); sym_assert(a.Write("out.igs", true), "a valid model can be written");
  a.GetHeaders(m, h); sym_assert(m == 1 && rtrim(h[0]) == s, "the line is listed after writing"); IGES o; mk110(o); c = "other"; o.AddToHeader(c); o.Write("o2.igs", true);
  a.Clear(); sym_assert(a.GetNHeaderLines() == 0 && !a.GetHeaders(m, h), "clearing a model removes the header"); sym_assert(a.Read("o2.igs"), "a written file can be read back");
  a.GetHeaders(m, h); sym_assert(m == 1 && rtrim(h[0]) == "other", "the header is that of the file read last"); sym_reach("list"); }

extern "C" void c05_refused() {
  IGES a, b; IGES_ENTITY_110* l = mk110(a); std::string s = sym_strv("text", 0, (int)sym_param("maxlen", 3), 1, 126); bool nl = false; for (size_t i = 0; i < s.size(); ++i) nl = nl || s[i] == '\n' || s[i] == '\r';
  const char* c = s.c_str(); bool okh = a.AddToHeader(c), okc = l->AddComment(s);
  sym_assert(!nl || !okh, "header text with line breaks is refused"); sym_assert(!nl || !okc, "comments with line breaks are refused"); sym_assert(nl || s.empty() || (okh && okc), "a text on one line is accepted");
  sym_assert(!s.empty() || !okc, "an empty comment is refused"); write_read(a, b); if (nl) sym_reach("refused"); else sym_reach("accepted");
  sym_assert(b.GetNHeaderLines() == 1 && find<IGES_ENTITY>(b, 110)->GetNComments() == (okc ? 1 : 0), "exactly the accepted texts are written"); }

static void check(IGES_ENTITY* g, const std::vector<std::string>& w) {
  sym_assert(g->GetNComments() == (int)w.size(), "the number of comments is as expected");
  size_t m = 99; const char** h = 0; bool r = g->GetComments(m, h); sym_assert(m == w.size() && r == !w.empty(), "all comments are listed");
  for (size_t i = 0; i < m; ++i) { sym_assert(rtrim(h[i]) == w[i], "the comments are the ones added, in order"); sym_assert(rtrim(g->GetComment((int)i)) == w[i], "each comment can be retrieved by its index"); } }
// comments on an entity of any type
extern "C" void c05_comments() {
  static const int L[] = { 1, 7, 63, 64, 65, 128, 129 }; IGES a, b; int type = TYPES[sym_choice("type", NTYPES)]; IGES_ENTITY* e = mk(a, type); bool second = type == 110 && sym_bool("second"); if (second) mk110(a, 5, 5);
  int n = 1 + sym_choice("n", 2); std::vector<std::string> w, w0;
  for (int i = 0; i < n; ++i) { std::string nm = "c"; nm += (char)('0' + i); std::string s = txt(nm.c_str(), L[type == 110 || i == 0 ? sym_choice("len", 7) : 1]); sym_assert(e->AddComment(s), "a comment is accepted"); w0.push_back(s); pieces(w, s, 64); }
  check(e, w0); write_read(a, b); sym_reach("comments");
  check(got<IGES_ENTITY>(b, type), w); check(e, w0);
  for (size_t i = 0; i < b.entities.size(); ++i) if (b.entities[i]->GetEntityType() != type) sym_assert(b.entities[i]->GetNComments() == 0, "no other entity has comments"); }
// whatever the length of the parameter data before them
extern "C" void c05_align() {
  IGES a, b; IGES_ENTITY_314* c = fresh<IGES_ENTITY_314>(a, 314); c->red = c->green = c->blue = 5; int n = 1 + sym_choice("name", (int)sym_param("names", 140)); c->cname = std::string(n, 'n'); sym_assert(mk110(a)->SetColor(c), "a colour is accepted");
  std::string s = txt("c", 10), s2 = txt("d", 3); sym_assert(c->AddComment(s) && c->AddComment(s2), "a comment is accepted"); std::vector<std::string> w; w.push_back(s); w.push_back(s2);
  write_read(a, b); sym_reach("align"); IGES_ENTITY_314* g = got<IGES_ENTITY_314>(b, 314); check(g, w); sym_assert(g->cname == c->cname, "the parameter data are read back"); }
extern "C" void c05_delete() {
  IGES a, b; IGES_ENTITY_110* l = mk110(a); std::vector<std::string> w; for (int i = 0; i < 3; ++i) { std::string nm = "c"; nm += (char)('0' + i); w.push_back(txt(nm.c_str(), 4)); l->AddComment(w.back()); }
  if (sym_bool("look")) check(l, w);
  int k = sym_int("index", -2, 5); bool ok = l->DelComment(k); sym_assert(ok == (k >= 0 && k < 3), "exactly existing comments can be deleted"); if (ok) w.erase(w.begin() + (int)__sym_concretize(k));
  check(l, w); bool clr = sym_bool("clear"); if (clr) { l->ClearComments(); w.clear(); check(l, w); } else { std::string s = txt("z", 4); l->AddComment(s); w.push_back(s); check(l, w); }
  write_read(a, b); sym_reach("delete"); check(got<IGES_ENTITY>(b, 110), w); }
