// C14: file path handling
#include "h.h"
struct Parts { std::string full, file, base, ext; bool hasExt; };
static bool is(const char* p, const std::string& s) { return p ? s == p : s.empty(); }
static std::string native(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\\') s[i] = '/'; return s; }
// the parts of a path, found from the end
static Parts parts(const std::string& full) {
  Parts r; r.full = full; size_t n = full.size(), b = n; while (b > 0 && full[b - 1] != '/') --b; r.file = full.substr(b); r.hasExt = false; r.base = r.file;
  for (size_t i = r.file.size(); i-- > 1;) if (r.file[i] == '.') { r.hasExt = true; r.base = r.file.substr(0, i); r.ext = r.file.substr(i + 1); break; }
  return r; }
static void agree(MCAD_FILEPATH& p, const Parts& w) {
  sym_assert(is(p.GetFullPath(), w.full), "the full path is the path given");
  if (w.full.empty()) { sym_assert(!p.GetFileName() && !p.GetBaseName() && !p.GetExtension(), "an empty path has no parts"); return; }
  sym_assert(is(p.GetBaseName(), w.base), "the base name is the file name without its last extension");
  const char* x = p.GetExtension(); sym_assert(is(x, w.ext), "the extension is what follows the last dot of the file name"); sym_assert((x != 0) == w.hasExt, "a path has an extension exactly when its file name has a dot which is not its first character");
  sym_assert(is(p.GetFileName(), w.file), "the file name is what follows the last separator"); }
static void ask(MCAD_FILEPATH& p, const char* nm) { switch (sym_choice(nm, 5)) { case 1: p.GetFileName(); break; case 2: p.GetBaseName(); break; case 3: p.GetExtension(); break; case 4: p.GetExtension(); p.GetBaseName(); break; } }
extern "C" void c14_parts() {
  std::string s = sym_strv("path", 0, (int)sym_param("len", 5), 1, 255); MCAD_FILEPATH p; int how = sym_choice("how", 2);
  if (how) { MCAD_FILEPATH q(s.c_str()); agree(q, parts(native(s))); sym_reach("constructed"); return; }
  p.SetPath("x/old.name"); p.GetFileName(); sym_assert(p.SetPath(s.c_str()), "every path can be set"); ask(p, "ask"); agree(p, parts(native(s))); agree(p, parts(native(s))); sym_reach("set"); }
extern "C" void c14_extension() {
  std::string s = sym_strv("path", 0, (int)sym_param("len", 4), 1, 255), e = sym_strv("ext", 0, (int)sym_param("elen", 2), 1, 255); for (size_t i = 0; i < e.size(); ++i) if (e[i] == '/' || e[i] == '\\') return;
  MCAD_FILEPATH p(s.c_str()); ask(p, "ask"); bool ok = p.SetExtension(e.empty() && sym_choice("null", 2) ? 0 : e.c_str()); Parts w = parts(native(s)); std::string dir = w.full.substr(0, w.full.size() - w.file.size());
  if (s.empty() || e == ".") { sym_assert(!ok, "an extension which cannot be set is refused"); agree(p, w); sym_reach("refused"); return; }
  sym_assert(ok, "an extension can be set"); if (e[0] == '.' && e.size()) e = e.substr(1); agree(p, parts(dir + w.base + (e.empty() ? "" : "." + e))); sym_reach("replaced"); }
extern "C" void c14_append() {
  std::string s = sym_strv("path", 0, (int)sym_param("len", 4), 1, 255), t = sym_strv("sub", 0, (int)sym_param("tlen", 3), 1, 255); MCAD_FILEPATH p(s.c_str()); ask(p, "ask"); sym_assert(p.Append(t.empty() && sym_choice("null", 2) ? 0 : t.c_str()), "a path can be appended");
  std::string n = native(s), u = native(t); if (u.empty() || u == "/") { agree(p, parts(n)); sym_reach("nothing"); return; } agree(p, parts(n.empty() ? u : n + "/" + u)); sym_reach("appended"); }
extern "C" void c14_sequence() {
  MCAD_FILEPATH p; std::string w; for (int i = 0; i < (int)sym_param("steps", 2); ++i) { std::string n = istr(i); static const char* T[] = {"", "/", ".", "a", ".a", "a.b", "d/f", "x.y/z", "a/"}; std::string t = T[sym_choice(("t" + n).c_str(), 9)]; ask(p, ("ask" + n).c_str());
    switch (sym_choice(("op" + n).c_str(), 3)) { case 0: p.SetPath(t.c_str()); w = t; break; case 1: p.Append(t.c_str()); if (!t.empty() && t != "/") w = w.empty() ? t : w + "/" + t; break; case 2: { if (t.find('/') != std::string::npos) return; bool ok = p.SetExtension(t.c_str()); sym_assert(ok == !(w.empty() || t == "."), "the result of setting an extension"); if (ok) { Parts q = parts(w); w = w.substr(0, w.size() - q.file.size()) + q.base + (t.empty() ? "" : t[0] == '.' ? t : "." + t); } } break; }
    agree(p, parts(w)); } sym_reach("sequence"); }
extern "C" void c14_exists() {
  std::string s = sym_str("name", 3, 'a', 'd'); vfs_put("abc", "x"); MCAD_FILEPATH p(s.c_str()); bool e = p.Exists(), f = p.FileExists(), d = p.DirExists(); sym_assert(e == (s == "abc") && f == e && !d, "a file exists exactly when it is there"); sym_reach(e ? "there" : "missing"); }
