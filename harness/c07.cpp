// C07: reading any file is safe
#include "models.h"
// the text of a written file, taken apart
static FFile parts(const std::string& t) {
  FFile f; f.start.clear(); f.global.clear(); std::vector<std::string> d; std::vector<std::pair<int, std::string> > p;
  for (size_t i = 0; i + 81 <= t.size(); i += 81) {
    std::string r = t.substr(i, 80); char s = r[72];
    if (s == 'S') f.start.push_back(r.substr(0, 72)); if (s == 'G') f.glines.push_back(r.substr(0, 72)); if (s == 'D') d.push_back(r);
    if (s == 'P') { int k = 0; for (int j = 64; j < 72; ++j) if (r[j] != ' ') k = k * 10 + r[j] - '0'; p.push_back(std::make_pair(k, r.substr(0, 64))); } }
  for (size_t i = 0; i + 1 < d.size(); i += 2) {
    int type = 0, form = 0; for (int j = 0; j < 8; ++j) { char a = d[i][j], b = d[i + 1][32 + j]; if (a != ' ') type = type * 10 + a - '0'; if (b != ' ') form = form * 10 + b - '0'; }
    std::string pd; for (size_t k = 0; k < p.size(); ++k) if (p[k].first == (int)i + 1) { std::string x = p[k].second; if (type != 308 && type != 406 && type != 314) while (!x.empty() && x[x.size() - 1] == ' ') x.erase(x.size() - 1); pd += x; }
    pd.erase(0, pd.find(',') + 1); FEnt e(type, pd, form); for (int k = 2; k < 19; ++k) if (k != 9 && k != 10 && k != 13) e.de[k] = k < 9 ? d[i].substr(8 * k, 8) : d[i + 1].substr(8 * (k - 10), 8);
    f.ents.push_back(e); }
  return f; }
static std::vector<std::string> items(const std::string& s) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = s.find_first_of(",;", i); if (j == std::string::npos) break; r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
static std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) { r += v[i]; r += i + 1 < v.size() ? ',' : ';'; } return r; }
static FFile written(int type) { IGES a; mk(a, type); std::string t; bool ok = a.Write("src.igs", true); sym_assert(ok && vfs_get("src.igs", t), "a small valid model can be written"); return parts(t); }
// whatever the outcome, everything the model holds can be used and the object stays usable
static void use(IGES& g, bool ok, bool again = true) {
  for (size_t i = 0; i < g.entities.size(); ++i) {
    IGES_ENTITY* e = g.entities[i]; sym_assert(e != 0, "the model holds entities only"); e->GetEntityType(); e->getNRefs(); e->isOrphaned(); MCAD_TRANSFORM t; IGES_ENTITY* x = 0; e->GetTransform(&x);
    if (x) { sym_assert(x->GetEntityType() == 124, "a transform is a transformation matrix"); ((IGES_ENTITY_124*)x)->GetTransformMatrix(); }
    if (IGES_CURVE* c = dynamic_cast<IGES_CURVE*>(e)) { MCAD_POINT p; if (e->GetEntityType() != 126 && e->GetEntityType() != 102) { c->GetStartPoint(p, true); c->GetEndPoint(p, true); c->IsClosed(); } int n = c->GetNCurves(); for (int k = 0; k < n && k < 4; ++k) c->GetCurve(k); }
    size_t no = 0, nc = 0; IGES_ENTITY** o = 0; const char** l = 0; if (e->GetOptionalEntities(no, o)) for (size_t k = 0; k < no; ++k) o[k]->GetEntityType(); e->GetComments(nc, l); }
  if (ok && again) { bool w = g.Write("again.igs", true); if (w) { IGES b; b.Read("again.igs"); } }
  g.Clear(); sym_assert(g.entities.empty(), "a cleared model is empty"); }
static void check(const FFile& f) { IGES g; bool ok = read_text(g, f.text()); sym_reach(ok ? "read" : "refused"); use(g, ok); }
static std::string wrong(int nents) {
  int k = sym_choice("value", 9 + 2 * nents + 2);
  switch (k) { case 0: return ""; case 1: return "-1"; case 2: return "2147483647"; case 3: return "-2147483648"; case 4: return "9999999"; case 5: return "x"; case 6: return "1.5E300"; case 7: return "-3"; case 8: return "1H,"; }
  return istr(k - 9); }
// one item of the parameter data replaced, removed, or the record cut short
static void one(FFile& f, int type, const char* en, const char* in) {
  int n = 0; for (size_t i = 0; i < f.ents.size(); ++i) if (f.ents[i].type == type) ++n;
  int w = sym_choice(en, n), e = 0; for (size_t i = 0; i < f.ents.size(); ++i) if (f.ents[i].type == type && w-- == 0) e = (int)i;
  std::vector<std::string> v = items(f.ents[e].pd); int k = sym_choice(in, (int)v.size()), how = sym_choice("how", k + 1 == (int)v.size() ? 6 : 4);
  if (how == 0) v[k] = wrong((int)f.ents.size()); if (how == 1) v.erase(v.begin() + k); if (how == 2) v.resize(k); if (how == 3) v.insert(v.begin() + k, v[k]);
  if (how == 4) { v.push_back("1"); v.push_back(wrong((int)f.ents.size())); } if (how == 5) { v.push_back("0"); v.push_back("1"); v.push_back(wrong((int)f.ents.size())); }
  f.ents[e].pd = v.empty() ? std::string(";") : join(v); }
extern "C" void c07_item() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES), type = TYPES[lo + sym_choice("type", hi - lo)]; FFile f = written(type); one(f, type, "entity", "item"); check(f); }
// one field of the directory entry replaced
extern "C" void c07_de() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", NTYPES), type = TYPES[lo + sym_choice("type", hi - lo)]; FFile f = written(type);
  int n = 0, N = (int)f.ents.size(); for (int i = 0; i < N; ++i) if (f.ents[i].type == type) ++n;
  int w = sym_choice("entity", n), e = 0; for (int i = 0; i < N; ++i) if (f.ents[i].type == type && w-- == 0) e = i;
  static const int F[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 18 }; int k = F[sym_choice("field", 15)], v = sym_choice("value", 3 + 4 * N + 4);
  f.ents[e].de[k] = v == 0 ? "99999999" : v == 1 ? "" : v == 2 ? "     x" : istr(v - 3 - 2 * N - 1); if (v == 1) f.ents[e].de[k] = "        "; check(f); }
static std::vector<std::string> records(const std::string& t) { std::vector<std::string> r; for (size_t i = 0; i < t.size(); i += 81) r.push_back(t.substr(i, 81)); return r; }
static void check_text(const std::string& t, bool again = true) { IGES g; bool ok = read_text(g, t); sym_reach(ok ? "read" : "refused"); use(g, ok, again); }
static std::string small(int k) {
  IGES a; if (k == 0) { IGES_ENTITY_110* l = mk110(a); l->AddComment("a comment"); IGES_ENTITY_124* t = fresh<IGES_ENTITY_124>(a, 124); l->SetTransform(t); } else mk(a, k == 1 ? 126 : k == 2 ? 408 : 314);
  if (k == 0) { const char* h = "a header"; a.AddToHeader(h); }; std::string t; bool ok = a.Write("src.igs", true); sym_assert(ok && vfs_get("src.igs", t), "a small valid model can be written"); return t; }
// a record missing, repeated, exchanged with its successor, cut short, too long or in the wrong section; the file cut anywhere
extern "C" void c07_record() {
  int lo = (int)sym_param("lo", 0), hi = (int)sym_param("hi", 4); std::vector<std::string> r = records(small(lo + sym_choice("model", hi - lo))); int k = sym_choice("record", (int)r.size()), how = sym_choice("how", 12);
  static const char S[] = "SGDPT"; switch (how) { case 0: r.erase(r.begin() + k); break; case 1: r.insert(r.begin() + k, r[k]); break; case 2: if (k + 1 < (int)r.size()) std::swap(r[k], r[k + 1]); break;
    case 3: r[k] = r[k].substr(0, 40) + "\n"; break; case 4: r[k].insert(40, "          "); break; case 5: r[k] = "\n"; break; case 6: r[k].erase(80); break; default: r[k][72] = S[how - 7]; }
  std::string t; for (size_t i = 0; i < r.size(); ++i) t += r[i]; check_text(t); }
extern "C" void c07_cut() { int st = (int)sym_param("step", 9); std::string t = small((int)sym_param("model", 0)); int n = sym_choice("pieces", (int)t.size() / st); check_text(t.substr(0, n * st + sym_choice("rest", 2))); }
// any byte at one position of the file
extern "C" void c07_byte() {
  int st = (int)sym_param("step", 5); std::string t = small((int)sym_param("model", 0)); int a = (int)sym_param("from", 0) * (int)t.size() / 100, b = (int)sym_param("to", 100) * (int)t.size() / 100;
  int n = a + st * sym_choice("position", (b - a + st - 1) / st); if (n >= (int)t.size()) return; t[n] = (char)sym_byte("byte"); check_text(t, false); }
// one global parameter wrong, missing or repeated
extern "C" void c07_global() {
  static const char* G[] = { "1H,", "1H;", "4HPART", "7Hout.igs", "3HSYS", "4H1.00", "32", "38", "6", "308", "15", "4HPART", "1.0", "2", "2HMM", "1", "0.01", "15H20200101.101010", "1E-8", "1000.0", "2HME", "3HORG", "11", "0", "15H20200101.101010", "" };
  static const char* W[] = { "", "-1", "0", "2147483647", "99999999999", "x", "0H", "5HAB", "1HX", "-5", "1E400", "0.0", "1.0D", "2H;;", "2H,,", "12", "3HYES", "99H" };
  std::vector<std::string> v(G, G + 26); int k = sym_choice("item", 26), how = sym_choice("how", 3 + 18); if (how == 0) v.erase(v.begin() + k); else if (how == 1) v.resize(k); else if (how == 2) v.insert(v.begin() + k, v[k]); else v[k] = W[how - 3];
  FFile f; f.global = join(v); f.add(110, "1.0,2.0,3.0,4.0,5.0,6.0;"); check_text(f.text()); }
