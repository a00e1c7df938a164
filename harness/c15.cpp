// C15: writing reports every failure and never destroys a file unasked
#include "models.h"
static void model(IGES& g, int size) {
  mk110(g, 1, 2); g.globalData.creationDate = "20010203.040506";
  static const int n[] = { 0, 3, 95, 120, 230 }; std::string s(72, 'h'); for (int i = 0; i < n[size]; ++i) { const char* c = s.c_str(); g.AddToHeader(c); } }
static bool complete(const std::string& s, size_t n) { return s.size() == n && s.substr(s.size() - 9) == "T      1\n"; }

// the disk becomes full after any number of bytes
extern "C" void c15_space() {
  IGES a; int sz = sym_choice("size", 5); model(a, sz); std::string t; bool ok = a.Write("ref.igs", true); sym_assert(ok && vfs_get("ref.igs", t), "a valid model can be written"); long n = (long)t.size(); sym_assert(complete(t, n), "the file ends with the terminate record");
  bool old = sym_bool("old"), over = sym_bool("overwrite"); if (old) vfs_put("out.igs", "an old file\n");
  long space = sym_int("space", 0, 30000); bool fits = space >= n; vfs_space(space);
  ok = a.Write("out.igs", over); vfs_space(-1); bool ex = vfs_get("out.igs", t);
  if (old && !over) { sym_assert(!ok, "writing over an existing file without permission fails"); sym_assert(ex && t == "an old file\n", "an existing file is left alone"); sym_reach("kept"); }
  else { if (fits) sym_reach("fits"); else sym_reach("full"); sym_assert(ok == fits, "success is reported exactly if the whole file was written"); if (ok) sym_assert(ex && complete(t, n), "the file is complete"); }
  // a later attempt is not affected by the earlier one
  ok = a.Write("again.igs", true); sym_assert(ok && vfs_get("again.igs", t) && complete(t, t.size()) && t.size() % 81 == 0, "the model can be written after a failed attempt"); IGES b; sym_assert(b.Read("again.igs"), "a written file can be read back"); }

// the file cannot be opened
extern "C" void c15_open() {
  IGES a; model(a, 0); int k = sym_choice("case", 5); bool over = sym_bool("overwrite"); std::string t; const char* fn = "out.igs"; bool want = true;
  if (k == 0) { vfs_deny(fn, true); want = false; }
  if (k == 1) { vfs_put(fn, "precious\n"); vfs_noread(fn); want = over; }
  if (k == 2) { fn = ""; want = false; }
  if (k == 3) { std::string l(20000, 'o'); vfs_put(fn, l); want = over; }
  bool ok = a.Write(fn, over); sym_assert(ok == want, "writing succeeds exactly if the file may be written"); sym_reach(ok ? "written" : "refused");
  if (k == 1 && sym_engine()) { bool kept = vfs_get(fn, t) && t == "precious\n"; sym_assert(kept == !over, "an existing file is left alone unless overwriting was requested"); }
  if (k == 1) return;                                  // the user has changed
  if (k == 3 && !ok) { vfs_get(fn, t); sym_assert(t.size() == 20000, "an existing file is left alone unless overwriting was requested"); }
  if (ok) { vfs_get(fn, t); sym_assert(complete(t, t.size()) && t.size() % 81 == 0 && t.size() < 2000, "the file written replaces the old one completely"); IGES b; sym_assert(b.Read(fn), "a written file can be read back"); }
  ok = a.Write("other.igs", false); sym_assert(ok, "the model can be written after a failed attempt"); sym_assert(!a.Write("other.igs", false), "a second write does not overwrite"); sym_assert(a.Write("other.igs", true), "overwriting can be requested"); }

// nothing to write, or something that cannot be written
extern "C" void c15_model() {
  IGES a; int k = sym_choice("case", 4); bool old = sym_bool("old"); std::string t; if (old) vfs_put("out.igs", "precious\n");
  if (k == 1) { model(a, 0); fresh<IGES_ENTITY_128>(a, 128); }
  if (k == 2) { model(a, 0); fresh<IGES_ENTITY_126>(a, 126); }
  if (k == 3) { fresh<IGES_ENTITY_126>(a, 126); model(a, 0); }
  bool ok = a.Write("out.igs", sym_bool("overwrite")); sym_assert(!ok, "a model that cannot be written is reported"); bool ex = vfs_get("out.igs", t); sym_assert(ex == old && (!ex || t == "precious\n"), "no file is touched when the model cannot be written"); sym_reach("unwritable");
  if (k == 1 || k == 2) a.DelEntity(a.entities.back()); else if (k == 3) a.DelEntity(a.entities[0]); else mk110(a);
  sym_assert(a.Write("fine.igs", false), "the model can be written once the entity is gone"); IGES b; sym_assert(b.Read("fine.igs"), "a written file can be read back"); }
