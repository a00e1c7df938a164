#include "engine.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <ctime>
using namespace llvm;

typedef std::function<V(Engine&, const Inst&, const std::vector<V>&)> BF;
static std::vector<BF> g_bf; static std::vector<std::string> g_bn;
static std::map<std::string, int> g_bi; static bool g_init = false;
static std::unordered_map<Function*, int> g_cache;

static void reg(const std::string& n, BF f) { g_bi[n] = g_bf.size(); g_bf.push_back(f); g_bn.push_back(n); }
#define B(name) reg(name, [](Engine& e, const Inst& in, const std::vector<V>& a) -> V { (void)e; (void)in; (void)a;
#define END });

const Expr* Engine::freshVar(const std::string& nm, unsigned w, int kind, long lo, long hi) {
  static std::map<std::string, const Expr*> g;
  int k = S->names[nm]++;
  std::string full = nm + "#" + std::to_string(k);
  std::string key = full + "|" + std::to_string(w) + "|" + std::to_string(kind) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  auto it = g.find(key); const Expr* v;
  if (it != g.end()) v = it->second; else { v = mkVar(full, w, kind, lo, hi); g[key] = v; }
  S->vars.push_back(v->aux);
  return v;
}
static void constrain(Engine& e, const Expr* c) {   // add a constraint to the current state, fixing the model
  if (isConst(c)) { if (!c->val) throw PathEnd{PE_SILENT}; return; }
  Model m; SatR r = e.sat(e.S, c, &m);
  if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE};
  if (r == R_UNSAT) throw PathEnd{PE_SILENT};
  e.S->model = m; e.addCons(e.S, c);
}
// the declared bounds of a variable, stated for the solver (built without the range folding that already uses them)
static void rangeCons(Engine& e, const Expr* v, u64 lo, u64 hi) {
  unsigned w = v->width;
  if (hi < mask64(w)) e.addCons(e.S, mkRaw(K_ULE, v, mkConst(hi, w)));
  if (lo > 0) e.addCons(e.S, mkRaw(K_ULE, mkConst(lo, w), v)); }
struct DigGrp { std::vector<const Expr*> chars; V val; };
static std::map<std::pair<const Expr*, u64>, DigGrp> g_dig;
// the exact decimal numerator of a value: v = N / 10^j with N an integer-valued expression bounded by max
static bool decimalForm(const Expr* v, V& N, int& j, double& mx) {
  if (v->kind == K_FNEG) { if (!decimalForm(v->a, N, j, mx)) return false; N = opFUn(K_FNEG, N, 64); return true; }
  if (v->kind == K_POLY && v->psc > 0) {
    const Expr* p = polyInt(v); if (!p || !p->exactInt) return false; j = v->psc; if (j > 12) return false;
    double f = std::pow(5.0, j); mx = std::max(std::fabs(p->ilo), std::fabs(p->ihi)) * f; if (!(mx < 9e15)) return false;
    N = opFBin(K_FMUL, V(p), V(fromD(f)), 64); return true; }
  if (v->exactInt) { N = V(v); j = 0; mx = std::max(std::fabs(v->ilo), std::fabs(v->ihi)); return mx < 9e15; }
  if (v->kind == K_FDIV && v->a->exactInt && v->b->kind == K_CONST) {
    double d = asD((u64)v->b->val), t = 1; for (j = 0; j < 13; j++, t *= 10) if (d == t) { N = V(v->a); mx = std::max(std::fabs(v->a->ilo), std::fabs(v->a->ihi)); return mx < 1e15; } }
  return false; }
// values whose decimal digits are symbolic characters (sym_dec)
struct DecRec { std::vector<V> chars; int e10; };
static std::map<const Expr*, DecRec> g_decs; static std::map<const Expr*, const Expr*> g_digc, g_digx;
static bool decText(const Expr* v, int mode, int prec, std::vector<V>& t) {
  bool neg = false; while (v->kind == K_FNEG) { v = v->a; neg = !neg; }
  auto it = g_decs.find(v); if (it == g_decs.end()) { v = toE(opFUn(K_FNEG, V(v), 64), 64); it = g_decs.find(v); if (it == g_decs.end()) return false; neg = !neg; }
  std::vector<V> d = it->second.chars; int n = d.size(), X = it->second.e10 + n - 1;   // d[0].d[1].. * 10^X
  bool zs = mode == 0, fixed = mode == 1; int dec = prec;
  if (mode == 0) { int P = prec ? prec : 1; fixed = X < P && X >= -4; dec = fixed ? P - 1 - X : P - 1; }
  if ((fixed ? dec + X + 1 : dec + 1) < n) return false;                               // would be rounded
  auto dig = [&](int k) { return k >= 0 && k < n ? d[k] : V((u64)'0'); }; auto ch = [&](char c) { t.push_back(V((u64)(uint8_t)c)); };
  if (neg) ch('-');
  if (fixed) { if (X < 0) ch('0'); else for (int k = 0; k <= X; k++) t.push_back(dig(k)); } else t.push_back(dig(0));
  if (dec > 0) { ch('.'); for (int k = 0; k < dec; k++) t.push_back(dig((fixed ? X : 0) + 1 + k));
    if (zs) { while (t.back().isC() && t.back().c == '0') t.pop_back(); if (t.back().isC() && t.back().c == '.') t.pop_back(); } }
  if (!fixed) { char b[16]; snprintf(b, sizeof b, "e%c%02d", X < 0 ? '-' : '+', X < 0 ? -X : X); for (char* c = b; *c; c++) ch(*c); }
  return true; }
// the value that the text of v with the given precision denotes: v itself, or (path split on the magnitude) the rounded decimal
static const Expr* roundedText(Engine& e, const Expr* v, int mode, int prec) {
  V N; int j; double mx; if (!decimalForm(v, N, j, mx)) return v;
  V A = opFUn(K_FABS, N, 64); int m;
  if (mode == 1) { if (j <= prec) return v; m = j - prec; }
  else {
    int S = mode == 2 ? prec + 1 : prec ? prec : 1; double lim = std::pow(10.0, S); if (mx < lim) return v;
    if (e.branchHere(opFBin(K_FLT, A, V(fromD(lim)), 64))) return v;
    for (m = 1; ; m++) { lim *= 10; if (mx < lim || e.branchHere(opFBin(K_FLT, A, V(fromD(lim)), 64))) break; } }
  double u = std::pow(10.0, m); long qm = (long)(mx / u) + 2;
  static std::map<std::tuple<const Expr*, int, int>, const Expr*> rv; const Expr*& q = rv[std::make_tuple(v, m, (int)j)]; if (!q) q = e.freshVar("__round" + std::to_string(rv.size()), 64, 1, -qm, qm);
  V Q = opFBin(K_FMUL, V(q), V(fromD(u)), 64), D = opFUn(K_FABS, opFBin(K_FSUB, N, Q, 64), 64);
  V c = opFBin(K_FLE, opFBin(K_FMUL, D, V(fromD(2.0)), 64), V(fromD(u)), 64);
  if (c.isC()) { if (!c.c) throw PathEnd{PE_SILENT}; } else constrain(e, c.e);
  V r = m >= j ? opFBin(K_FMUL, V(q), V(fromD(std::pow(10.0, m - j))), 64) : opFBin(K_FDIV, V(q), V(fromD(std::pow(10.0, j - m))), 64);
  return toE(r, 64); }
// a unique decimal number standing for the text of a symbolic value (see DESIGN.md)
static double tokenFor(Engine& e, const Expr* v, int mode, int prec) {
  v = roundedText(e, v, mode, prec);
  if (isConst(v)) return asD((u64)v->val);
  for (auto& t : e.S->tokens) if (t.second == (u64)v) return asD(t.first);
  unsigned k = e.S->tokens.size() + 1; double d; k += k / 9; while (k % 10 == 0) k++;
  int sig = mode == 1 ? prec : mode == 2 ? prec : prec - 1; if (sig < 3) e.engineError("precision too small for a token");
  for (;;) { if (k % 10 == 0) { k++; continue; } d = (1000.0 + k) / 1000.0; if (k > 999) { if (sig < 5) e.engineError("too many tokens"); d = (100000.0 + k) / 100000.0; } if (!e.S->tokens.count(fromD(d))) break; k++; }
  e.S->tokens[fromD(d)] = (u64)v; return d; }
static V memcmpB(Engine& e, const std::vector<V>& a) {
  u64 n = e.concretize(a[2], 64); if (!n) return V((u64)0);
  u64 p = e.concretize(a[0], 64), q = e.concretize(a[1], 64); u64 po, qo;
  Obj* x = e.access(p, n, false, po, "read"); Obj* y = e.access(q, n, false, qo, "read");
  const Expr* r = nullptr;
  // first concrete difference
  if (!x->sym && !y->sym) { int c = memcmp(x->data + po, y->data + qo, n); return V((u64)(uint32_t)(c < 0 ? -1 : c > 0 ? 1 : 0)); }
  r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) {
    V u = e.loadObj(x, po + i, 1), w = e.loadObj(y, qo + i, 1);
    if (u.isC() && w.isC()) { if (u.c != w.c) r = mkConst(u.c < w.c ? 0xffffffffu : 1, 32); continue; }
    const Expr *U = toE(u, 8), *W = toE(w, 8);
    r = mkIte(mkBin(K_EQ, U, W), r, mkIte(mkBin(K_ULT, U, W), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  }
  return simp(r);
}
static V fun1(Kind k, const V& a, unsigned w) { return opFUn(k, a, w); }
static V uf(const char* n, const V& a, const V* b = nullptr) {
  unsigned f = ufIndex(n);
  if (a.isC() && (!b || b->isC())) { bool ok; return V(fromD(ufConcrete(f, asD(a.c), b ? asD(b->c) : 0, ok))); }
  return simp(mkUF(f, toE(a, 64), b ? toE(*b, 64) : nullptr));
}
static void setTm(Engine& e, u64 p, const struct tm& t) {
  int f[9] = { t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_isdst };
  for (int i = 0; i < 9; i++) e.store(V(p + 4 * i), V((u64)(uint32_t)f[i]), 4);
  e.store(V(p + 40), V((u64)0), 8); e.store(V(p + 48), V((u64)0), 8);
}

static void initB() {
  g_init = true;
  // --- allocation
  for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) {
    uint8_t how = !strcmp(n, "malloc") ? 0 : strstr(n, "_Znw") ? 1 : 2;
    reg(n, [how](Engine& e, const Inst&, const std::vector<V>& a) -> V { u64 s = e.concretize(a[0], 64); if (s > (1u << 26)) e.violation("memory", "allocation of an absurd size"); return V(e.newHeap(s, how, "heap")); });
  }
  B("calloc") u64 n = e.concretize(a[0], 64) * e.concretize(a[1], 64); u64 p = e.newHeap(n, 0, "heap"); e.memSet(V(p), V((u64)0), n); return V(p); END
  B("realloc") u64 p = e.concretize(a[0], 64), n = e.concretize(a[1], 64); u64 q = e.newHeap(n, 0, "heap"); if (p) { u64 off; Obj* o = e.access(p, 0, false, off, "read"); u64 c = std::min<u64>(n, o->size); e.memCopy(V(q), V(p), c); e.freeHeap(V(p), 0); } return V(q); END
  B("free") e.freeHeap(a[0], 0); return V(); END
  B("_ZdlPv") e.freeHeap(a[0], 1); return V(); END
  B("_ZdlPvm") e.freeHeap(a[0], 1); return V(); END
  B("_ZdaPv") e.freeHeap(a[0], 2); return V(); END
  B("_ZdaPvm") e.freeHeap(a[0], 2); return V(); END
  // --- memory
  for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"})
    reg(n, [](Engine& e, const Inst&, const std::vector<V>& a) -> V { u64 k = e.concretize(a[2], 64); e.memCopy(a[0], a[1], k); return a[0]; });
  for (const char* n : {"llvm.memset", "memset"})
    reg(n, [](Engine& e, const Inst& in, const std::vector<V>& a) -> V { u64 k = e.concretize(a[2], 64); V v = a[1]; if (v.e && v.e->width > 8) v = opExtract(v, v.e->width, 0, 8); else if (v.isC()) v.c &= 255; e.memSet(a[0], v, k); return a[0]; });
  B("memcmp") return memcmpB(e, a); END
  B("bcmp") return memcmpB(e, a); END
  B("strlen") u64 p = e.concretize(a[0], 64); u64 n = 0; for (;; n++) { V c = e.load(V(p + n), 1); if (c.isC()) { if (!c.c) break; } else { if (e.branchHere(opBin(K_EQ, c, V((u64)0), 8))) break; } } return V(n); END
  B("memchr") u64 p = e.concretize(a[0], 64), n = e.concretize(a[2], 64); V ch = a[1].isC() ? V(a[1].c & 255) : opExtract(a[1], 32, 0, 8);
    for (u64 i = 0; i < n; i++) { V c = e.load(V(p + i), 1); V q = opBin(K_EQ, c, ch, 8); if (e.branchHere(q)) return V(p + i); } return V((u64)0); END
  B("strcmp") u64 p = e.concretize(a[0], 64), q = e.concretize(a[1], 64); for (u64 i = 0;; i++) { V x = e.load(V(p + i), 1), y = e.load(V(q + i), 1); if (!e.branchHere(opBin(K_EQ, x, y, 8))) { return e.branchHere(opBin(K_ULT, x, y, 8)) ? V((u64)0xffffffffu) : V((u64)1); } if (e.branchHere(opBin(K_EQ, x, V((u64)0), 8))) return V((u64)0); } END
  // --- intrinsics without effect
  for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.stackrestore", "llvm.donothing", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "__cxa_guard_abort", "__cxa_guard_release", "llvm.va_end"})
    reg(n, [](Engine&, const Inst&, const std::vector<V>&) -> V { return V((u64)0); });
  B("llvm.stacksave") return V((u64)0); END
  B("llvm.expect") return a[0]; END
  B("llvm.launder.invariant.group") return a[0]; END
  B("llvm.strip.invariant.group") return a[0]; END
  B("llvm.threadlocal.address") return a[0]; END
  B("llvm.objectsize") return V(a[1].c & 1 ? (u64)0 : ~(u64)0); END
  B("llvm.is.constant") return V((u64)0); END
  B("llvm.trap") e.violation("abort", "trap executed"); return V(); END
  B("llvm.ubsantrap") e.violation("arith", "undefined behaviour trap (signed overflow or float cast overflow)"); return V(); END
  B("llvm.eh.typeid.for") return V((u64)e.typeIdFor(a[0].c)); END
  auto cmpsel = [](Kind k, bool swap) { return [k, swap](Engine&, const Inst& in, const std::vector<V>& a) -> V {
      auto one = [&](const V& x, const V& y, unsigned w) { V c = opBin(k, x, y, w); return swap ? opIte(c, y, x, w) : opIte(c, x, y, w); };
      if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(one((*a[0].e->agg)[i], (*a[1].e->agg)[i], in.w)); return mkAgg(v); }
      return one(a[0], a[1], in.w); }; };
  reg("llvm.umin", cmpsel(K_ULT, false)); reg("llvm.umax", cmpsel(K_ULT, true)); reg("llvm.smin", cmpsel(K_SLT, false)); reg("llvm.smax", cmpsel(K_SLT, true));
  B("llvm.abs") V n = opBin(K_SUB, V((u64)0), a[0], in.w); return opIte(opBin(K_SLT, a[0], V((u64)0), in.w), n, a[0], in.w); END
  auto ovf = [](Kind k, bool sg) { return [k, sg](Engine&, const Inst& in, const std::vector<V>& a) -> V {
      unsigned w = cast<CallBase>(in.I)->getArgOperand(0)->getType()->getIntegerBitWidth();
      V r = opBin(k, a[0], a[1], w); unsigned W = k == K_MUL ? 2 * w : w + 1;
      const Expr* x = sg ? mkSExt(toE(a[0], w), W) : mkZExt(toE(a[0], w), W); const Expr* y = sg ? mkSExt(toE(a[1], w), W) : mkZExt(toE(a[1], w), W);
      const Expr* full = mkBin(k, x, y); const Expr* back = sg ? mkSExt(toE(r, w), W) : mkZExt(toE(r, w), W);
      return mkAgg({r, simp(mkNot(mkBin(K_EQ, full, back)))}); }; };
  reg("llvm.uadd.with.overflow", ovf(K_ADD, false)); reg("llvm.sadd.with.overflow", ovf(K_ADD, true)); reg("llvm.usub.with.overflow", ovf(K_SUB, false)); reg("llvm.ssub.with.overflow", ovf(K_SUB, true)); reg("llvm.umul.with.overflow", ovf(K_MUL, false)); reg("llvm.smul.with.overflow", ovf(K_MUL, true));
  B("llvm.usub.sat") V c = opBin(K_ULT, a[0], a[1], in.w); return opIte(c, V((u64)0), opBin(K_SUB, a[0], a[1], in.w), in.w); END
  B("llvm.uadd.sat") V r = opBin(K_ADD, a[0], a[1], in.w); return opIte(opBin(K_ULT, r, a[0], in.w), V(mask64(in.w)), r, in.w); END
  B("llvm.fshl") unsigned w = in.w; V s = opBin(K_UREM, a[2], V((u64)w), w); V l = opBin(K_SHL, a[0], s, w); V r = opBin(K_LSHR, a[1], opBin(K_SUB, V((u64)w), s, w), w); return opIte(opBin(K_EQ, s, V((u64)0), w), a[0], opBin(K_OR, l, r, w), w); END
  B("llvm.fshr") unsigned w = in.w; V s = opBin(K_UREM, a[2], V((u64)w), w); V l = opBin(K_SHL, a[0], opBin(K_SUB, V((u64)w), s, w), w); V r = opBin(K_LSHR, a[1], s, w); return opIte(opBin(K_EQ, s, V((u64)0), w), a[1], opBin(K_OR, l, r, w), w); END
  B("llvm.ctlz") unsigned w = in.w; if (a[0].isC()) { u64 x = a[0].c; unsigned n = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); --i) n++; return V((u64)n); } const Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r); return simp(r); END
  B("llvm.cttz") unsigned w = in.w; if (a[0].isC()) { u64 x = a[0].c; unsigned n = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); ++i) n++; return V((u64)n); } const Expr* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r); return simp(r); END
  B("llvm.ctpop") unsigned w = in.w; if (a[0].isC()) return V((u64)__builtin_popcountll(a[0].c)); const Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(a[0].e, i, 1), w)); return simp(r); END
  B("llvm.bswap") unsigned w = in.w; const Expr* x = toE(a[0], w); const Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { const Expr* q = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, q) : q; } return simp(r); END
  // --- floating point
  for (const char* n : {"llvm.fabs", "fabs"}) reg(n, [](Engine& e, const Inst& in, const std::vector<V>& a) -> V {
    V r = fun1(K_FABS, a[0], in.w);
    if (r.isC() || in.w != 64 || r.e->kind != K_FABS || r.e->a->hasUF) return r;
    V neg = opFBin(K_FLT, a[0], V(fromD(0.0)), 64);      // split on the sign
    bool t = neg.isC() ? neg.c & 1 : e.branchHere(neg);
    return t ? fun1(K_FNEG, a[0], in.w) : a[0]; });
  for (const char* n : {"llvm.sqrt", "sqrt"}) reg(n, [](Engine& e, const Inst& in, const std::vector<V>& a) -> V {
    V r = fun1(K_FSQRT, a[0], in.w);
    if (r.isC() || in.w != 64 || r.e->kind != K_FABS || !r.e->a->poly) return r;
    V p(r.e->a), neg = opFBin(K_FLT, p, V(fromD(0.0)), 64);      // the root of a perfect square: split on the sign
    bool t = neg.isC() ? neg.c & 1 : e.branchHere(neg);
    return t ? fun1(K_FNEG, p, in.w) : p; });
  for (const char* n : {"llvm.floor", "floor"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return fun1(K_FFLOOR, a[0], in.w); });
  for (const char* n : {"llvm.ceil", "ceil"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return fun1(K_FCEIL, a[0], in.w); });
  for (const char* n : {"llvm.trunc.f", "trunc"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return fun1(K_FTRUNC, a[0], in.w); });
  for (const char* n : {"llvm.round", "round"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return fun1(K_FROUND, a[0], in.w); });
  for (const char* n : {"llvm.rint", "llvm.nearbyint", "rint", "nearbyint"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return fun1(K_FRINT, a[0], in.w); });
  for (const char* n : {"llvm.minnum", "fmin"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return opIte(opBin(K_OR, opFBin(K_FLT, a[0], a[1], in.w), opFBin(K_FUNO, a[1], a[1], in.w), 1), a[0], a[1], in.w); });
  for (const char* n : {"llvm.maxnum", "fmax"}) reg(n, [](Engine&, const Inst& in, const std::vector<V>& a) -> V { return opIte(opBin(K_OR, opFBin(K_FLT, a[1], a[0], in.w), opFBin(K_FUNO, a[1], a[1], in.w), 1), a[0], a[1], in.w); });
  B("llvm.fmuladd") return opFBin(K_FADD, opFBin(K_FMUL, a[0], a[1], in.w), a[2], in.w); END
  B("llvm.copysign") V m = opBin(K_AND, a[0], V(mask64(in.w) >> 1), in.w), s = opBin(K_AND, a[1], V((u64)1 << (in.w - 1)), in.w); return opBin(K_OR, m, s, in.w); END
  B("llvm.is.fpclass") unsigned w = cast<CallBase>(in.I)->getArgOperand(0)->getType()->isDoubleTy() ? 64 : 32; u64 mask = a[1].c; V r((u64)0);
    auto add = [&](V c) { r = opBin(K_OR, r, c, 1); }; V neg = opExtract(a[0], w, w - 1, 1), pos = opNot1(neg); V ab = opBin(K_AND, a[0], V(mask64(w) >> 1), w); u64 inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull; u64 mn = w == 64 ? 0x0010000000000000ull : 0x00800000ull;
    if (mask & 3) add(opBin(K_ULT, V(inf), ab, w));
    V isInf = opBin(K_EQ, ab, V(inf), w), isZ = opBin(K_EQ, ab, V((u64)0), w), isSub = opBin(K_AND, opBin(K_ULT, ab, V(mn), w), opNot1(isZ), 1), isNorm = opBin(K_AND, opBin(K_ULE, V(mn), ab, w), opBin(K_ULT, ab, V(inf), w), 1);
    auto bit = [&](int b, V c, V s) { if (mask >> b & 1) add(opBin(K_AND, c, s, 1)); };
    bit(2, isInf, neg); bit(3, isNorm, neg); bit(4, isSub, neg); bit(5, isZ, neg); bit(6, isZ, pos); bit(7, isSub, pos); bit(8, isNorm, pos); bit(9, isInf, pos); return r; END
  for (const char* n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "cbrt"}) {
    reg(n, [n](Engine&, const Inst&, const std::vector<V>& a) -> V { return uf(n, a[0]); });
    std::string l = std::string("llvm.") + n; reg(l, [n](Engine&, const Inst&, const std::vector<V>& a) -> V { return uf(n, a[0]); });
  }
  for (const char* n : {"atan2", "llvm.atan2"}) reg(n, [](Engine& e, const Inst& in, const std::vector<V>& a) -> V {
    // the angle of a multiple of a fixed direction is that of the direction (split on the sign of the multiple)
    auto zero = [](const V& v) { return v.isC() && v.c == 0; };
    auto split = [&](const V& c) { return c.isC() ? (bool)(c.c & 1) : e.branchHere(c); };
    V z(fromD(0.0));
    if (zero(a[1]) && a[0].e && a[0].e->poly) { if (split(opFBin(K_FLT, z, a[0], 64))) return V(fromD(atan2(1.0, 0.0))); if (split(opFBin(K_FLT, a[0], z, 64))) return V(fromD(atan2(-1.0, 0.0))); return z; }
    if (a[1].e && a[1].e->poly) { const Expr* r = zero(a[0]) ? nullptr : polyRatio(toE(a[0], 64), a[1].e); if (zero(a[0]) || (r && isConst(r))) { double q = zero(a[0]) ? 0 : asD((u64)r->val); if (split(opFBin(K_FLT, z, a[1], 64))) return V(fromD(atan2(q, 1.0))); if (split(opFBin(K_FLT, a[1], z, 64))) return V(fromD(zero(a[0]) ? atan2(0.0, -1.0) : atan2(-q, -1.0))); return z; } }
    return uf("atan2", a[0], &a[1]); });
  for (const char* n : {"pow", "hypot", "fmod"}) { reg(n, [n](Engine&, const Inst&, const std::vector<V>& a) -> V { return uf(n, a[0], &a[1]); }); reg(std::string("llvm.") + n, [n](Engine&, const Inst&, const std::vector<V>& a) -> V { return uf(n, a[0], &a[1]); }); }
  // --- C++ runtime
  B("__cxa_guard_acquire") u64 p = a[0].c; V g = e.load(V(p), 1); if (g.isC() && g.c) return V((u64)0); e.store(V(p), V((u64)1), 1); return V((u64)1); END
  B("__cxa_atexit") return V((u64)0); END
  B("__cxa_pure_virtual") e.violation("abort", "pure virtual function called"); return V(); END
  B("__cxa_allocate_exception") u64 n = e.concretize(a[0], 64); return V(e.newHeap(n, 9, "exception")); END
  B("__cxa_free_exception") e.freeHeap(a[0], 9); return V(); END
  B("__cxa_throw") e.S->inflight.obj = a[0].c; e.S->inflight.tinfo = a[1].c; e.S->excType[a[0].c] = a[1].c; e.unwind(); e.builtinTookControl = true; return V(); END
  B("__cxa_begin_catch") u64 o = e.concretize(a[0], 64); ExcRec r; r.obj = o; r.tinfo = e.S->excType[o]; e.S->caught.push_back(r); return V(o); END
  B("__cxa_get_exception_ptr") return a[0]; END
  B("__cxa_end_catch") if (!e.S->caught.empty()) e.S->caught.pop_back(); return V(); END
  B("__cxa_rethrow") if (e.S->caught.empty()) e.violation("abort", "rethrow without exception"); e.S->inflight = e.S->caught.back(); e.unwind(); e.builtinTookControl = true; return V(); END
  B("_ZSt9terminatev") e.violation("abort", "std::terminate called"); return V(); END
  B("abort") e.violation("abort", "abort called"); return V(); END
  B("exit") throw PathEnd{PE_DONE}; return V(); END
  B("__assert_fail") e.violation("abort", "assertion failed: " + e.readCStr(a[0].c)); return V(); END
  // --- harness interface
  B("__sym_var") std::string n = e.readCStr(a[0].c); unsigned w = (unsigned)a[1].c; const Expr* v = e.freshVar(n, w); return opZExt(V(v), w, 64); END
  B("__sym_rvar") std::string n = e.readCStr(a[0].c); unsigned w = (unsigned)a[1].c; u64 lo = a[2].c, hi = a[3].c; if (lo == hi) { e.S->names[n]++; return V(lo); }
    const Expr* v = e.freshVar(n, w, 0, (long)lo, (long)hi); e.S->model[v->aux] = lo; rangeCons(e, v, lo, hi); return opZExt(V(v), w, 64); END
  B("__sym_intreal") std::string n = e.readCStr(a[0].c); return V(e.freshVar(n, 64, 1, (long)a[1].c, (long)a[2].c)); END
  B("__sym_double") std::string n = e.readCStr(a[0].c); return V(e.freshVar(n, 64)); END
  B("__sym_assume") V c = a[0].isC() ? V((u64)(a[0].c != 0)) : opNot1(opBin(K_EQ, a[0], V((u64)0), a[0].e->width)); if (c.isC()) { if (!c.c) throw PathEnd{PE_SILENT}; return V(); } constrain(e, c.e); return V(); END
  B("__sym_assert") std::string msg = e.readCStr(a[1].c); e.asserts[msg]++; V c = a[0].isC() ? V((u64)(a[0].c != 0)) : opNot1(opBin(K_EQ, a[0], V((u64)0), a[0].e->width));
    if (c.isC()) { if (!c.c) e.violation("assert", msg); return V(); }
    Model m; SatR r = e.sat(e.S, mkNot(c.e), &m); if (r == R_UNKNOWN) { e.note("unknown on assertion " + msg); throw PathEnd{PE_ENGINE}; }
    if (r == R_SAT) { e.report("assert", msg, m); Model m2; if (e.sat(e.S, c.e, &m2) != R_SAT) throw PathEnd{PE_VIOLATION}; e.S->model = m2; e.addCons(e.S, c.e); }
    return V(); END
  B("__sym_reach") std::string l = e.readCStr(a[0].c); e.reached[l]++; e.S->trail.push_back(l); return V(); END
  B("__sym_param") std::string n = e.readCStr(a[0].c); auto it = e.params.find(n); return V((u64)(it == e.params.end() ? (long)a[1].c : it->second)); END
  B("__sym_engine") return V((u64)1); END
  B("__sym_is_sym") return V((u64)(a[0].isC() ? 0 : 1)); END
  B("__sym_is_symd") return V((u64)(a[0].isC() ? 0 : 1)); END
  B("__sym_mem_is_sym") u64 n = e.concretize(a[1], 64); if (!n) return V((u64)0); u64 off; Obj* o = e.access(e.concretize(a[0], 64), n, false, off, "read"); if (o->sym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) return V((u64)1); return V((u64)0); END
  B("__sym_concretize") return V(e.concretize(a[0], 64)); END
  B("__sym_fresh_mem") u64 n = a[1].c; u64 p = e.concretize(a[0], 64); std::string nm = e.readCStr(a[2].c); for (u64 i = 0; i < n; i++) e.store(V(p + i), V(e.freshVar(nm, 8)), 1); return V(); END
  B("__sym_note") std::string s = e.readCStr(a[0].c); e.S->notes.push_back(s); if (e.verbose > 1) fprintf(stderr, "note: %s\n", s.c_str()); return V(); END
  B("__sym_print") if (e.verbose) { std::string s = e.readCStr(a[0].c); if (a[1].isC()) fprintf(stderr, "print: %s %lld\n", s.c_str(), (long long)a[1].c); else fprintf(stderr, "print: %s %s\n", s.c_str(), exprStr(a[1].e, 8).c_str()); } return V(); END
  B("__sym_silent") throw PathEnd{PE_SILENT}; return V(); END
  B("__sym_fail_engine") e.engineError("harness: " + e.readCStr(a[0].c)); return V(); END
  // digits of a non negative symbolic value known to have exactly n decimal digits
  B("__sym_digits") u64 n = e.concretize(a[1], 64), p = e.concretize(a[2], 64);
    if (a[0].isC()) { u64 v = a[0].c; for (u64 i = n; i-- > 0;) { e.store(V(p + i), V((u64)('0' + v % 10)), 1); v /= 10; } return V(); }
    unsigned W = n <= 9 ? 32 : 64; const Expr* v = W == 32 ? mkExtract(toE(a[0], 64), 0, 32) : a[0].e; const Expr* sum = nullptr; u64 pw = 1; std::vector<const Expr*> ds(n); std::vector<const Expr*> cs;
    u128 val; { Evaluator ev(e.S->model); if (!ev.eval(v, val)) e.engineError("digits of uninterpreted value"); }
    for (u64 i = n; i-- > 0;) { std::string nm = "dig" + std::to_string(v->id) + "_" + std::to_string(i); e.S->names[nm] = 0; ds[i] = e.freshVar(nm, 8, 0, 0, 9); e.S->vars.pop_back();
      cs.push_back(mkRaw(K_ULE, ds[i], mkConst(9, 8))); const Expr* t = mkBin(K_MUL, mkZExt(ds[i], W), mkConst(pw, W)); sum = sum ? mkBin(K_ADD, t, sum) : t; pw *= 10;
      e.S->model[ds[i]->aux] = val % 10; val /= 10; }
    cs.push_back(mkRaw(K_EQ, sum, v));
    for (auto c : cs) e.addCons(e.S, c);
    DigGrp g; g.val = a[0];
    for (u64 i = 0; i < n; i++) { const Expr* ch = mkBin(K_ADD, ds[i], mkConst('0', 8)); g.chars.push_back(ch); e.store(V(p + i), simp(ch), 1); }
    g_dig[{g.chars[0], n}] = g;
    return V(); END
  // the value of n digit characters when they are exactly the digits written by __sym_digits for one value
  B("__sym_undigits") u64 p = e.concretize(a[0], 64), n = e.concretize(a[1], 64); V c0 = e.load(V(p), 1); if (c0.isC()) return V((u64)0);
    auto it = g_dig.find({c0.e, n}); if (it == g_dig.end()) return V((u64)0);
    for (u64 i = 0; i < n; i++) { V c = e.load(V(p + i), 1); if (c.isC() || c.e != it->second.chars[i]) return V((u64)0); }
    e.store(a[2], it->second.val, 8); return V((u64)1); END
  // a value given by its decimal digits: a[0] value, a[1] array of digit values, a[2] count, a[3] exponent of the last digit
  B("__sym_regdec") DecRec r; r.e10 = (int)(int64_t)a[3].c; if (a[0].isC()) return V();
    for (u64 i = 0; i < a[2].c; i++) { V x = e.load(V(a[1].c + 8 * i), 8); if (x.isC()) r.chars.push_back(V((u64)(uint8_t)('0' + (int)asD(x.c))));
      else { auto& c = g_digc[x.e]; if (!c) { std::string nm = "dch" + std::to_string(x.e->id); e.S->names[nm] = 0; c = e.freshVar(nm, 8, 0, '1', '9'); e.S->vars.pop_back(); g_digx[c] = x.e; } r.chars.push_back(V(c)); } }
    g_decs[a[0].e] = r; return V(); END
  // the value of digit characters, each concrete or from a value registered above, times 10^e10; stores 1 on success
  B("__sym_undec") u64 n = e.concretize(a[1], 64), p0 = e.concretize(a[0], 64); int ex = (int)(int64_t)e.concretize(a[2], 64); V m((u64)fromD(0.0)); e.store(a[3], V((u64)0), 8); if (ex > 22 || ex < -22) return m;
    for (u64 i = 0; i < n; i++) { V c = e.load(V(p0 + i), 1); V d; if (c.isC()) d = V(fromD((double)(c.c - '0'))); else { auto it = g_digx.find(c.e); if (it == g_digx.end()) return m; d = V(it->second); }
      m = opFBin(K_FADD, opFBin(K_FMUL, m, V(fromD(10.0)), 64), d, 64); }
    if (ex > 0) m = opFBin(K_FMUL, m, V(fromD(std::pow(10.0, ex))), 64); if (ex < 0) m = opFBin(K_FDIV, m, V(fromD(std::pow(10.0, -ex))), 64);
    e.store(a[3], V((u64)1), 8); return m; END
  // formatting of doubles. mode: 0 %g, 1 %f, 2 %e
  B("__sym_fmtd") u64 buf = e.concretize(a[0], 64), cap = a[1].c; int prec = (int)e.concretize(a[2], 32); int mode = (int)a[3].c; double d; char tmp[512];
    if (a[4].isC()) d = asD(a[4].c);
    else {
      std::vector<V> t; if (decText(a[4].e, mode, prec, t)) { if (t.size() >= cap) e.engineError("text of a number"); for (size_t i = 0; i < t.size(); i++) e.store(V(buf + i), t[i], 1); e.store(V(buf + t.size()), V((u64)0), 1); return V((u64)t.size()); }
      d = tokenFor(e, a[4].e, mode, prec);
    }
    const char* fm = mode == 0 ? "%.*g" : mode == 1 ? "%.*f" : "%.*e"; int n = snprintf(tmp, sizeof tmp, fm, prec, d); if (n >= (int)cap) n = (int)cap - 1;
    for (int i = 0; i < n; i++) e.store(V(buf + i), V((u64)(uint8_t)tmp[i]), 1); e.store(V(buf + n), V((u64)0), 1); return V((u64)n); END
  // sprintf family; numbers must be concrete, strings may hold symbolic bytes
  { auto fmtImpl = [](Engine& e, const std::vector<V>& a, u64 dst, bool lim, u64 cap, size_t fi) -> V {
      std::string f = e.readCStr(e.concretize(a[fi], 64)); size_t ai = fi + 1; u64 n = 0;
      auto put = [&](const V& c) { if (!lim || n + 1 < cap) e.store(V(dst + n), c, 1); n++; };
      auto puts = [&](const std::string& t) { for (char c : t) put(V((u64)(uint8_t)c)); };
      for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { put(V((u64)(uint8_t)f[i])); continue; }
        if (f[i + 1] == '%') { put(V((u64)'%')); i++; continue; }
        std::string sp = "%"; i++; bool lng = false; std::string flagw; int prec = -1; bool hasPrec = false;
        while (i < f.size() && strchr("-+ #0123456789.*lhzj", f[i])) {
          if (f[i] == '*') { int k = (int)e.concretize(a.at(ai++), 32); sp += std::to_string(k); if (hasPrec) prec = k; }
          else if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') lng = true; else if (f[i] == 'h') {}
          else { sp += f[i]; if (f[i] == '.') { hasPrec = true; prec = 0; } else if (hasPrec) prec = prec * 10 + (f[i] - '0'); }
          i++; }
        char cv = f[i]; char tmp[600];
        if (cv == 's') { if (sp.find_first_of("-+ #123456789") < sp.find('.')) e.engineError("sprintf string width"); u64 p = e.concretize(a.at(ai++), 64);
          for (int k = 0; prec < 0 || k < prec; k++) { V c = e.load(V(p + k), 1); if (c.isC()) { if (!c.c) break; } else if (e.branchHere(opBin(K_EQ, c, V((u64)0), 8))) break; put(c); } }
        else if (cv == 'c') put(opExtract(a.at(ai), a[ai].isC() ? 32 : a[ai].e->width, 0, 8)), ai++;
        else if (strchr("dioxXu", cv)) { V v = a.at(ai++); if (!v.isC()) v = V(e.concretize(v, v.e->width)); if (lng) { sp += "l"; sp += cv; snprintf(tmp, sizeof tmp, sp.c_str(), (long)v.c); } else { sp += cv; snprintf(tmp, sizeof tmp, sp.c_str(), (int)v.c); } puts(tmp); }
        else if (strchr("fFeEgG", cv)) { V v = a.at(ai++); double d = v.isC() ? asD(v.c) : tokenFor(e, v.e, cv == 'f' || cv == 'F' ? 1 : cv == 'e' || cv == 'E' ? 2 : 0, prec < 0 ? 6 : prec); sp += cv; snprintf(tmp, sizeof tmp, sp.c_str(), d); puts(tmp); }
        else e.engineError("sprintf conversion");
      }
      if (!lim || cap) e.store(V(dst + (lim && n >= cap ? cap - 1 : n)), V((u64)0), 1);
      return V(n & 0xffffffffu); };
    reg("sprintf", [fmtImpl](Engine& e, const Inst&, const std::vector<V>& a) -> V { return fmtImpl(e, a, e.concretize(a[0], 64), false, 0, 1); });
    reg("snprintf", [fmtImpl](Engine& e, const Inst&, const std::vector<V>& a) -> V { return fmtImpl(e, a, e.concretize(a[0], 64), true, e.concretize(a[1], 64), 2); });
  }
  // strtod on a concrete nul-terminated text; returns value, stores consumed length
  B("__sym_strtodc") std::string s = e.readCStr(e.concretize(a[0], 64)); char* end; double d = strtod(s.c_str(), &end); e.store(a[1], V((u64)(end - s.c_str())), 8);
    auto it = e.S->tokens.find(fromD(d)); if (it != e.S->tokens.end()) return V((const Expr*)it->second);
    it = e.S->tokens.find(fromD(-d)); if (it != e.S->tokens.end()) return opFUn(K_FNEG, V((const Expr*)it->second), 64);
    return V(fromD(d)); END
  B("__sym_gmtime") time_t t = (time_t)a[0].c; struct tm tt; memset(&tt, 0, sizeof tt); gmtime_r(&t, &tt); setTm(e, a[1].c, tt); return V(); END
  B("__sym_isheap_live") u64 p = e.concretize(a[0], 64); uint32_t id; Obj* o = e.findObj(p, false, id); return V((u64)(o && !o->freed)); END
}

int Engine::builtinIndex(Function* f) {
  if (!g_init) initB();
  auto it = g_cache.find(f); if (it != g_cache.end()) return it->second;
  std::string n = f->getName().str(); int r = -1;
  auto x = g_bi.find(n);
  if (x != g_bi.end()) r = x->second;
  else if (n.compare(0, 5, "llvm.") == 0) {
    // strip type suffixes
    std::string s = n;
    if (s.compare(0, 11, "llvm.trunc.") == 0) s = "llvm.trunc.f";
    for (;;) { auto y = g_bi.find(s); if (y != g_bi.end()) { r = y->second; break; } size_t p = s.rfind('.'); if (p == std::string::npos || p <= 4) break; s = s.substr(0, p); }
  }
  if (r < 0) {
    r = g_bf.size();
    reg("?" + n, [n](Engine& e, const Inst&, const std::vector<V>&) -> V { e.engineError("call to unmodelled external function " + llvm::StringRef(n).str()); return V(); });
  }
  g_cache[f] = r; return r;
}
int Engine::overrideIndex(Function*) { return -1; }
V Engine::callBuiltin(int bi, const Inst& in, const std::vector<V>& a) { return g_bf[bi](*this, in, a); }
