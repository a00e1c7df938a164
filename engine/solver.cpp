#include "solver.h"
#include <z3.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <algorithm>
#include <chrono>

SolverStats g_ss;
static Z3_context C;
static unsigned g_timeout;
static Z3_sort FP64, FP32, INTS, REALS;
static Z3_ast RNE, RTZ, RTP, RTN, RNA;
static bool g_err = false;

static void onErr(Z3_context c, Z3_error_code e) { g_err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

void solverInit(unsigned t) {
  g_timeout = t;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  FP64 = Z3_mk_fpa_sort_64(C); FP32 = Z3_mk_fpa_sort_32(C); INTS = Z3_mk_int_sort(C); REALS = Z3_mk_real_sort(C);
  RNE = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C); RTP = Z3_mk_fpa_rtp(C); RTN = Z3_mk_fpa_rtn(C); RNA = Z3_mk_fpa_rna(C);
}

static std::unordered_map<const Expr*, Z3_ast> mBV, mBool, mFP, mNum;
static Z3_ast toBV(const Expr* e); static Z3_ast toBool(const Expr* e); static Z3_ast toFP(const Expr* e); static Z3_ast toNum(const Expr* e);

static Z3_ast bvNum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, w));
  char buf[64]; int n = 0; u128 x = v; char t[64]; if (!x) t[n++] = '0'; while (x) { t[n++] = '0' + (int)(x % 10); x /= 10; }
  for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i]; buf[n] = 0;
  return Z3_mk_numeral(C, buf, Z3_mk_bv_sort(C, w));
}
static Z3_ast varAst(const Expr* e) {
  const VarInfo& vi = g_vars[e->aux];
  std::string nm = "v" + std::to_string(e->aux);
  Z3_symbol s = Z3_mk_string_symbol(C, nm.c_str());
  return Z3_mk_const(C, s, vi.kind == 1 ? INTS : Z3_mk_bv_sort(C, vi.width));
}
static Z3_ast ufApp(const Expr* e) {
  std::string n = "uf_" + g_ufNames[e->aux];
  Z3_sort dom[2] = { FP64, FP64 };
  Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), e->b ? 2 : 1, dom, FP64);
  Z3_ast args[2]; args[0] = toFP(e->a); if (e->b) args[1] = toFP(e->b);
  return Z3_mk_app(C, f, e->b ? 2 : 1, args);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, bvNum(1, 1), bvNum(0, 1)); }

static bool numeric(const Expr* e) { return e->exactInt || e->poly || (isConst(e) && e->width == 64 && std::isfinite(asD((u64)e->val))); }
static bool useNum(const Expr* a, const Expr* b) {
  if (!(a->exactInt || b->exactInt || a->poly || b->poly)) return false;
  return numeric(a) && numeric(b);
}

static Z3_ast toNumConst(double d) {
  // exact rational
  int ex; double m = frexp(d, &ex); long long im = (long long)ldexp(m, 53); ex -= 53;
  std::string num = std::to_string(im);
  Z3_ast r = Z3_mk_numeral(C, num.c_str(), REALS);
  // multiply / divide by 2^|ex|
  if (ex == 0 || im == 0) return r;
  // build 2^|ex| decimal
  std::vector<int> dig(1, 1);
  for (int i = 0; i < std::abs(ex); ++i) { int c = 0; for (size_t j = 0; j < dig.size(); ++j) { int t = dig[j] * 2 + c; dig[j] = t % 10; c = t / 10; } if (c) dig.push_back(c); }
  std::string p; for (size_t j = dig.size(); j--;) p += (char)('0' + dig[j]);
  std::string s = ex < 0 ? num + "/" + p : num;
  if (ex < 0) return Z3_mk_numeral(C, s.c_str(), REALS);
  Z3_ast a[2] = { r, Z3_mk_numeral(C, p.c_str(), REALS) };
  return Z3_mk_mul(C, 2, a);
}
static std::string i128s(__int128 v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string r; do { r += (char)('0' + (int)(u % 10)); u /= 10; } while (u); if (n) r += '-'; std::reverse(r.begin(), r.end()); return r; }
static Z3_ast polyAst(const Poly* p) {
  std::vector<Z3_ast> sum;
  for (auto& t : p->t) {
    std::vector<Z3_ast> f; std::string c = i128s(t.second);
    if (t.second != 1 || t.first.empty()) f.push_back(Z3_mk_numeral(C, c.c_str(), INTS));
    for (auto v : t.first) f.push_back(varAst(g_vars[v].e));
    sum.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data())); }
  return sum.size() == 1 ? sum[0] : Z3_mk_add(C, sum.size(), sum.data()); }
static Z3_ast relBool(const Expr* e);
static Z3_ast toNum(const Expr* e) {     // Int-sorted
  auto it = mNum.find(e); if (it != mNum.end()) return it->second;
  Z3_ast r = 0; Z3_ast a[2];
  switch (e->kind) {
    case K_CONST: { double d = asD((u64)e->val); char b[64]; snprintf(b, 64, "%.0f", d); if (!strcmp(b, "-0")) strcpy(b, "0"); r = Z3_mk_numeral(C, b, INTS); break; }
    case K_VAR: r = varAst(e); break;
    case K_FADD: a[0] = toNum(e->a); a[1] = toNum(e->b); r = Z3_mk_add(C, 2, a); break;
    case K_FSUB: a[0] = toNum(e->a); a[1] = toNum(e->b); r = Z3_mk_sub(C, 2, a); break;
    case K_FMUL: a[0] = toNum(e->a); a[1] = toNum(e->b); r = Z3_mk_mul(C, 2, a); break;
    case K_POLY: r = polyAst(e->poly); break;
    case K_FNEG: r = Z3_mk_unary_minus(C, toNum(e->a)); break;
    case K_FABS: { Z3_ast x = toNum(e->a); r = Z3_mk_ite(C, Z3_mk_lt(C, x, Z3_mk_int(C, 0, INTS)), Z3_mk_unary_minus(C, x), x); break; }
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toNum(e->b), toNum(e->c)); break;
    default: fprintf(stderr, "toNum: bad kind %d\n", e->kind); abort();
  }
  mNum[e] = r; return r;
}
static Z3_ast toNumR(const Expr* e) {   // Real-sorted, allows non integer constants
  if (isConst(e)) return toNumConst(asD((u64)e->val));
  if (e->kind == K_POLY && e->psc > 0) { Z3_ast a[2]; a[0] = Z3_mk_int2real(C, polyAst(e->poly)); a[1] = toNumConst(ldexp(1.0, -e->psc)); return Z3_mk_mul(C, 2, a); }
  return Z3_mk_int2real(C, toNum(e));
}
static bool intConst(const Expr* e);
static bool intConst(const Expr* e) { double d = asD((u64)e->val); return d == std::floor(d) && std::fabs(d) < 9e15; }

static Z3_ast toFP(const Expr* e) {
  auto it = mFP.find(e); if (it != mFP.end()) return it->second;
  Z3_ast r = 0; Z3_sort S = e->width == 64 ? FP64 : FP32;
  switch (e->kind) {
    case K_CONST: {
      if (e->width == 64) { double d = asD((u64)e->val); r = std::isnan(d) ? Z3_mk_fpa_nan(C, FP64) : Z3_mk_fpa_to_fp_bv(C, bvNum(e->val, 64), FP64); r = Z3_simplify(C, r); }
      else r = Z3_simplify(C, Z3_mk_fpa_to_fp_bv(C, bvNum(e->val, 32), FP32));
      break; }
    case K_VAR:
      if (g_vars[e->aux].kind == 1) r = Z3_mk_fpa_to_fp_real(C, RNE, Z3_mk_int2real(C, varAst(e)), FP64);
      else r = Z3_mk_fpa_to_fp_bv(C, toBV(e), S);
      break;
    case K_POLY: r = Z3_mk_fpa_to_fp_real(C, RNE, toNumR(e), FP64); break;
    case K_FADD: r = Z3_mk_fpa_add(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FSUB: r = Z3_mk_fpa_sub(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FMUL: r = Z3_mk_fpa_mul(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FDIV: r = Z3_mk_fpa_div(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K_FNEG: r = Z3_mk_fpa_neg(C, toFP(e->a)); break;
    case K_FABS: r = Z3_mk_fpa_abs(C, toFP(e->a)); break;
    case K_FSQRT: r = Z3_mk_fpa_sqrt(C, RNE, toFP(e->a)); break;
    case K_FFLOOR: r = Z3_mk_fpa_round_to_integral(C, RTN, toFP(e->a)); break;
    case K_FCEIL: r = Z3_mk_fpa_round_to_integral(C, RTP, toFP(e->a)); break;
    case K_FTRUNC: r = Z3_mk_fpa_round_to_integral(C, RTZ, toFP(e->a)); break;
    case K_FROUND: r = Z3_mk_fpa_round_to_integral(C, RNA, toFP(e->a)); break;
    case K_FRINT: r = Z3_mk_fpa_round_to_integral(C, RNE, toFP(e->a)); break;
    case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, RNE, toBV(e->a), S); break;
    case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, toBV(e->a), S); break;
    case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, RNE, toFP(e->a), S); break;
    case K_UF: r = ufApp(e); break;
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toFP(e->b), toFP(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), S); break;
  }
  mFP[e] = r; return r;
}
static Z3_ast toBool(const Expr* e) {
  auto it = mBool.find(e); if (it != mBool.end()) return it->second;
  Z3_ast r = 0, a[2];
  switch (e->kind) {
    case K_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_AND: a[0] = toBool(e->a); a[1] = toBool(e->b); r = Z3_mk_and(C, 2, a); break;
    case K_OR: a[0] = toBool(e->a); a[1] = toBool(e->b); r = Z3_mk_or(C, 2, a); break;
    case K_XOR: if (isConst(e->b)) r = e->b->val ? Z3_mk_not(C, toBool(e->a)) : toBool(e->a); else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
    case K_EQ: if (e->a->width == 1) r = Z3_mk_iff(C, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case K_ULT: if (e->a->width == 1) { r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break; } r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    case K_FEQ: case K_FLT: case K_FLE:
      if (useNum(e->a, e->b)) {
        bool ii = (e->a->exactInt || intConst(e->a)) && (e->b->exactInt || intConst(e->b));
        Z3_ast x = ii ? toNum(e->a) : toNumR(e->a), y = ii ? toNum(e->b) : toNumR(e->b);
        r = e->kind == K_FEQ ? Z3_mk_eq(C, x, y) : e->kind == K_FLT ? Z3_mk_lt(C, x, y) : Z3_mk_le(C, x, y);
      } else {
        Z3_ast x = toFP(e->a), y = toFP(e->b);
        r = e->kind == K_FEQ ? Z3_mk_fpa_eq(C, x, y) : e->kind == K_FLT ? Z3_mk_fpa_lt(C, x, y) : Z3_mk_fpa_leq(C, x, y);
      }
      break;
    case K_FUNO:
      if (e->a == e->b) r = Z3_mk_fpa_is_nan(C, toFP(e->a));
      else { a[0] = Z3_mk_fpa_is_nan(C, toFP(e->a)); a[1] = Z3_mk_fpa_is_nan(C, toFP(e->b)); r = Z3_mk_or(C, 2, a); }
      break;
    default: r = Z3_mk_eq(C, toBV(e), bvNum(1, 1)); break;
  }
  mBool[e] = r; return r;
}
static Z3_ast toBV(const Expr* e) {
  auto it = mBV.find(e); if (it != mBV.end()) return it->second;
  Z3_ast r = 0;
  if (e->kind >= K_EQ && e->kind <= K_SLE) r = b2bv(toBool(e));
  else if (e->kind >= K_FEQ && e->kind <= K_FUNO) r = b2bv(toBool(e));
  else switch (e->kind) {
    case K_CONST: r = bvNum(e->val, e->width); break;
    case K_VAR: r = g_vars[e->aux].kind == 1 ? Z3_mk_fpa_to_ieee_bv(C, toFP(e)) : varAst(e); break;
    case K_ADD: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
    case K_AND: r = e->width == 1 ? b2bv(toBool(e)) : Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
    case K_OR: r = e->width == 1 ? b2bv(toBool(e)) : Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
    case K_XOR: r = e->width == 1 ? b2bv(toBool(e)) : (isConst(e->b) && e->b->val == maskw(e->width)) ? Z3_mk_bvnot(C, toBV(e->a)) : Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
    case K_CONCAT: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(C, e->aux + e->width - 1, e->aux, toBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, e->width - e->a->width, toBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, e->width - e->a->width, toBV(e->a)); break;
    case K_ITE: r = (e->hasFP && e->width == 64 && (e->b->kind >= K_FADD || e->c->kind >= K_FADD)) ? Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)) : Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case K_FPTOSI: r = Z3_mk_fpa_to_sbv(C, RTZ, toFP(e->a), e->width); break;
    case K_FPTOUI: r = Z3_mk_fpa_to_ubv(C, RTZ, toFP(e->a), e->width); break;
    default:
      if (e->kind >= K_FADD && e->kind <= K_POLY) { r = Z3_mk_fpa_to_ieee_bv(C, toFP(e)); break; }
      fprintf(stderr, "toBV: bad kind %d\n", e->kind); abort();
  }
  mBV[e] = r; return r;
}


// ---- bit-vector encoding of constraints over integer polynomials (second attempt for the non-linear ones)
static std::unordered_map<const Expr*, Z3_ast> mB2;
static bool pureNum(const Expr* e) {
  switch (e->kind) {
    case K_CONST: return e->width == 1;
    case K_AND: case K_OR: case K_EQ: return e->a->width == 1 && pureNum(e->a) && pureNum(e->b);
    case K_XOR: return e->width == 1 && pureNum(e->a) && pureNum(e->b);
    case K_ITE: return e->width == 1 && pureNum(e->a) && pureNum(e->b) && pureNum(e->c);
    case K_FLE: case K_FLT: case K_FEQ: { auto ok = [](const Expr* x) { return (x->poly && x->psc == 0) || (isConst(x) && intConst(x)); }; return ok(e->a) && ok(e->b); }
    default: return false;
  }
}
static unsigned maxDeg(const Expr* e) { unsigned d = 0; if (e->poly) return polyDegree(e->poly); for (const Expr* x : {e->a, e->b, e->c}) if (x) d = std::max(d, maxDeg(x)); return d; }
static unsigned bitsFor(double lo, double hi) { double m = std::max(std::fabs(lo), std::fabs(hi)); unsigned b = 2; while (b < 62 && ldexp(1.0, b - 1) <= m + 1) ++b; return b; }
static Z3_ast bvVar(uint32_t v, unsigned w) {
  const VarInfo& vi = g_vars[v]; unsigned n = bitsFor(vi.lo, vi.hi); std::string nm = "b" + std::to_string(v);
  Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, n));
  return w == n ? x : w > n ? Z3_mk_sign_ext(C, w - n, x) : Z3_mk_extract(C, w - 1, 0, x); }
static Z3_ast bvInt(__int128 c, unsigned w) { return bvNum((u128)c & maskw(w), w); }
static Z3_ast polyBV(const Expr* e, unsigned w) {
  if (isConst(e)) return bvInt((__int128)asD((u64)e->val), w);
  Z3_ast sum = 0;
  for (auto& t : e->poly->t) { Z3_ast f = 0; for (auto v : t.first) { Z3_ast x = bvVar(v, w); f = f ? Z3_mk_bvmul(C, f, x) : x; }
    if (!f) f = bvInt(t.second, w); else if (t.second == -1) f = Z3_mk_bvneg(C, f); else if (t.second != 1) f = Z3_mk_bvmul(C, bvInt(t.second, w), f);
    sum = sum ? Z3_mk_bvadd(C, sum, f) : f; }
  return sum ? sum : bvInt(0, w); }
static Z3_ast toB2(const Expr* e) {
  auto it = mB2.find(e); if (it != mB2.end()) return it->second;
  Z3_ast r = 0, a[2];
  switch (e->kind) {
    case K_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_AND: a[0] = toB2(e->a); a[1] = toB2(e->b); r = Z3_mk_and(C, 2, a); break;
    case K_OR: a[0] = toB2(e->a); a[1] = toB2(e->b); r = Z3_mk_or(C, 2, a); break;
    case K_XOR: r = Z3_mk_xor(C, toB2(e->a), toB2(e->b)); break;
    case K_EQ: r = Z3_mk_iff(C, toB2(e->a), toB2(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, toB2(e->a), toB2(e->b), toB2(e->c)); break;
    default: {
      auto bd = [](const Expr* x, double& l, double& h) { if (isConst(x)) l = h = asD((u64)x->val); else { l = x->ilo; h = x->ihi; } };
      double l1, h1, l2, h2; bd(e->a, l1, h1); bd(e->b, l2, h2);
      unsigned w = std::max(bitsFor(l1, h1), bitsFor(l2, h2));
      Z3_ast x = polyBV(e->a, w), y = polyBV(e->b, w);
      r = e->kind == K_FEQ ? Z3_mk_eq(C, x, y) : e->kind == K_FLT ? Z3_mk_bvslt(C, x, y) : Z3_mk_bvsle(C, x, y); }
  }
  mB2[e] = r; return r;
}

// ---- relaxation of floating-point constraints: every rounded operation is a real number within half a unit in the last
// place of the exact result.  Unsatisfiable means unsatisfiable; a model counts only if it satisfies the constraints themselves.
static std::unordered_map<const Expr*, Z3_ast> mRel; static std::unordered_map<const Expr*, std::pair<double, double>> mMag; static std::vector<Z3_ast> g_relDefs; static unsigned g_relN = 0;
// largest magnitude, and least magnitude of a value that is not zero; first < 0: not supported
static std::pair<double, double> magOf(const Expr* e) {
  auto it = mMag.find(e); if (it != mMag.end()) return it->second;
  std::pair<double, double> r(-1, 0), a, b; const double BAD = 1e290;
  if (e->width == 64) switch (e->kind) {
    case K_CONST: { double d = std::fabs(asD((u64)e->val)); if (d < BAD) r = { d, d ? d : 1 }; break; }
    case K_VAR: if (g_vars[e->aux].kind == 1) r = { std::max(std::fabs((double)g_vars[e->aux].lo), std::fabs((double)g_vars[e->aux].hi)), 1 }; break;
    case K_POLY: r = { std::max(std::fabs(e->ilo), std::fabs(e->ihi)), ldexp(1.0, -(int)e->psc) }; break;
    case K_FNEG: case K_FABS: r = magOf(e->a); break;
    case K_ITE: a = magOf(e->b); b = magOf(e->c); if (a.first >= 0 && b.first >= 0) r = { std::max(a.first, b.first), std::min(a.second, b.second) }; break;
    case K_FADD: case K_FSUB: a = magOf(e->a); b = magOf(e->b); if (a.first >= 0 && b.first >= 0) r = { (a.first + b.first) * 1.0001, std::min(a.second, b.second) * 1e-16 }; break;
    case K_FMUL: a = magOf(e->a); b = magOf(e->b); if (a.first >= 0 && b.first >= 0) r = { a.first * b.first * 1.0001, a.second * b.second * 0.999 }; break;
    case K_FDIV: a = magOf(e->a); b = magOf(e->b); if (a.first >= 0 && isConst(e->b) && b.first > 0) r = { a.first / b.first * 1.0001, a.second / b.first * 0.999 }; break;
    default: break; }
  if (!(r.first < BAD) || (r.first >= 0 && !(r.second > 1e-280))) r.first = -1;
  mMag[e] = r; return r; }
static Z3_ast relNum(const Expr* e) {
  auto it = mRel.find(e); if (it != mRel.end()) return it->second;
  Z3_ast r = 0, a[2], t = 0, z = Z3_mk_real(C, 0, 1);
  if (e->exactInt && e->kind != K_ITE) r = Z3_mk_int2real(C, toNum(e));
  else switch (e->kind) {
    case K_CONST: case K_POLY: r = toNumR(e); break;
    case K_FNEG: r = Z3_mk_unary_minus(C, relNum(e->a)); break;
    case K_FABS: { Z3_ast x = relNum(e->a); r = Z3_mk_ite(C, Z3_mk_lt(C, x, z), Z3_mk_unary_minus(C, x), x); break; }
    case K_ITE: { Z3_ast c = relBool(e->a); if (!c) return 0; a[0] = relNum(e->b); a[1] = relNum(e->c); if (!a[0] || !a[1]) return 0; r = Z3_mk_ite(C, c, a[0], a[1]); break; }
    default:
      a[0] = relNum(e->a); a[1] = relNum(e->b); if (!a[0] || !a[1]) return 0;
      t = e->kind == K_FADD ? Z3_mk_add(C, 2, a) : e->kind == K_FSUB ? Z3_mk_sub(C, 2, a) : e->kind == K_FMUL ? Z3_mk_mul(C, 2, a) : Z3_mk_div(C, a[0], a[1]); }
  if (t) {
    std::string nm = "rel!" + std::to_string(g_relN++); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), REALS);
    Z3_ast lo = toNumConst(1 - ldexp(1.0, -52)), hi = toNumConst(1 + ldexp(1.0, -52)), x[2] = { t, lo }, y[2] = { t, hi }, tl = Z3_mk_mul(C, 2, x), th = Z3_mk_mul(C, 2, y), p[2], q[2];
    p[0] = Z3_mk_le(C, tl, r); p[1] = Z3_mk_le(C, r, th); q[0] = Z3_mk_le(C, th, r); q[1] = Z3_mk_le(C, r, tl);
    g_relDefs.push_back(Z3_mk_ite(C, Z3_mk_le(C, z, t), Z3_mk_and(C, 2, p), Z3_mk_and(C, 2, q))); }
  if (!r) return 0;
  mRel[e] = r; return r; }
static Z3_ast relBool(const Expr* e) {
  if (!e->hasFP) return e->kind == K_FEQ || e->width == 1 ? toBool(e) : 0;
  Z3_ast a[2];
  switch (e->kind) {
    case K_AND: case K_OR: a[0] = relBool(e->a); a[1] = relBool(e->b); if (!a[0] || !a[1]) return 0; return e->kind == K_AND ? Z3_mk_and(C, 2, a) : Z3_mk_or(C, 2, a);
    case K_XOR: a[0] = relBool(e->a); a[1] = relBool(e->b); if (!a[0] || !a[1]) return 0; return Z3_mk_xor(C, a[0], a[1]);
    case K_EQ: if (e->a->width != 1) return 0; a[0] = relBool(e->a); a[1] = relBool(e->b); if (!a[0] || !a[1]) return 0; return Z3_mk_iff(C, a[0], a[1]);
    case K_ITE: { if (e->width != 1) return 0; Z3_ast c = relBool(e->a); a[0] = relBool(e->b); a[1] = relBool(e->c); return c && a[0] && a[1] ? Z3_mk_ite(C, c, a[0], a[1]) : 0; }
    case K_FUNO: return magOf(e->a).first >= 0 && magOf(e->b).first >= 0 ? Z3_mk_false(C) : 0;
    case K_FEQ: case K_FLT: case K_FLE: { if (magOf(e->a).first < 0 || magOf(e->b).first < 0) return 0; a[0] = relNum(e->a); a[1] = relNum(e->b); if (!a[0] || !a[1]) return 0; return e->kind == K_FEQ ? Z3_mk_eq(C, a[0], a[1]) : e->kind == K_FLT ? Z3_mk_lt(C, a[0], a[1]) : Z3_mk_le(C, a[0], a[1]); }
    default: return 0; } }

struct VHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
struct CacheEnt { SatR r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> g_cache;

static std::vector<Model> g_recent; static size_t g_rp = 0;

SatR solverCheck(const std::vector<const Expr*>& cs0, Model* m) {
  std::vector<const Expr*> cs(cs0);
  std::vector<uint32_t> key;
  for (auto e : cs) { if (isConst(e)) { if (!e->val) return R_UNSAT; continue; } key.push_back(e->id); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  if (key.empty()) return R_SAT;
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cacheHits++; if (m) for (auto& p : it->second.m) (*m)[p.first] = p.second; return it->second.r; }

  bool fp = false, iv = false, uf = false; const VarSet* vs = nullptr;
  for (auto e : cs) { if (isConst(e)) continue; fp |= e->hasFP; uf |= e->hasUF; vs = vs ? vsUnion(vs, e->vars) : e->vars; }
  for (auto v : vs->v) if (g_vars[v].kind == 1) iv = true;

  // counter-example cache
  if (!uf) for (auto& rm : g_recent) {
    Evaluator ev(rm); bool all = true; u128 r;
    for (auto e : cs) { if (isConst(e)) continue; if (!ev.eval(e, r) || !r) { all = false; break; } }
    if (all) {
      g_ss.modelHits++;
      CacheEnt ce; ce.r = R_SAT;
      for (auto v : vs->v) { Evaluator e2(rm); u128 x; e2.eval(g_vars[v].e, x); ce.m.push_back({v, x}); if (m) (*m)[v] = x; }
      g_cache[key] = ce; return R_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  if (fp && iv && !uf) {
    g_relDefs.clear(); mRel.clear(); g_err = false; std::vector<Z3_ast> as; bool inexact = false;
    for (auto e : cs) if (!isConst(e)) { size_t n = g_relDefs.size(); Z3_ast b = relBool(e); if (b) as.push_back(b); if (g_relDefs.size() > n) inexact = true; }
    if (inexact && !g_err) {
      Z3_solver R = Z3_mk_solver(C); Z3_solver_inc_ref(C, R); Z3_params Q = Z3_mk_params(C); Z3_params_inc_ref(C, Q); Z3_params_set_uint(C, Q, Z3_mk_string_symbol(C, "timeout"), std::min(g_timeout, 5000u)); Z3_solver_set_params(C, R, Q);
      for (auto a : as) Z3_solver_assert(C, R, a); for (auto a : g_relDefs) Z3_solver_assert(C, R, a);
      for (auto v : vs->v) if (g_vars[v].kind == 1) { Z3_ast x = varAst(g_vars[v].e); Z3_solver_assert(C, R, Z3_mk_le(C, Z3_mk_int64(C, g_vars[v].lo, INTS), x)); Z3_solver_assert(C, R, Z3_mk_le(C, x, Z3_mk_int64(C, g_vars[v].hi, INTS))); }
      Z3_lbool rr = Z3_solver_check(C, R); int done = 0; CacheEnt ce;
      if (!g_err && rr == Z3_L_FALSE) { ce.r = R_UNSAT; done = 1; }
      if (!g_err && rr == Z3_L_TRUE) {
        Z3_model M = Z3_solver_get_model(C, R); Z3_model_inc_ref(C, M); Model rm;
        for (auto v : vs->v) { Z3_ast out = 0; u128 val = 0; if (Z3_model_eval(C, M, varAst(g_vars[v].e), true, &out) && out) { const char* s = Z3_get_numeral_string(C, out); if (g_vars[v].kind == 1) val = fromD(strtod(s, 0)); else for (const char* p = s; *p >= '0' && *p <= '9'; ++p) val = val * 10 + (*p - '0'); } rm[v] = val; }
        Z3_model_dec_ref(C, M); Evaluator ev(rm); bool all = true; u128 r; for (auto e : cs) { if (isConst(e)) continue; if (!ev.eval(e, r) || !r) { all = false; break; } }
        if (all) { ce.r = R_SAT; for (auto& p : rm) { ce.m.push_back({p.first, p.second}); if (m) (*m)[p.first] = p.second; } if (g_recent.size() < 24) g_recent.push_back(rm); else { g_recent[g_rp] = rm; g_rp = (g_rp + 1) % 24; } done = 1; } }
      Z3_params_dec_ref(C, Q); Z3_solver_dec_ref(C, R);
      if (getenv("SYM_SLOWQ")) { fprintf(stderr, "relaxed query %.2fs z3=%d decided=%d\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), (int)rr, done); }
      if (done) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt; g_ss.queries++; if (ce.r == R_SAT) g_ss.sat++; else g_ss.unsat++; g_cache[key] = ce; return ce.r; } } }
  Z3_solver S;
  if (!fp) S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  else if (!iv && !uf) S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
  else S = Z3_mk_solver(C);
  Z3_solver_inc_ref(C, S);
  Z3_params P = Z3_mk_params(C); Z3_params_inc_ref(C, P);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), g_timeout);
  Z3_solver_set_params(C, S, P);
  g_err = false;
  for (auto e : cs) if (!isConst(e)) Z3_solver_assert(C, S, toBool(e));
  if (iv) for (auto v : vs->v) if (g_vars[v].kind == 1) {
    Z3_ast x = varAst(g_vars[v].e);
    Z3_solver_assert(C, S, Z3_mk_le(C, Z3_mk_int64(C, g_vars[v].lo, INTS), x));
    Z3_solver_assert(C, S, Z3_mk_le(C, x, Z3_mk_int64(C, g_vars[v].hi, INTS)));
  }
  bool pn = iv && !uf; unsigned deg = 0;
  if (pn) for (auto e : cs) if (!isConst(e)) { if (!pureNum(e)) { pn = false; break; } deg = std::max(deg, maxDeg(e)); }
  bool b2 = false;
  if (pn && deg >= 2) { Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), std::min(g_timeout, 2000u)); Z3_solver_set_params(C, S, P); }
  Z3_lbool res = Z3_solver_check(C, S);
  if (g_err) res = Z3_L_UNDEF;
  if (res == Z3_L_UNDEF && pn && deg >= 2) {
    Z3_solver_dec_ref(C, S); g_err = false; b2 = true;
    S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, S);
    Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), g_timeout); Z3_solver_set_params(C, S, P);
    for (auto e : cs) if (!isConst(e)) Z3_solver_assert(C, S, toB2(e));
    for (auto v : vs->v) if (g_vars[v].kind == 1) { unsigned n = bitsFor(g_vars[v].lo, g_vars[v].hi); Z3_ast x = bvVar(v, n);
      Z3_solver_assert(C, S, Z3_mk_bvsle(C, bvInt(g_vars[v].lo, n), x)); Z3_solver_assert(C, S, Z3_mk_bvsle(C, x, bvInt(g_vars[v].hi, n))); }
    res = Z3_solver_check(C, S); if (g_err) res = Z3_L_UNDEF;
  }
  CacheEnt ce; ce.r = res == Z3_L_TRUE ? R_SAT : res == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == Z3_L_TRUE) {
    Z3_model M = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, M);
    Model rm;
    for (auto v : vs->v) {
      Z3_ast out = 0; u128 val = 0;
      if (b2 && g_vars[v].kind == 1) {
        unsigned n = bitsFor(g_vars[v].lo, g_vars[v].hi);
        if (Z3_model_eval(C, M, bvVar(v, n), true, &out) && out) { u64 x = strtoull(Z3_get_numeral_string(C, out), 0, 10); long sv = (long)(x << (64 - n)) >> (64 - n); val = fromD((double)sv); }
      } else if (Z3_model_eval(C, M, varAst(g_vars[v].e), true, &out) && out) {
        const char* s = Z3_get_numeral_string(C, out);
        if (g_vars[v].kind == 1) { val = fromD(strtod(s, 0)); }
        else { for (const char* p = s; *p >= '0' && *p <= '9'; ++p) val = val * 10 + (*p - '0'); }
      }
      ce.m.push_back({v, val}); rm[v] = val; if (m) (*m)[v] = val;
    }
    Z3_model_dec_ref(C, M);
    if (g_recent.size() < 24) g_recent.push_back(rm); else { g_recent[g_rp] = rm; g_rp = (g_rp + 1) % 24; }
  }
  Z3_params_dec_ref(C, P); Z3_solver_dec_ref(C, S);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dt > 0.05 && getenv("SYM_SLOWQ")) { fprintf(stderr, "slow query %.2fs res=%d\n", dt, (int)ce.r); for (auto e : cs) fprintf(stderr, "   %s\n", exprStr(e, 8).c_str()); }
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt; g_ss.queries++;
  if (ce.r == R_SAT) g_ss.sat++; else if (ce.r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  g_cache[key] = ce;
  return ce.r;
}
