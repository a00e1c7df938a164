#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufNames;
u64 g_nexprs = 0;

double asD(u64 x) { double d; memcpy(&d, &x, 8); return d; }
u64 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
float asF(u64 x) { uint32_t y = (uint32_t)x; float d; memcpy(&d, &y, 4); return d; }
u64 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

unsigned ufIndex(const std::string& n) {
  for (unsigned i = 0; i < g_ufNames.size(); ++i) if (g_ufNames[i] == n) return i;
  g_ufNames.push_back(n); return g_ufNames.size() - 1;
}
double ufConcrete(unsigned fn, double a, double b, bool& ok) {
  const std::string& n = g_ufNames[fn]; ok = true;
  if (n == "sin") return sin(a);
  if (n == "cos") return cos(a);
  if (n == "tan") return tan(a);
  if (n == "asin") return asin(a);
  if (n == "acos") return acos(a);
  if (n == "atan") return atan(a);
  if (n == "atan2") return atan2(a, b);
  if (n == "pow") return pow(a, b);
  if (n == "exp") return exp(a);
  if (n == "log") return log(a);
  if (n == "log10") return log10(a);
  if (n == "hypot") return hypot(a, b);
  if (n == "fmod") return fmod(a, b);
  if (n == "cbrt") return cbrt(a);
  ok = false; return 0;
}

// ---- interned variable sets
static VarSet g_emptyVS;
struct VSHash { size_t operator()(const std::vector<uint32_t>* v) const { size_t h = 1469598103934665603ull; for (auto x : *v) h = (h ^ x) * 1099511628211ull; return h; } };
struct VSEq { bool operator()(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) const { return *a == *b; } };
static std::unordered_map<const std::vector<uint32_t>*, const VarSet*, VSHash, VSEq> g_vs;
static const VarSet* vsIntern(std::vector<uint32_t>&& v) {
  if (v.empty()) return &g_emptyVS;
  auto it = g_vs.find(&v);
  if (it != g_vs.end()) return it->second;
  VarSet* s = new VarSet; s->v = std::move(v);
  g_vs[&s->v] = s; return s;
}
const VarSet* vsUnion(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  static std::unordered_map<u64, const VarSet*> cache;   // keyed on pointer pair hash
  std::vector<uint32_t> r;
  r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  if (r.size() == a->v.size()) return a;
  if (r.size() == b->v.size()) return b;
  return vsIntern(std::move(r));
}

// ---- hash consing
struct EHash { size_t operator()(const Expr* e) const {
  size_t h = e->kind * 0x9E3779B97F4A7C15ull + e->width;
  h = (h ^ (size_t)e->a) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = (h ^ (size_t)e->b) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
  h = (h ^ (size_t)e->c) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = (h ^ e->aux) * 0x9E3779B97F4A7C15ull;
  h = (h ^ (u64)e->val ^ (u64)(e->val >> 64)) * 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 32); } };
struct EEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->kind == y->kind && x->width == y->width && x->a == y->a && x->b == y->b && x->c == y->c && x->aux == y->aux && x->val == y->val; } };
static std::unordered_set<const Expr*, EHash, EEq> g_tab;

static bool isFPKind(Kind k) { return k >= K_FADD && k <= K_POLY; }

static const Expr* intern(Kind k, unsigned w, const Expr* a, const Expr* b, const Expr* c, uint32_t aux, u128 val) {
  Expr t; t.kind = k; t.width = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.val = val; t.agg = nullptr;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  Expr* e = new Expr(t);
  e->id = ++g_nexprs;
  e->exactInt = false; e->ilo = e->ihi = 0; e->poly = nullptr; e->psc = 0;
  e->hasFP = isFPKind(k) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
  e->hasUF = k == K_UF || (a && a->hasUF) || (b && b->hasUF) || (c && c->hasUF);
  const VarSet* s = &g_emptyVS;
  if (a) s = vsUnion(s, a->vars);
  if (b) s = vsUnion(s, b->vars);
  if (c) s = vsUnion(s, c->vars);
  e->vars = s;
  auto ex = [](const Expr* x, double& l, double& h) -> bool {
    if (x->exactInt) { l = x->ilo; h = x->ihi; return true; }
    if (x->kind == K_CONST && x->width == 64) { double d = asD((u64)x->val); if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < 9e15) { l = h = d; return true; } }
    return false; };
  double al = 0, ah = 0, bl = 0, bh = 0;
  auto fin = [&](double l, double h) { if (l > -9e15 && h < 9e15) { e->exactInt = true; e->ilo = l; e->ihi = h; } };
  if (w == 64) switch (k) {
    case K_FADD: if (ex(a, al, ah) && ex(b, bl, bh)) fin(al + bl, ah + bh); break;
    case K_FSUB: if (ex(a, al, ah) && ex(b, bl, bh)) fin(al - bh, ah - bl); break;
    case K_FMUL: if (ex(a, al, ah) && ex(b, bl, bh)) { double p[4] = { al * bl, al * bh, ah * bl, ah * bh }; fin(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
    case K_FNEG: if (ex(a, al, ah)) fin(-ah, -al); break;
    case K_FABS: if (ex(a, al, ah)) fin(al > 0 ? al : ah < 0 ? -ah : 0, std::max(std::fabs(al), std::fabs(ah))); break;
    case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FROUND: case K_FRINT: break;
    case K_ITE: if ((b->exactInt || c->exactInt) && ex(b, al, ah) && ex(c, bl, bh)) fin(std::min(al, bl), std::max(ah, bh)); break;
    default: break;
  }
  // unsigned bounds
  e->ulo = 0; e->uhi = mask64(w > 64 ? 64 : w);
  if (w <= 64) {
    u64 m = mask64(w);
    switch (k) {
      case K_CONST: e->ulo = e->uhi = (u64)val; break;
      case K_VAR: break;
      case K_ADD: { u128 h = (u128)a->uhi + b->uhi; if (h <= m) { e->ulo = a->ulo + b->ulo; e->uhi = (u64)h; }
        else if ((u128)a->ulo + b->ulo > m) { e->ulo = (u64)(((u128)a->ulo + b->ulo) & m); e->uhi = (u64)(h & m); } break; }
      case K_SUB: if (a->ulo >= b->uhi) { e->ulo = a->ulo - b->uhi; e->uhi = a->uhi - b->ulo; } break;
      case K_MUL: { u128 h = (u128)a->uhi * b->uhi; if (h <= m) { e->ulo = a->ulo * b->ulo; e->uhi = (u64)h; } break; }
      case K_UDIV: if (b->ulo) { e->ulo = a->ulo / b->uhi; e->uhi = a->uhi / b->ulo; } break;
      case K_UREM: if (b->ulo) e->uhi = std::min(a->uhi, b->uhi - 1); break;
      case K_AND: e->uhi = std::min(a->uhi, b->uhi); break;
      case K_OR: e->ulo = std::max(a->ulo, b->ulo); { u64 h = a->uhi | b->uhi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; e->uhi = std::min(h, m); } break;
      case K_ZEXT: e->ulo = a->ulo; e->uhi = a->uhi; break;
      case K_SEXT: if (a->uhi < ((u64)1 << (a->width - 1))) { e->ulo = a->ulo; e->uhi = a->uhi; } break;
      case K_ITE: e->ulo = std::min(b->ulo, c->ulo); e->uhi = std::max(b->uhi, c->uhi); break;
      case K_CONCAT: e->ulo = (a->ulo << b->width) | b->ulo; e->uhi = (a->uhi << b->width) | b->uhi; break;
      case K_EXTRACT: if (a->width <= 64) { if ((a->uhi >> aux) <= m) { e->ulo = a->ulo >> aux; e->uhi = a->uhi >> aux; } } break;
      default: break;
    }
  }
  g_tab.insert(e);
  return e;
}

const Expr* mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, 0, 0, 0, v & maskw(w)); }

static const Poly* polyVar(uint32_t id);
const Expr* mkVar(const std::string& name, unsigned w, int kind, long lo, long hi) {
  uint32_t id = g_vars.size();
  VarInfo vi; vi.name = name; vi.width = w; vi.kind = kind; vi.lo = lo; vi.hi = hi; vi.e = 0; g_vars.push_back(vi);
  Expr* e = const_cast<Expr*>(intern(K_VAR, w, 0, 0, 0, id, 0));
  std::vector<uint32_t> v(1, id); e->vars = vsIntern(std::move(v));
  if (kind == 0 && w <= 64 && (u64)hi >= (u64)lo && hi != 0) { e->ulo = (u64)lo; e->uhi = std::min((u64)hi, mask64(w)); }
  if (kind == 1) { e->poly = polyVar(id); e->exactInt = true; e->ilo = (double)lo; e->ihi = (double)hi; e->hasFP = true; }
  g_vars[id].e = e;
  return e;
}

static inline __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (__int128)((v ^ m) - m); }

bool foldBin(Kind k, u128 a, u128 b, unsigned w, u128& r) {
  u128 m = maskw(w);
  switch (k) {
    case K_ADD: r = (a + b) & m; return true;
    case K_SUB: r = (a - b) & m; return true;
    case K_MUL: r = (a * b) & m; return true;
    case K_UDIV: r = b ? a / b : m; return true;
    case K_UREM: r = b ? a % b : a; return true;
    case K_SDIV: { __int128 x = sx(a, w), y = sx(b, w); if (!y) r = x < 0 ? 1 : m; else if (y == -1) r = (u128)(-x) & m; else r = (u128)(x / y) & m; return true; }
    case K_SREM: { __int128 x = sx(a, w), y = sx(b, w); if (!y) r = a; else if (y == -1) r = 0; else r = (u128)(x % y) & m; return true; }
    case K_AND: r = a & b; return true;
    case K_OR: r = a | b; return true;
    case K_XOR: r = a ^ b; return true;
    case K_SHL: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case K_LSHR: r = b >= w ? 0 : (a >> (unsigned)b); return true;
    case K_ASHR: { __int128 x = sx(a, w); r = (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m; return true; }
    case K_EQ: r = a == b; return true;
    case K_ULT: r = a < b; return true;
    case K_ULE: r = a <= b; return true;
    case K_SLT: r = sx(a, w) < sx(b, w); return true;
    case K_SLE: r = sx(a, w) <= sx(b, w); return true;
    default: return false;
  }
}
bool foldF2(Kind k, u64 a, u64 b, unsigned w, u64& r) {
  if (w == 64) {
    double x = asD(a), y = asD(b);
    switch (k) {
      case K_FADD: r = fromD(x + y); return true;
      case K_FSUB: r = fromD(x - y); return true;
      case K_FMUL: r = fromD(x * y); return true;
      case K_FDIV: r = fromD(x / y); return true;
      case K_FREM: r = fromD(fmod(x, y)); return true;
      case K_FEQ: r = x == y; return true;
      case K_FLT: r = x < y; return true;
      case K_FLE: r = x <= y; return true;
      case K_FUNO: r = std::isnan(x) || std::isnan(y); return true;
      default: return false;
    }
  }
  if (w == 32) {
    float x = asF(a), y = asF(b);
    switch (k) {
      case K_FADD: r = fromF(x + y); return true;
      case K_FSUB: r = fromF(x - y); return true;
      case K_FMUL: r = fromF(x * y); return true;
      case K_FDIV: r = fromF(x / y); return true;
      case K_FEQ: r = x == y; return true;
      case K_FLT: r = x < y; return true;
      case K_FLE: r = x <= y; return true;
      case K_FUNO: r = std::isnan(x) || std::isnan(y); return true;
      default: return false;
    }
  }
  return false;
}
bool foldF1(Kind k, u64 a, unsigned w, u64& r) {
  if (w == 64) {
    double x = asD(a);
    switch (k) {
      case K_FNEG: r = a ^ (1ull << 63); return true;
      case K_FABS: r = a & ~(1ull << 63); return true;
      case K_FSQRT: r = fromD(sqrt(x)); return true;
      case K_FFLOOR: r = fromD(floor(x)); return true;
      case K_FCEIL: r = fromD(ceil(x)); return true;
      case K_FTRUNC: r = fromD(trunc(x)); return true;
      case K_FROUND: r = fromD(round(x)); return true;
      case K_FRINT: r = fromD(rint(x)); return true;
      default: return false;
    }
  }
  if (w == 32) {
    float x = asF(a);
    switch (k) {
      case K_FNEG: r = a ^ (1ull << 31); return true;
      case K_FABS: r = a & ~(1ull << 31); return true;
      case K_FSQRT: r = fromF(sqrtf(x)); return true;
      default: return false;
    }
  }
  return false;
}
bool foldConv(Kind k, u64 a, unsigned wf, unsigned wt, u64& r) {
  switch (k) {
    case K_SITOFP: { int64_t s = (int64_t)sx(a, wf); r = wt == 64 ? fromD((double)s) : fromF((float)s); return true; }
    case K_UITOFP: { u64 s = a & mask64(wf); r = wt == 64 ? fromD((double)s) : fromF((float)s); return true; }
    case K_FPTOSI: { double d = wf == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.22e18)) { r = (1ull << 63) & mask64(wt); if (wt < 64) r = wt == 32 ? 0x80000000u : 0; return true; }
                     int64_t s = (int64_t)d; if (wt == 32 && (d <= -2147483649.0 || d >= 2147483648.0)) { r = 0x80000000u; return true; } r = (u64)s & mask64(wt); return true; }
    case K_FPTOUI: { double d = wf == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.8446744073709552e19)) { r = mask64(wt); return true; } r = (u64)d & mask64(wt); return true; }
    case K_FPEXT: r = fromD((double)asF(a)); return true;
    case K_FPTRUNC: r = fromF((float)asD(a)); return true;
    default: return false;
  }
}

static inline bool zextLike(const Expr* e, const Expr*& in) { if (e->kind == K_ZEXT) { in = e->a; return true; } return false; }

const Expr* mkRaw(Kind k, const Expr* a, const Expr* b) { return intern(k, 1, a, b, 0, 0, 0); }
const Expr* mkNot(const Expr* a) {
  if (isConst(a)) return mkConst(~a->val, a->width);
  if (a->kind == K_XOR && isConst(a->b) && a->b->val == maskw(a->width)) return a->a;
  return intern(K_XOR, a->width, a, mkConst(~(u128)0, a->width), 0, 0, 0);
}
static bool isNot(const Expr* e, const Expr*& in) { if (e->kind == K_XOR && isConst(e->b) && e->b->val == maskw(e->width)) { in = e->a; return true; } return false; }

// upper bound on unsigned value (cheap)
static u128 umax(const Expr* e) { return e->width <= 64 ? (u128)e->uhi : maskw(e->width); }
static u128 umin(const Expr* e) { return e->width <= 64 ? (u128)e->ulo : 0; }


// ---- exact polynomials
struct PolyHash { size_t operator()(const Poly* p) const { size_t h = 1469598103934665603ull; for (auto& t : p->t) { for (auto x : t.first) h = (h ^ x) * 1099511628211ull; h = (h ^ 0xffu) * 1099511628211ull; h = (h ^ (u64)t.second) * 1099511628211ull; } return h; } };
struct PolyEq { bool operator()(const Poly* a, const Poly* b) const { return a->t == b->t; } };
static std::unordered_set<const Poly*, PolyHash, PolyEq> g_polys;
static const Poly* polyIntern(Poly&& p) { auto it = g_polys.find(&p); if (it != g_polys.end()) return *it; Poly* q = new Poly(std::move(p)); g_polys.insert(q); return q; }
static const Poly* polyVar(uint32_t id) { Poly p; p.t.push_back({std::vector<uint32_t>(1, id), 1}); return polyIntern(std::move(p)); }
static const __int128 PMAX = (__int128)1 << 100;
static bool polyAddTo(std::vector<std::pair<std::vector<uint32_t>, __int128>>& v) {   // sort and merge
  std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
  size_t o = 0;
  for (size_t i = 0; i < v.size();) {
    __int128 c = v[i].second; size_t j = i + 1;
    while (j < v.size() && v[j].first == v[i].first) c += v[j++].second;
    if (c > PMAX || c < -PMAX) return false;
    if (c != 0) { if (o != i) v[o].first = v[i].first; v[o].second = c; ++o; }
    i = j;
  }
  v.resize(o); return o <= 400;
}
unsigned polyDegree(const Poly* p) { size_t d = 0; for (auto& t : p->t) d = std::max(d, t.first.size()); return d; }
// numerator and scale of a double expression
static bool getPoly(const Expr* e, Poly& p, int& s) {
  if (e->poly) { p = *e->poly; s = e->psc; return true; }
  if (isConst(e) && e->width == 64) {
    double d = asD((u64)e->val); if (!std::isfinite(d)) return false;
    p.t.clear(); s = 0; if (d == 0) return true;
    int ex; double m = frexp(d, &ex); int64_t im = (int64_t)ldexp(m, 53); ex -= 53;
    while (!(im & 1)) { im /= 2; ++ex; }
    if (ex > 40 || ex < -40) return false;
    __int128 v = im; if (ex > 0) { v <<= ex; ex = 0; } s = -ex;
    p.t.push_back({std::vector<uint32_t>(), v}); return true;
  }
  return false;
}
static void polyBounds(const Poly& p, double& lo, double& hi) {     // outward rounded
  long double l = 0, h = 0;
  for (auto& t : p.t) {
    long double a = 1, b = 1;
    for (size_t i = 0; i < t.first.size();) {
      size_t j = i; while (j < t.first.size() && t.first[j] == t.first[i]) ++j;
      const VarInfo& vi = g_vars[t.first[i]]; long double x = vi.lo, y = vi.hi, u = 1, w = 1; size_t n = j - i;
      for (size_t k = 0; k < n; ++k) { u *= x; w *= y; }
      long double pl = std::min(u, w), ph = std::max(u, w); if (n % 2 == 0 && x <= 0 && y >= 0) pl = 0;
      long double q[4] = { a * pl, a * ph, b * pl, b * ph }; a = *std::min_element(q, q + 4); b = *std::max_element(q, q + 4); i = j;
    }
    long double c = (long double)t.second; if (c < 0) std::swap(a, b); l += c * a; h += c * b;
  }
  lo = (double)l; hi = (double)h; if (std::fabs(lo) > 9e15) lo = lo * (lo < 0 ? 1.001 : 0.999); if (std::fabs(hi) > 9e15) hi = hi * (hi < 0 ? 0.999 : 1.001);
}
static const double EXACTMAX = 9007199254740992.0;
// node for p / 2^s, when the value is exactly representable; [blo,bhi] are further known bounds of the numerator
static const Expr* mkPoly(Poly&& p, int s, double blo = -INFINITY, double bhi = INFINITY) {
  if (p.t.empty()) return mkConst(fromD(0.0), 64);
  while (s > 0) { bool ev = true; for (auto& t : p.t) if (t.second & 1) { ev = false; break; } if (!ev) break; for (auto& t : p.t) t.second /= 2; --s; blo = std::floor(blo / 2); bhi = std::ceil(bhi / 2); }
  if (s > 300) return nullptr;
  double lo, hi; polyBounds(p, lo, hi); lo = std::max(lo, blo); hi = std::min(hi, bhi);
  if (!(lo >= -EXACTMAX && hi <= EXACTMAX)) return nullptr;
  if (p.t.size() == 1 && p.t[0].first.empty()) return mkConst(fromD(ldexp((double)p.t[0].second, -s)), 64);
  if (polyDegree(&p) > 8) return nullptr;
  const Poly* q = polyIntern(std::move(p));
  if (s == 0 && q->t.size() == 1 && q->t[0].second == 1 && q->t[0].first.size() == 1) return g_vars[q->t[0].first[0]].e;
  Expr* e = const_cast<Expr*>(intern(K_POLY, 64, 0, 0, 0, (uint32_t)s, (u128)(size_t)q));
  if (!e->poly) {
    e->poly = q; e->psc = s; e->hasFP = true; e->ilo = lo; e->ihi = hi; e->exactInt = s == 0;
    const VarSet* vs = &g_emptyVS; for (auto& t : q->t) for (auto v : t.first) vs = vsUnion(vs, g_vars[v].e->vars);
    e->vars = vs;
  } else { e->ilo = std::max(e->ilo, lo); e->ihi = std::min(e->ihi, hi); }
  return e;
}
const Expr* polyInt(const Expr* e) { if (e->psc == 0) return e; Poly p = *e->poly; return mkPoly(std::move(p), 0, e->ilo, e->ihi); }
static void numBounds(const Expr* e, int s, double& lo, double& hi) {      // bounds of value * 2^s
  if (isConst(e)) { lo = hi = ldexp(asD((u64)e->val), s); return; }
  lo = ldexp(e->ilo, s - e->psc); hi = ldexp(e->ihi, s - e->psc); }
// a / b where a is a constant multiple of the (non-zero) polynomial b
const Expr* polyRatio(const Expr* a, const Expr* b) {
  Poly p, q; int s, t; if (a->width != 64 || !b->poly) return nullptr;
  if (isConst(a) && asD((u64)a->val) == 0) return mkConst(0, 64);
  if (!getPoly(a, p, s) || !getPoly(b, q, t) || p.t.size() != q.t.size() || p.t.empty()) return nullptr;
  for (size_t i = 0; i < p.t.size(); ++i) { if (p.t[i].first != q.t[i].first) return nullptr;
    if (std::fabs((double)p.t[i].second) > 1e15 || std::fabs((double)q.t[0].second) > 1e15 || std::fabs((double)q.t[i].second) > 1e15 || std::fabs((double)p.t[0].second) > 1e15) return nullptr;
    if (p.t[i].second * q.t[0].second != q.t[i].second * p.t[0].second) return nullptr; }
  return mkConst(fromD(ldexp((double)p.t[0].second / (double)q.t[0].second, t - s)), 64); }
static const Expr* polyBin(Kind k, const Expr* a, const Expr* b) {
  if (a->width != 64 || !(a->poly || b->poly)) return nullptr;
  Poly p, q; int s, t; if (!getPoly(a, p, s) || !getPoly(b, q, t)) return nullptr;
  double al, ah, bl, bh;
  if (k == K_FADD || k == K_FSUB) {
    int m = std::max(s, t); if (m - s > 45 || m - t > 45) return nullptr;
    for (auto& x : p.t) x.second <<= (m - s);
    for (auto& x : q.t) { x.second <<= (m - t); if (k == K_FSUB) x.second = -x.second; p.t.push_back(x); }
    if (!polyAddTo(p.t)) return nullptr;
    numBounds(a, m, al, ah); numBounds(b, m, bl, bh);
    return k == K_FADD ? mkPoly(std::move(p), m, al + bl, ah + bh) : mkPoly(std::move(p), m, al - bh, ah - bl);
  }
  if (k == K_FMUL) {
    Poly r; if (p.t.size() * q.t.size() > 900) return nullptr;
    for (auto& x : p.t) for (auto& y : q.t) {
      if (std::fabs((double)x.second) * std::fabs((double)y.second) > 1e29) return nullptr;
      std::vector<uint32_t> m(x.first); m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end());
      r.t.push_back({m, x.second * y.second}); }
    if (!polyAddTo(r.t)) return nullptr;
    numBounds(a, s, al, ah); numBounds(b, t, bl, bh);
    double z[4] = { al * bl, al * bh, ah * bl, ah * bh }; double lo = *std::min_element(z, z + 4), hi = *std::max_element(z, z + 4);
    if (a == b && lo < 0) lo = 0;
    if (!(std::fabs(lo) < EXACTMAX && std::fabs(hi) < EXACTMAX)) return nullptr;      // products above are rounded otherwise
    return mkPoly(std::move(r), s + t, lo, hi);
  }
  if (k == K_FDIV) {
    if (isConst(b)) { double d = asD((u64)b->val); int ex; double m = frexp(d, &ex); if ((m == 0.5 || m == -0.5) && ex > -40 && ex < 40) return polyBin(K_FMUL, a, mkConst(fromD(1.0 / d), 64)); return nullptr; }
    if (!b->poly || !(b->ilo > 0 || b->ihi < 0)) return nullptr;
    return polyRatio(a, b);
  }
  return nullptr;
}
// value of a poly given integer values
static __int128 igcd(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 t = a % b; a = b; b = t; } return a; }
// p <= t  (integers), canonical: no constant term, content 1, first coefficient positive
static const Expr* polyLe(Poly p, __int128 t, double lo, double hi) {
  for (size_t i = 0; i < p.t.size(); ++i) if (p.t[i].first.empty()) { __int128 c = p.t[i].second; t -= c; lo -= (double)c; hi -= (double)c; p.t.erase(p.t.begin() + i); break; }
  if (p.t.empty()) return mkConst(t >= 0, 1);
  if (std::fabs(lo) < 8e15 && (__int128)lo > t) return mkConst(0, 1);
  if (std::fabs(hi) < 8e15 && (__int128)hi <= t) return mkConst(1, 1);
  __int128 g = 0; for (auto& x : p.t) g = igcd(g, x.second);
  bool neg = p.t.back().second < 0;
  auto fdiv = [](__int128 a, __int128 b) { __int128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) --q; return q; };
  for (auto& x : p.t) x.second /= neg ? -g : g;
  if (!neg) { t = fdiv(t, g); lo = std::floor(lo / (double)g); hi = std::ceil(hi / (double)g); }
  else { // -g q <= t  <=>  q >= -t/g  <=> not (q <= ceil(-t/g) - 1)
    t = -fdiv(t, g) - 1; double l = -hi / (double)g, h = -lo / (double)g; lo = std::floor(l); hi = std::ceil(h); }
  const Expr* q = mkPoly(std::move(p), 0, lo, hi);
  if (!q || t > (__int128)9e15 || t < -(__int128)9e15) { if (q) { const Expr* r = mkConst(t > 0, 1); return neg ? mkNot(r) : r; } return nullptr; }
  const Expr* r;
  if (isConst(q)) r = mkConst((__int128)asD((u64)q->val) <= t, 1);
  else if (q->ilo > (double)t) r = mkConst(0, 1);
  else if (q->ihi <= (double)t) r = mkConst(1, 1);
  else r = intern(K_FLE, 1, q, mkConst(fromD((double)t), 64), 0, 0, 0);
  return neg ? mkNot(r) : r;
}
static const Expr* polyPred(Kind k, const Expr* a, const Expr* b) {
  if (a->width != 64 || !(a->poly || b->poly)) return nullptr;
  if (k == K_FEQ) { const Expr* x = polyPred(K_FLE, a, b); const Expr* y = x && !(isConst(x) && !x->val) ? polyPred(K_FLE, b, a) : x; return x && y ? mkBin(K_AND, x, y) : nullptr; }
  if (a->poly && isConst(b)) {            // P <= c 2^s
    double c = asD((u64)b->val); if (std::isnan(c)) return mkConst(0, 1);
    double cs = ldexp(c, a->psc); if (cs > a->ihi) return mkConst(1, 1); if (cs < a->ilo) return mkConst(0, 1);
    if (!(std::fabs(cs) <= EXACTMAX)) return nullptr;
    double t = k == K_FLE ? std::floor(cs) : std::ceil(cs) - 1;
    return polyLe(*a->poly, (__int128)t, a->ilo, a->ihi);
  }
  if (b->poly && isConst(a)) {            // c < P 2^-s
    double c = asD((u64)a->val); if (std::isnan(c)) return mkConst(0, 1);
    const Expr* r = polyPred(k == K_FLE ? K_FLT : K_FLE, b, a); return r ? mkNot(r) : nullptr;
  }
  if (a->poly && b->poly) {
    if (a == b) return mkConst(k == K_FLE, 1);
    Poly p = *a->poly, q = *b->poly; int s = a->psc, t = b->psc, m = std::max(s, t); if (m - s > 40 || m - t > 40) return nullptr;
    for (auto& x : p.t) x.second <<= (m - s);
    for (auto& x : q.t) { x.second = -(x.second << (m - t)); p.t.push_back(x); }
    if (!polyAddTo(p.t)) return nullptr;
    double al, ah, bl, bh; numBounds(a, m, al, ah); numBounds(b, m, bl, bh);
    double lo, hi; polyBounds(p, lo, hi); lo = std::max(lo, al - bh); hi = std::min(hi, ah - bl);
    if (!(lo >= -EXACTMAX && hi <= EXACTMAX)) return nullptr;
    return polyLe(std::move(p), k == K_FLE ? 0 : -1, lo, hi);
  }
  return nullptr;
}
// sqrt of (a x + b)^2 / 4^h
static const Expr* polySqrt(const Expr* e) {
  if (!e->poly || e->psc % 2) return nullptr;
  const Poly& p = *e->poly; __int128 A = 0, B = 0, Cc = 0; uint32_t v = 0; bool hv = false;
  // any number of variables: linear form with coefficients from the squares
  std::vector<std::pair<uint32_t, __int128>> sq;
  auto rt = [](__int128 x, __int128& r) { if (x < 0 || x > (__int128)1 << 104) return false; r = (__int128)sqrtl((long double)x); while (r * r > x) --r; while ((r + 1) * (r + 1) <= x) ++r; return r * r == x; };
  __int128 c0 = 0; (void)A; (void)B; (void)Cc; (void)v; (void)hv;
  for (auto& t : p.t) { if (t.first.empty()) { if (!rt(t.second, c0)) return nullptr; } else if (t.first.size() == 2 && t.first[0] == t.first[1]) { __int128 r; if (!rt(t.second, r)) return nullptr; sq.push_back({t.first[0], r}); } else if (t.first.size() > 2) return nullptr; }
  if (sq.empty() || sq.size() > 4) return nullptr;
  unsigned n = sq.size();      // signs of the other coefficients relative to the first
  for (unsigned m = 0; m < (1u << n); ++m) {
    Poly l; l.t.push_back({std::vector<uint32_t>(1, sq[0].first), sq[0].second});
    for (unsigned i = 1; i < n; ++i) l.t.push_back({std::vector<uint32_t>(1, sq[i].first), (m >> (i - 1) & 1) ? -sq[i].second : sq[i].second});
    if (c0 != 0) l.t.push_back({std::vector<uint32_t>(), (m >> (n - 1) & 1) ? -c0 : c0});
    if (!polyAddTo(l.t)) return nullptr;
    Poly r; for (auto& x : l.t) for (auto& y : l.t) { std::vector<uint32_t> mm(x.first); mm.insert(mm.end(), y.first.begin(), y.first.end()); std::sort(mm.begin(), mm.end()); r.t.push_back({mm, x.second * y.second}); }
    if (!polyAddTo(r.t)) return nullptr;
    if (r.t == p.t) { const Expr* q = mkPoly(std::move(l), e->psc / 2); return q ? mkFUn(K_FABS, q) : nullptr; }
  }
  return nullptr;
}

// ---- monotone chains: a composition of monotone operations with constants over one integer-valued double.
// A comparison of such a chain with a constant is the comparison of the base with a threshold, found by
// evaluating the chain itself (the machine's own arithmetic) in a binary search.
static int chainDir(const Expr* e, const Expr*& base, int d = 0) {      // 0: not a chain, +1 / -1 direction
  if (e->kind == K_POLY) { const Expr* q = polyInt(e); if (!q || isConst(q)) return 0; base = q; return 1; }
  if (e->exactInt && (e->kind == K_VAR || e->kind == K_FADD || e->kind == K_FSUB || e->kind == K_FMUL || e->kind == K_FNEG || e->kind == K_ITE || e->kind == K_FABS)) {
    base = e; return 1; }
  if (d > 12) return 0;
  auto C = [](const Expr* x, double& v) { if (!isConst(x) || x->width != 64) return false; v = asD((u64)x->val); return std::isfinite(v); };
  double c; int r;
  switch (e->kind) {
    case K_FADD: if (C(e->b, c)) return chainDir(e->a, base, d + 1); if (C(e->a, c)) return chainDir(e->b, base, d + 1); return 0;
    case K_FSUB: if (C(e->b, c)) return chainDir(e->a, base, d + 1); if (C(e->a, c)) return -chainDir(e->b, base, d + 1); return 0;
    case K_FMUL: if (C(e->a, c) && c != 0) { r = chainDir(e->b, base, d + 1); return c > 0 ? r : -r; } if (C(e->b, c) && c != 0) { r = chainDir(e->a, base, d + 1); return c > 0 ? r : -r; } return 0;
    case K_FDIV: if (C(e->b, c) && c != 0) { r = chainDir(e->a, base, d + 1); return c > 0 ? r : -r; } return 0;
    case K_FNEG: return -chainDir(e->a, base, d + 1);
    case K_FSQRT: case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FROUND: case K_FRINT: case K_FPTOSI: return chainDir(e->a, base, d + 1);
    case K_UF: { const std::string& n = g_ufNames[e->aux]; if (n == "log" || n == "exp" || n == "log10" || n == "atan") return chainDir(e->a, base, d + 1); return 0; }
    case K_ADD: if (isConst(e->b)) return chainDir(e->a, base, d + 1); return 0;
    case K_SEXT: return chainDir(e->a, base, d + 1);
    default: return 0;
  }
}
// evaluates the chain at a base value; false when some step leaves the domain (NaN, infinity, integer overflow)
static bool chainEval(const Expr* e, const Expr* base, double x, double& out, bool& isInt) {
  if (e == base) { out = x; isInt = false; return true; }
  if (e->kind == K_POLY) { out = ldexp(x, -e->psc); isInt = false; return true; }
  double v; bool ii; u64 r; const Expr* in = (e->a && e->a->kind != K_CONST) ? e->a : e->b;
  if (!chainEval(in, base, x, v, ii)) return false;
  switch (e->kind) {
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: {
      u64 p = in == e->a ? fromD(v) : (u64)e->a->val, q = in == e->a ? (u64)e->b->val : fromD(v);
      if (!foldF2(e->kind, p, q, 64, r)) return false; out = asD(r); isInt = false; return std::isfinite(out); }
    case K_FNEG: case K_FSQRT: case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FROUND: case K_FRINT:
      if (!foldF1(e->kind, fromD(v), 64, r)) return false; out = asD(r); isInt = false; return std::isfinite(out);
    case K_UF: { bool ok; out = ufConcrete(e->aux, v, 0, ok); isInt = false; return ok && std::isfinite(out); }
    case K_FPTOSI: if (!(v > -2147483648.0 && v < 2147483647.0)) return false; out = std::trunc(v); isInt = true; return true;
    case K_ADD: if (!ii) return false; out = v + (double)(int64_t)sx(e->b->val, e->width); isInt = true; return out > -2147483648.0 && out < 2147483647.0;
    case K_SEXT: out = v; isInt = ii; return ii;
    default: return false;
  }
}
// the machine's own value of the chain at a base value, domain errors included
static bool chainBits(const Expr* e, const Expr* base, double x, u64& out) {
  if (e == base) { out = fromD(x); return true; }
  if (e->kind == K_POLY) { out = fromD(ldexp(x, -e->psc)); return true; }
  u64 v; const Expr* in = (e->a && e->a->kind != K_CONST) ? e->a : e->b;
  if (!chainBits(in, base, x, v)) return false;
  switch (e->kind) {
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: return foldF2(e->kind, in == e->a ? v : (u64)e->a->val, in == e->a ? (u64)e->b->val : v, 64, out);
    case K_FNEG: case K_FSQRT: case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FROUND: case K_FRINT: return foldF1(e->kind, v, 64, out);
    case K_UF: { bool ok; out = fromD(ufConcrete(e->aux, asD(v), 0, ok)); return ok; }
    case K_FPTOSI: return foldConv(K_FPTOSI, v, 64, e->width, out);
    case K_ADD: { u128 r; if (!foldBin(K_ADD, v, e->b->val, e->width, r)) return false; out = (u64)r; return true; }
    case K_SEXT: out = (u64)((u128)sx(v, e->a->width) & maskw(e->width)); return true;
    default: return false;
  }
}
// c OP K with OP in {<, <=} ; swap: K OP c
static const Expr* chainCmp(const Expr* c, double K, bool strict, bool swap) {
  const Expr* base; int dir = chainDir(c, base); if (!dir || c == base) return nullptr;
  double lo = base->ilo, hi = base->ihi, v; bool ii;
  bool dl = chainEval(c, base, lo, v, ii), dh = chainEval(c, base, hi, v, ii);
  if (!dl && !dh) return nullptr;
  double full = dl ? hi : lo;                        // the undefined end
  if (!dl || !dh) {                                  // narrow to the part of the range where every step is defined
    double in = dl ? lo : hi, out = full;
    while (std::fabs(in - out) > 1) { double m = std::floor((in + out) / 2); if (chainEval(c, base, m, v, ii)) in = m; else out = m; }
    if (dl) hi = in; else lo = in;
  }
  auto P = [&](double x) { double y; bool i2; chainEval(c, base, x, y, i2); return swap ? (strict ? K < y : K <= y) : (strict ? y < K : y <= K); };
  bool pl = P(lo), ph = P(hi);
  double l0 = lo, h0 = hi;
  const Expr* in;
  if (pl == ph) in = mkConst(pl, 1);
  else {
    while (hi - lo > 1) { double m = std::floor((lo + hi) / 2); if (P(m) == pl) lo = m; else hi = m; }
    // P == pl for base <= lo, != pl for base >= hi
    in = pl ? mkFBin(K_FLE, base, mkConst(fromD(lo), 64)) : mkFBin(K_FLE, mkConst(fromD(hi), 64), base);
  }
  if (dl && dh) return in;
  auto Q = [&](double x, bool& r) { u64 y; if (!chainBits(c, base, x, y)) return false; double d = c->kind == K_FPTOSI || c->kind == K_ADD || c->kind == K_SEXT ? (double)(int64_t)sx(y, c->width) : asD(y);
    r = swap ? (strict ? K < d : K <= d) : (strict ? d < K : d <= K); return true; };
  double e1 = dl ? h0 + 1 : l0 - 1, e2 = dl ? e1 + 1 : e1 - 1; bool q1, q2, q3; 
  if (!Q(e1, q1) || !Q(full, q3)) return nullptr;
  if (e1 == full) q2 = q3; else if (!Q(e2, q2)) return nullptr;
  if (q2 != q3) return nullptr;
  const Expr* inside = dl ? mkFBin(K_FLE, base, mkConst(fromD(h0), 64)) : mkFBin(K_FLE, mkConst(fromD(l0), 64), base);
  const Expr* outer = q1 == q2 ? mkConst(q1, 1) : mkIte(mkFBin(K_FEQ, base, mkConst(fromD(e1), 64)), mkConst(q1, 1), mkConst(q2, 1));
  return mkIte(inside, in, outer);
}
static const Expr* chainPred(Kind k, const Expr* a, const Expr* b) {
  auto val = [](const Expr* x, double& v) { if (!isConst(x)) return false; if (x->width == 64 ) v = asD((u64)x->val); return true; };
  bool fp = k == K_FEQ || k == K_FLT || k == K_FLE; double K;
  const Expr* ch; bool swap; 
  if (isConst(b)) { ch = a; swap = false; } else if (isConst(a)) { ch = b; swap = true; } else return nullptr;
  const Expr* kc = swap ? a : b;
  const Expr* base; if (!chainDir(ch, base)) return nullptr;
  if (fp) { if (kc->width != 64 || !val(kc, K) || std::isnan(K)) return nullptr; }
  else K = (double)(int64_t)sx(kc->val, kc->width);
  switch (k) {
    case K_FLT: case K_SLT: return chainCmp(ch, K, true, swap);
    case K_FLE: case K_SLE: return chainCmp(ch, K, false, swap);
    case K_FEQ: case K_EQ: { const Expr* x = chainCmp(ch, K, false, false); const Expr* y = chainCmp(ch, K, false, true); return x && y ? mkBin(K_AND, x, y) : nullptr; }
    default: return nullptr;
  }
}

const Expr* mkBin(Kind k, const Expr* a, const Expr* b) {
  unsigned w = a->width;
  bool pred = k >= K_EQ && k <= K_SLE;
  unsigned rw = pred ? 1 : w;
  u128 r;
  if (isConst(a) && isConst(b)) { foldBin(k, a->val, b->val, w, r); return mkConst(r, rw); }
  // canonical order: constant on the right for commutative ops
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(K_ADD, a, mkConst((u128)0 - b->val, w));
      if (a->kind == K_ADD && isConst(a->b) && a->a == b) return a->b;
      if (a->kind == K_ADD && isConst(a->b) && b->kind == K_ADD && isConst(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkConst(a->b->val - b->b->val, w));
      break;
    case K_ADD:
      if (isConstV(b, 0)) return a;
      if (isConst(b) && a->kind == K_ADD && isConst(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->val + b->val, w));
      if (!isConst(b)) {
        if (a->kind == K_ADD && isConst(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
        if (b->kind == K_ADD && isConst(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
        if (b->kind == K_SUB && b->b == a) return b->a;
        if (a->kind == K_SUB && a->b == b) return a->a;
      }
      break;
    case K_MUL:
      if (isConstV(b, 0)) return b;
      if (isConstV(b, 1)) return a;
      break;
    case K_UDIV: if (isConstV(b, 1)) return a; if (isConst(b) && b->val && umax(a) < b->val) return mkConst(0, w); break;
    case K_SDIV: if (isConstV(b, 1)) return a; break;
    case K_UREM: if (isConstV(b, 1)) return mkConst(0, w); if (isConst(b) && b->val && umax(a) < b->val) return a; break;
    case K_AND:
      if (a == b) return a;
      if (isConstV(b, 0)) return b;
      if (isConstV(b, m)) return a;
      if (isConst(b) && a->kind == K_AND && isConst(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->val & b->val, w));
      if (isConst(b) && a->kind == K_ZEXT) { u128 im = maskw(a->a->width); if ((b->val & im) == im) return a; return mkZExt(mkBin(K_AND, a->a, mkConst(b->val & im, a->a->width)), w); }
      { const Expr* x; if (isNot(a, x) && x == b) return mkConst(0, w); if (isNot(b, x) && x == a) return mkConst(0, w); }
      break;
    case K_OR:
      if (a == b) return a;
      if (isConstV(b, 0)) return a;
      if (isConstV(b, m)) return b;
      { const Expr* x; if (isNot(a, x) && x == b) return mkConst(m, w); if (isNot(b, x) && x == a) return mkConst(m, w); }
      // or of zext low part and shl'ed high part -> concat
      if (b->kind == K_SHL && a->kind != K_SHL) std::swap(a, b);
      if (a->kind == K_SHL && isConst(a->b) && b->kind == K_ZEXT && a->b->val >= b->a->width && a->b->val < w) {
        unsigned s = (unsigned)a->b->val; const Expr* hi = mkExtract(a->a, 0, w - s);
        return mkConcat(hi, mkZExt(b->a, s));
      }
      if (a->id > b->id) std::swap(a, b);
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isConstV(b, 0)) return a;
      if (isConst(b) && a->kind == K_XOR && isConst(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      break;
    case K_SHL:
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case K_LSHR:
      if (isConst(b)) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K_ASHR:
      if (isConst(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K_EQ:
      if (a == b) return mkConst(1, 1);
      if (umax(a) < umin(b) || umax(b) < umin(a)) return mkConst(0, 1);
      if (isConst(b) && w <= 64 && a->ulo == a->uhi && a->ulo == b->val) return mkConst(1, 1);
      if (w == 1) {
        if (isConst(b)) return b->val ? a : mkNot(a);
      }
      if (isConst(b)) {
        if (a->kind == K_ZEXT) { if (b->val > maskw(a->a->width)) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(b->val, a->a->width)); }
        if (a->kind == K_SEXT) { const Expr* t = mkConst(b->val, a->a->width); if ((u128)sx(t->val, t->width) != 0 || true) { if (((u128)sx(t->val, t->width) & m) != b->val) return mkConst(0, 1); } return mkBin(K_EQ, a->a, t); }
        if (a->kind == K_ADD && isConst(a->b)) return mkBin(K_EQ, a->a, mkConst(b->val - a->b->val, w));
        if (a->kind == K_XOR && isConst(a->b)) return mkBin(K_EQ, a->a, mkConst(b->val ^ a->b->val, w));
        if (a->kind == K_SUB && b->val == 0) return mkBin(K_EQ, a->a, a->b);
        if (a->kind == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->c, b));
        if (a->kind == K_CONCAT) { unsigned lw = a->b->width; return mkBin(K_AND, mkBin(K_EQ, a->a, mkConst(b->val >> lw, a->a->width)), mkBin(K_EQ, a->b, mkConst(b->val, lw))); }
      }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_EQ, a->a, b->a);
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkBin(K_EQ, a->a, b->a);
      if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->width == b->b->width) return mkBin(K_AND, mkBin(K_EQ, a->a, b->a), mkBin(K_EQ, a->b, b->b));
      break;
    case K_ULT: case K_ULE: {
      if (a == b) return mkConst(k == K_ULE, 1);
      if (k == K_ULT ? umax(a) < umin(b) : umax(a) <= umin(b)) return mkConst(1, 1);
      if (k == K_ULT ? umin(a) >= umax(b) : umin(a) > umax(b)) return mkConst(0, 1);
      if (isConst(b)) {
        if (k == K_ULT && b->val == 0) return mkConst(0, 1);
        if (k == K_ULE && b->val == m) return mkConst(1, 1);
        u128 mx = umax(a);
        if (k == K_ULT ? mx < b->val : mx <= b->val) return mkConst(1, 1);
        if (a->kind == K_ZEXT) return mkBin(k, a->a, mkConst(b->val, a->a->width));
        if (k == K_ULT && b->val == 1) return mkBin(K_EQ, a, mkConst(0, w));
        if (a->kind == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      }
      if (isConst(a)) {
        if (k == K_ULT && a->val == m) return mkConst(0, 1);
        if (k == K_ULE && a->val == 0) return mkConst(1, 1);
        u128 mx = umax(b);
        if (k == K_ULT ? a->val >= mx : a->val > mx) return mkConst(0, 1);
        if (b->kind == K_ZEXT) return mkBin(k, mkConst(a->val, b->a->width), b->a);
        if (b->kind == K_ITE && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
      break; }
    case K_SLT: case K_SLE: {
      if (a == b) return mkConst(k == K_SLE, 1);
      u128 half = (u128)1 << (w - 1);
      // both known non-negative -> unsigned
      u128 ma = umax(a), mb = umax(b);
      if (ma < half && mb < half) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (ma < half && umin(b) >= half) return mkConst(0, 1);
      if (mb < half && umin(a) >= half) return mkConst(1, 1);
      if (umin(a) >= half && umin(b) >= half) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (isConst(b) && a->kind == K_SEXT) {
        unsigned iw = a->a->width; __int128 bv = sx(b->val, w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1;
        if (bv > hi) return mkConst(1, 1); if (bv < lo) return mkConst(0, 1);
        return mkBin(k, a->a, mkConst((u128)bv, iw));
      }
      if (isConst(a) && b->kind == K_SEXT) {
        unsigned iw = b->a->width; __int128 av = sx(a->val, w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1;
        if (av > hi) return mkConst(0, 1); if (av < lo) return mkConst(1, 1);
        return mkBin(k, mkConst((u128)av, iw), b->a);
      }
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
      if (isConst(b) && a->kind == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (isConst(a) && b->kind == K_ITE && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      break; }
    default: break;
  }
  if (pred && (a->hasFP || b->hasFP) && (isConst(a) || isConst(b)) && (k == K_EQ || k == K_SLT || k == K_SLE)) { const Expr* t = chainPred(k, a, b); if (t) return t; }
  // lift over ite with two constant arms
  if (!pred && isConst(b) && a->kind == K_ITE && isConst(a->b) && isConst(a->c))
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  return intern(k, rw, a, b, 0, 0, 0);
}

const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
  if (isConstV(hi, 0)) return mkZExt(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->a, lo->aux, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_CONCAT && lo->a->kind == K_EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  // whole value on low side: extract(x, off = width..) not possible; handle hi extract following a full low expression
  if (hi->kind == K_ZEXT && false) return 0;
  return intern(K_CONCAT, w, hi, lo, 0, 0, 0);
}
const Expr* mkExtract(const Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (isConst(a)) return mkConst(a->val >> off, w);
  if (a->kind == K_EXTRACT) return mkExtract(a->a, a->aux + off, w);
  if (a->kind == K_CONCAT) {
    unsigned lw = a->b->width;
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    if (off + w <= lw) return mkExtract(a->b, off, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
  }
  if (a->kind == K_ZEXT) {
    unsigned iw = a->a->width;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, iw - off), w);
  }
  if (a->kind == K_SEXT) {
    unsigned iw = a->a->width;
    if (off + w <= iw) return mkExtract(a->a, off, w);
    if (off == 0) return mkSExt(a->a, w);
  }
  if (a->kind == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
  if (off == 0 && (a->kind == K_ADD || a->kind == K_SUB || a->kind == K_MUL || a->kind == K_AND || a->kind == K_OR || a->kind == K_XOR) && !a->hasFP)
    return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if ((a->kind == K_AND || a->kind == K_OR || a->kind == K_XOR) && !a->hasFP)
    return mkBin(a->kind, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  return intern(K_EXTRACT, w, a, 0, 0, off, 0);
}
const Expr* mkZExt(const Expr* a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(K_ZEXT, w, a, 0, 0, 0, 0);
}
const Expr* mkSExt(const Expr* a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConst((u128)sx(a->val, a->width), w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_SEXT) return mkSExt(a->a, w);
  if (a->kind == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SEXT, w, a, 0, 0, 0, 0);
}
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  const Expr* in;
  if (isNot(c, in)) { std::swap(a, b); c = in; }
  if (a->width == 1) {
    if (isConst(a) && isConst(b)) return a->val ? c : mkNot(c);
    if (isConst(a)) return a->val ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isConst(b)) return b->val ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (a->kind == K_ITE && a->a == c) a = a->b;
  if (b->kind == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(K_ITE, a->width, c, a, b, 0, 0);
}
static bool polyTree(const Expr* e, int d) {
  if (e->kind == K_ITE) return d > 0 && polyTree(e->b, d - 1) && polyTree(e->c, d - 1);
  return e->poly || (isConst(e) && e->width == 64 && std::isfinite(asD((u64)e->val))); }
// bounds of a double from the bounds of its operands (rounding is monotone); no bounds means it may be anything
struct FRange { double lo, hi; bool ok; };
static std::unordered_map<const Expr*, FRange> g_fr;
static FRange frange(const Expr* e, int d = 0) {
  FRange N{0, 0, false}; if (e->width != 64) return N;
  if (isConst(e)) { double v = asD((u64)e->val); return std::isfinite(v) ? FRange{v, v, true} : N; }
  if (e->poly) return FRange{ldexp(e->ilo, -e->psc), ldexp(e->ihi, -e->psc), true};
  if (e->exactInt) return FRange{e->ilo, e->ihi, true};
  if (d > 60) return N;
  auto it = g_fr.find(e); if (it != g_fr.end()) return it->second;
  FRange r = N, x, y;
  auto A = [&]() { x = frange(e->a, d + 1); return x.ok; };
  auto B = [&]() { y = frange(e->b, d + 1); return y.ok; };
  switch (e->kind) {
    case K_FADD: if (A() && B()) r = FRange{x.lo + y.lo, x.hi + y.hi, true}; break;
    case K_FSUB: if (A() && B()) r = FRange{x.lo - y.hi, x.hi - y.lo, true}; break;
    case K_FMUL: if (A() && B()) { double q[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; r = FRange{*std::min_element(q, q + 4), *std::max_element(q, q + 4), true}; if (e->a == e->b) { if (x.lo <= 0 && x.hi >= 0) r.lo = 0; else r.lo = std::min(q[0], q[3]); } } break;
    case K_FDIV: if (A() && B() && (y.lo > 0 || y.hi < 0)) { double q[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}; r = FRange{*std::min_element(q, q + 4), *std::max_element(q, q + 4), true}; } break;
    case K_FNEG: if (A()) r = FRange{-x.hi, -x.lo, true}; break;
    case K_FABS: if (A()) r = FRange{x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0, std::max(std::fabs(x.lo), std::fabs(x.hi)), true}; break;
    case K_FSQRT: if (A() && x.lo >= 0) r = FRange{std::sqrt(x.lo), std::sqrt(x.hi), true}; break;
    case K_FFLOOR: if (A()) r = FRange{std::floor(x.lo), std::floor(x.hi), true}; break;
    case K_FCEIL: if (A()) r = FRange{std::ceil(x.lo), std::ceil(x.hi), true}; break;
    case K_ITE: { FRange u = frange(e->b, d + 1), v = frange(e->c, d + 1); if (u.ok && v.ok) r = FRange{std::min(u.lo, v.lo), std::max(u.hi, v.hi), true}; break; }
    default: break;
  }
  if (r.ok && !(std::isfinite(r.lo) && std::isfinite(r.hi))) r = N;
  if (d < 55) g_fr[e] = r;
  return r;
}
// a double as a polynomial over the integer-valued variables and a bound of the distance to it: every operation adds
// its rounding error, so that differences of nearly equal values keep their common part
typedef std::vector<uint32_t> Mono;
struct Aff { std::vector<std::pair<Mono, double>> t; double d; bool ok; };
static std::unordered_map<const Expr*, Aff> g_aff;
static void monoRange(const Mono& m, double& lo, double& hi) {
  lo = hi = 1;
  for (size_t i = 0; i < m.size();) {
    size_t j = i; while (j < m.size() && m[j] == m[i]) ++j;
    double l = (double)g_vars[m[i]].lo, h = (double)g_vars[m[i]].hi, pl = 1, ph = 1; unsigned n = j - i;
    if (n % 2 == 0) { double al = l > 0 ? l : h < 0 ? -h : 0, ah = std::max(std::fabs(l), std::fabs(h)); for (unsigned q = 0; q < n; ++q) { pl *= al; ph *= ah; } } else { for (unsigned q = 0; q < n; ++q) { pl *= l; ph *= h; } }
    double c[4] = {lo * pl, lo * ph, hi * pl, hi * ph}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); i = j; } }
static void affRange(const Aff& a, double& lo, double& hi) {
  lo = hi = 0; double m = 0;
  for (auto& x : a.t) { double l, h; monoRange(x.first, l, h); double p = x.second * l, q = x.second * h; lo += std::min(p, q); hi += std::max(p, q); m += std::max(std::fabs(p), std::fabs(q)); }
  double e = a.d * 1.0000001 + m * 1e-14; lo -= e; hi += e; }
static double affMax(const Aff& a) { double l, h; affRange(a, l, h); return std::max(std::fabs(l), std::fabs(h)); }
static double monoMax(const Mono& m) { double l, h; monoRange(m, l, h); return std::max(std::fabs(l), std::fabs(h)); }
// sums equal monomials; inexact coefficient sums and negligible terms go to the distance
static void affNorm(Aff& a) {
  std::sort(a.t.begin(), a.t.end(), [](const std::pair<Mono, double>& x, const std::pair<Mono, double>& y) { return x.first < y.first; });
  std::vector<std::pair<Mono, double>> r;
  for (auto& x : a.t) {
    if (!r.empty() && r.back().first == x.first) { double u = r.back().second, v = x.second, s = u + v, z = s - u, e = (u - (s - z)) + (v - z); if (e != 0) a.d += std::fabs(e) * 1.01 * monoMax(x.first); r.back().second = s; }
    else r.push_back(x); }
  a.t.clear(); for (auto& x : r) { if (x.second == 0) continue; double m = std::fabs(x.second) * monoMax(x.first); if (m < 1e-9 && !x.first.empty()) { a.d += m * 1.01; continue; } a.t.push_back(x); }
  if (a.t.size() > 150 || !std::isfinite(a.d)) a.ok = false; }
static Aff affine(const Expr* e, int d = 0) {
  Aff N; N.d = 0; N.ok = false; if (e->width != 64 || d > 50) return N;
  auto it = g_aff.find(e); if (it != g_aff.end()) return it->second;
  Aff r = N, x, y; r.ok = true; bool rnd = false;
  auto A = [&]() { x = affine(e->a, d + 1); return x.ok; };
  auto B = [&]() { y = affine(e->b, d + 1); return y.ok; };
  if (isConst(e)) { double v = asD((u64)e->val); if (!std::isfinite(v)) return N; if (v != 0) r.t.push_back({Mono(), v}); }
  else if (e->poly) { for (auto& m : e->poly->t) { double c = ldexp((double)m.second, -e->psc); if ((__int128)(double)m.second != m.second) return N; r.t.push_back({m.first, c}); } if (e->kind == K_VAR && e->poly->t.empty()) return N; }
  else switch (e->kind) {
    case K_FADD: case K_FSUB: if (!A() || !B()) { r.ok = false; break; } r = x; r.d += y.d; for (auto& m : y.t) r.t.push_back({m.first, e->kind == K_FADD ? m.second : -m.second}); affNorm(r); rnd = true; break;
    case K_FMUL: if (!A() || !B() || x.t.size() * y.t.size() > 400) { r.ok = false; break; } { double mx = affMax(x), my = affMax(y); r.d = (x.d * my + y.d * mx + x.d * y.d) * 1.0000001;
      for (auto& m : x.t) for (auto& n : y.t) { Mono q(m.first); q.insert(q.end(), n.first.begin(), n.first.end()); std::sort(q.begin(), q.end()); if (q.size() > 8) { r.ok = false; break; } double c = m.second * n.second, er = std::fma(m.second, n.second, -c); if (er != 0) r.d += std::fabs(er) * 1.01 * monoMax(q); r.t.push_back({q, c}); } if (r.ok) affNorm(r); rnd = true; } break;
    case K_FDIV: if (!isConst(e->b) || !A()) { r.ok = false; break; } { double c = asD((u64)e->b->val); if (!std::isfinite(c) || c == 0) { r.ok = false; break; } r = x; r.d = r.d / std::fabs(c) * 1.0000001; for (auto& m : r.t) { m.second /= c; r.d += std::fabs(m.second) * 2.3e-16 * monoMax(m.first); } affNorm(r); rnd = true; } break;
    case K_FNEG: if (!A()) { r.ok = false; break; } r = x; for (auto& m : r.t) m.second = -m.second; break;
    case K_FABS: { if (!A()) { r.ok = false; break; } double l, h; affRange(x, l, h); r = x; if (l >= 0) break; if (h <= 0) { for (auto& m : r.t) m.second = -m.second; break; } r.ok = false; break; }
    default: r.ok = false; }
  if (!r.ok) { FRange f = frange(e); r = N; if (f.ok) { r.ok = true; double c = f.lo / 2 + f.hi / 2; if (c != 0) r.t.push_back({Mono(), c}); r.d = (f.hi / 2 - f.lo / 2) * 1.0000001 + std::fabs(c) * 1e-15; } }
  else if (rnd) { double m = affMax(r); if (!(m < 1e290)) r.ok = false; r.d += m * 1.2e-16 + 1e-300; }
  if (d < 45) g_aff[e] = r;
  return r; }
// 1: a < b for all values, -1: a >= b for all values, 0: neither is known.   eq: set when a == b is excluded
static int affLess(const Expr* a, const Expr* b, bool le, bool& ne) {
  ne = false; Aff x = affine(a); if (!x.ok) return 0; Aff y = affine(b); if (!y.ok) return 0;
  x.d += y.d; for (auto& m : y.t) x.t.push_back({m.first, -m.second}); affNorm(x); if (!x.ok) return 0;
  double l, h; affRange(x, l, h); if (h < 0) { ne = true; return 1; } if (l > 0) { ne = true; return -1; } (void)le; return 0; }
const Expr* mkFBin(Kind k, const Expr* a, const Expr* b) {
  u64 r; bool pred = k >= K_FEQ && k <= K_FUNO;
  if (isConst(a) && isConst(b) && foldF2(k, (u64)a->val, (u64)b->val, a->width, r)) return mkConst(r, pred ? 1 : a->width);
  if (a->width == 64 && k != K_FUNO && (a->kind == K_ITE || b->kind == K_ITE)) {      // lift over a choice between exact values
    if (a->kind == K_ITE && polyTree(a, 3) && polyTree(b, 3)) return mkIte(a->a, mkFBin(k, a->b, b), mkFBin(k, a->c, b));
    if (b->kind == K_ITE && polyTree(a, 3) && polyTree(b, 3)) return mkIte(b->a, mkFBin(k, a, b->b), mkFBin(k, a, b->c));
  }
  if (!pred) { const Expr* pe = polyBin(k, a, b); if (pe) return pe; }
  else if (k != K_FUNO) { const Expr* pe = polyPred(k, a, b); if (pe) return pe; }
  if (k == K_FSUB && a == b && a->width == 64) {
    const Expr* bs; double v; bool ii;
    if (a->exactInt || (chainDir(a, bs) && chainEval(a, bs, bs->ilo, v, ii) && chainEval(a, bs, bs->ihi, v, ii))) return mkConst(fromD(0.0), 64);
  }
  if (k == K_FMUL && a->width == 64) {
    if (isConst(a)) std::swap(a, b);
    if (isConstV(b, fromD(1.0))) return a;          // exact for every non-sNaN value
    if (isConst(b) && asD((u64)b->val) == 0 && frange(a).ok) return mkConst(fromD(0.0), 64);      // the sign of zero is not tracked
  }
  if (k == K_FADD && a->width == 64) { if (isConst(a)) std::swap(a, b); if (isConst(b) && asD((u64)b->val) == 0 && frange(a).ok) return a; }
  if (k == K_FSUB && a->width == 64 && isConst(b) && asD((u64)b->val) == 0 && frange(a).ok) return a;
  if (k == K_FDIV && a->width == 64 && isConstV(b, fromD(1.0))) return a;
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO) && a->id > b->id) std::swap(a, b);
  if (k == K_FUNO) {
    auto nn = [](const Expr* x) { return x->exactInt || x->poly || (!isConst(x) && frange(x).ok) || (isConst(x) && x->width == 64 && !std::isnan(asD((u64)x->val))); };
    if (nn(a) && nn(b)) return mkConst(0, 1);
    if (nn(a)) return intern(K_FUNO, 1, b, b, 0, 0, 0);
    if (nn(b)) return intern(K_FUNO, 1, a, a, 0, 0, 0);
  }
  if (k == K_FEQ && a == b) return mkNot(mkFBin(K_FUNO, a, a));
  if (k == K_FLT && a == b) return mkConst(0, 1);
  if (pred && isConst(b) && a->kind == K_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkFBin(k, a->b, b), mkFBin(k, a->c, b));
  if (pred && isConst(a) && b->kind == K_ITE && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkFBin(k, a, b->b), mkFBin(k, a, b->c));
  if (pred && k != K_FUNO && a->width == 64 && (a->kind == K_FABS || b->kind == K_FABS)) {
    if (a->kind == K_FABS && isConst(b) && a->a->poly) { double c = asD((u64)b->val); if (c < 0) return mkConst(0, 1); if (k == K_FEQ) return mkBin(K_OR, mkFBin(k, a->a, b), mkFBin(k, a->a, mkConst(fromD(-c), 64))); if (c >= 0) return mkBin(K_AND, mkFBin(k, a->a, b), mkFBin(k, mkConst(fromD(-c), 64), a->a)); }
    if (b->kind == K_FABS && isConst(a) && b->a->poly) { double c = asD((u64)a->val); if (c >= 0 && k != K_FEQ) return mkBin(K_OR, mkFBin(k, a, b->a), mkFBin(k, b->a, mkConst(fromD(-c), 64))); }
  }
  if (pred && k != K_FUNO && a->width == 64) {
    // bounds of integer-valued operands
    auto bd = [](const Expr* x, double& l, double& h) { if (isConst(x)) { l = h = asD((u64)x->val); return !std::isnan(l); } FRange f = frange(x); l = f.lo; h = f.hi; return f.ok; };
    double al, ah, bl, bh;
    if (bd(a, al, ah) && bd(b, bl, bh)) {
      if (k == K_FLT) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(0, 1); }
      if (k == K_FLE) { if (ah <= bl) return mkConst(1, 1); if (al > bh) return mkConst(0, 1); }
      if (k == K_FEQ) { if (ah < bl || bh < al) return mkConst(0, 1); }
      if (!(a->poly && (b->poly || isConst(b))) && !(b->poly && isConst(a)) && !a->hasUF && !b->hasUF) { bool ne; int o = affLess(a, b, k == K_FLE, ne); if (o > 0) return mkConst(k != K_FEQ, 1); if (o < 0) return mkConst(0, 1); }
    }
    const Expr* t = chainPred(k, a, b); if (t) return t;
  }
  if (k == K_FUNO) {      // a chain defined at both ends of its base range is never NaN
    auto def = [](const Expr* x) { if (isConst(x)) return !std::isnan(asD((u64)x->val)); if (x->exactInt) return true; const Expr* bs; double v; bool ii; return x->width == 64 && chainDir(x, bs) && chainEval(x, bs, bs->ilo, v, ii) && chainEval(x, bs, bs->ihi, v, ii); };
    if (def(a) && def(b)) return mkConst(0, 1);
  }
  return intern(k, pred ? 1 : a->width, a, b, 0, 0, 0);
}
const Expr* mkFUn(Kind k, const Expr* a) {
  u64 r;
  if (a->width == 64 && a->kind == K_ITE && polyTree(a, 3)) return mkIte(a->a, mkFUn(k, a->b), mkFUn(k, a->c));
  if (isConst(a) && foldF1(k, (u64)a->val, a->width, r)) return mkConst(r, a->width);
  if (k == K_FNEG && a->kind == K_FNEG) return a->a;
  if (k == K_FABS && (a->kind == K_FABS)) return a;
  if (k == K_FABS && (a->kind == K_FNEG)) return mkFUn(K_FABS, a->a);
  if (a->poly) {
    if (k == K_FNEG) { const Expr* r = polyBin(K_FMUL, a, mkConst(fromD(-1.0), 64)); if (r) return r; }
    if (k == K_FABS && a->ilo >= 0) return a;
    if (k == K_FABS && a->ihi <= 0) return mkFUn(K_FNEG, a);
    if (k == K_FSQRT) { const Expr* r = polySqrt(a); if (r) return r; }
  }
  if (k == K_FABS && a->exactInt && a->ilo > 0) return a;
  if (k == K_FABS && a->exactInt && a->ihi < 0) return mkFUn(K_FNEG, a);
  if ((k == K_FFLOOR || k == K_FCEIL || k == K_FTRUNC || k == K_FROUND || k == K_FRINT) && a->exactInt) return a;
  if (k == K_FABS) { const Expr* bs; double l, h; bool ii; int d = chainDir(a, bs); if (d && a != bs && chainEval(a, bs, bs->ilo, l, ii) && chainEval(a, bs, bs->ihi, h, ii)) { if (std::min(l, h) > 0) return a; if (std::max(l, h) < 0) return mkFUn(K_FNEG, a); } }
  return intern(k, a->width, a, 0, 0, 0, 0);
}
const Expr* mkConv(Kind k, const Expr* a, unsigned w) {
  u64 r;
  if (isConst(a) && foldConv(k, (u64)a->val, a->width, w, r)) return mkConst(r, w);
  if (k == K_SITOFP && a->kind == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkConv(k, a->b, w), mkConv(k, a->c, w));
  return intern(k, w, a, 0, 0, 0, 0);
}
const Expr* mkUF(unsigned fn, const Expr* a, const Expr* b) {
  if (isConst(a) && (!b || isConst(b))) { bool ok; double d = ufConcrete(fn, asD((u64)a->val), b ? asD((u64)b->val) : 0, ok); if (ok) return mkConst(fromD(d), 64); }
  return intern(K_UF, 64, a, b, 0, fn, 0);
}
V mkAgg(const std::vector<V>& v) {
  Expr* e = new Expr; memset((void*)e, 0, sizeof(Expr)); e->kind = K_AGG; e->agg = new std::vector<V>(v); e->vars = &g_emptyVS;
  return V((const Expr*)e);
}

// ---- value level
V opBin(Kind k, const V& a, const V& b, unsigned w) {
  if (a.isC() && b.isC() && w <= 64) {
    u64 x = a.c, y = b.c, m = mask64(w);
    switch (k) {
      case K_ADD: return V((x + y) & m);
      case K_SUB: return V((x - y) & m);
      case K_MUL: return V((x * y) & m);
      case K_AND: return V(x & y);
      case K_OR: return V(x | y);
      case K_XOR: return V(x ^ y);
      case K_EQ: return V((u64)(x == y));
      case K_ULT: return V((u64)(x < y));
      case K_ULE: return V((u64)(x <= y));
      default: { u128 r; foldBin(k, x, y, w, r); return V((u64)r); }
    }
  }
  return simp(mkBin(k, toE(a, w), toE(b, w)));
}
V opFBin(Kind k, const V& a, const V& b, unsigned w) {
  if (a.isC() && b.isC()) { u64 r; if (foldF2(k, a.c, b.c, w, r)) return V(r); }
  return simp(mkFBin(k, toE(a, w), toE(b, w)));
}
V opFUn(Kind k, const V& a, unsigned w) {
  if (a.isC()) { u64 r; if (foldF1(k, a.c, w, r)) return V(r); }
  return simp(mkFUn(k, toE(a, w)));
}
V opConv(Kind k, const V& a, unsigned wf, unsigned wt) {
  if (a.isC()) { u64 r; if (foldConv(k, a.c, wf, wt, r)) return V(r); }
  return simp(mkConv(k, toE(a, wf), wt));
}
V opIte(const V& c, const V& a, const V& b, unsigned w) {
  if (c.isC()) return c.c & 1 ? a : b;
  return simp(mkIte(c.e, toE(a, w), toE(b, w)));
}
V opZExt(const V& a, unsigned wf, unsigned wt) { if (a.isC() && wt <= 64) return V(a.c & mask64(wf)); return simp(mkZExt(toE(a, wf), wt)); }
V opSExt(const V& a, unsigned wf, unsigned wt) { if (a.isC() && wt <= 64) return V((u64)(int64_t)sx(a.c, wf) & mask64(wt)); return simp(mkSExt(toE(a, wf), wt)); }
V opExtract(const V& a, unsigned wf, unsigned off, unsigned w) { if (a.isC()) return V((a.c >> off) & mask64(w)); return simp(mkExtract(a.e, off, w)); }
V opNot1(const V& a) { if (a.isC()) return V((u64)!(a.c & 1)); return simp(mkNot(a.e)); }

bool Evaluator::eval(const Expr* e, u128& r) {
  switch (e->kind) {
    case K_CONST: r = e->val; return true;
    case K_VAR: { auto it = m.find(e->aux); if (it == m.end()) { r = 0; if (g_vars[e->aux].kind == 1) r = fromD((double)(g_vars[e->aux].lo > 0 ? g_vars[e->aux].lo : g_vars[e->aux].hi < 0 ? g_vars[e->aux].hi : 0)); } else r = it->second; return true; }
    default: break;
  }
  if (e->vars->v.empty() && e->kind == K_AGG) return false;
  auto it = memo.find(e);
  if (it != memo.end()) { r = it->second.second; return it->second.first; }
  bool ok = false; u128 a = 0, b = 0; u64 q;
  switch (e->kind) {
    case K_ITE: { u128 c; ok = eval(e->a, c) && eval(c ? e->b : e->c, r); break; }
    case K_CONCAT: ok = eval(e->a, a) && eval(e->b, b); r = (a << e->b->width) | b; break;
    case K_EXTRACT: ok = eval(e->a, a); r = (a >> e->aux) & maskw(e->width); break;
    case K_ZEXT: ok = eval(e->a, r); break;
    case K_SEXT: ok = eval(e->a, a); r = (u128)sx(a, e->a->width) & maskw(e->width); break;
    case K_FNEG: case K_FABS: case K_FSQRT: case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FROUND: case K_FRINT:
      ok = eval(e->a, a) && foldF1(e->kind, (u64)a, e->width, q); r = q; break;
    case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FPEXT: case K_FPTRUNC:
      ok = eval(e->a, a) && foldConv(e->kind, (u64)a, e->a->width, e->width, q); r = q; break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FEQ: case K_FLT: case K_FLE: case K_FUNO:
      ok = eval(e->a, a) && eval(e->b, b) && foldF2(e->kind, (u64)a, (u64)b, e->a->width, q); r = q; break;
    case K_UF: ok = ufConc && eval(e->a, a) && (!e->b || eval(e->b, b)); if (ok) { bool o2; r = fromD(ufConcrete(e->aux, asD((u64)a), e->b ? asD((u64)b) : 0, o2)); ok = o2; } break;
    case K_POLY: { __int128 sum = 0; for (auto& t : e->poly->t) { __int128 pr = t.second; for (auto v : t.first) { u128 x; Evaluator::eval(g_vars[v].e, x); pr *= (__int128)asD((u64)x); } sum += pr; } r = fromD(ldexp((double)sum, -e->psc)); ok = true; break; }
    case K_AGG: ok = false; break;
    default: ok = eval(e->a, a) && eval(e->b, b) && foldBin(e->kind, a, b, e->a->width, r); break;
  }
  memo[e] = std::make_pair(ok, r);
  return ok;
}

std::string exprStr(const Expr* e, int depth) {
  static const char* names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","ffloor","fceil","ftrunc","fround","frint","feq","flt","fle","funo","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","uf","poly","agg"};
  if (e->kind == K_CONST) { char b[64]; snprintf(b, 64, "%llu", (unsigned long long)e->val); return b; }
  if (e->kind == K_VAR) return g_vars[e->aux].name;
  if (depth == 0) return "...";
  if (e->kind == K_POLY) { std::string s = "{"; for (auto& t : e->poly->t) { s += (t.second < 0 ? " " : " +") + std::to_string((long long)t.second); for (auto v : t.first) s += "*" + g_vars[v].name; } return s + "}/2^" + std::to_string(e->psc); }
  std::string s = std::string("(") + names[e->kind];
  if (e->kind == K_EXTRACT) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  for (const Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
