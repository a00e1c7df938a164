// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FNEG, K_FABS, K_FSQRT,
  K_FFLOOR, K_FCEIL, K_FTRUNC, K_FROUND, K_FRINT,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC,
  K_UF,      // uninterpreted function on doubles (aux = function index)
  K_POLY,    // double that is exactly (integer polynomial over integer-valued variables) / 2^psc
  K_AGG
};

struct VarSet { std::vector<uint32_t> v; };   // sorted, interned

struct Expr;
struct Poly { std::vector<std::pair<std::vector<uint32_t>, __int128>> t; };   // sorted monomials, interned
struct V {                 // a value: concrete when e==nullptr (then width<=64)
  const Expr* e; u64 c;
  V() : e(nullptr), c(0) {}
  V(u64 x) : e(nullptr), c(x) {}
  V(const Expr* x) : e(x), c(0) {}
  bool isC() const { return e == nullptr; }
};

struct Expr {
  Kind kind; bool exactInt; bool hasFP; bool hasUF;
  uint16_t width; uint32_t aux; uint32_t id;
  const Expr *a, *b, *c;
  u128 val;
  const VarSet* vars;
  double ilo, ihi;              // bounds, meaningful when exactInt
  u64 ulo, uhi;                 // unsigned bounds (width <= 64)
  std::vector<V>* agg;
  const Poly* poly; int psc;    // exact value poly / 2^psc (variables of kind 1, K_POLY nodes)
};

struct VarInfo { std::string name; unsigned width; int kind; /*0 bv,1 int-valued double*/ long lo, hi; const Expr* e; };
extern std::vector<VarInfo> g_vars;
extern u64 g_nexprs;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }

const Expr* mkConst(u128 v, unsigned w);
const Expr* mkVar(const std::string& name, unsigned w, int kind = 0, long lo = 0, long hi = 0);
const Expr* mkBin(Kind k, const Expr* a, const Expr* b);
const Expr* mkRaw(Kind k, const Expr* a, const Expr* b);   // predicate without any folding
const Expr* mkNot(const Expr* a);                   // bitwise
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkExtract(const Expr* a, unsigned off, unsigned w);
const Expr* mkZExt(const Expr* a, unsigned w);
const Expr* mkSExt(const Expr* a, unsigned w);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkFBin(Kind k, const Expr* a, const Expr* b);    // FADD.. / FEQ..
const Expr* mkFUn(Kind k, const Expr* a);
const Expr* mkConv(Kind k, const Expr* a, unsigned w);
const Expr* mkUF(unsigned fn, const Expr* a, const Expr* b);
const Expr* polyInt(const Expr* e);                 // the numerator of a K_POLY node as an integer-valued expression
const Expr* polyRatio(const Expr* a, const Expr* b);  // a / b for b != 0 when that is a constant
unsigned polyDegree(const Poly* p);
V mkAgg(const std::vector<V>& v);
const VarSet* vsUnion(const VarSet* a, const VarSet* b);
extern std::vector<std::string> g_ufNames;
unsigned ufIndex(const std::string& n);

inline bool isConst(const Expr* e) { return e->kind == K_CONST; }
inline bool isConstV(const Expr* e, u128 v) { return e->kind == K_CONST && e->val == v; }
inline V simp(const Expr* e) { if (e->kind == K_CONST && e->width <= 64) return V((u64)e->val); return V(e); }
inline const Expr* toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c & mask64(w), w); }

double asD(u64 x); u64 fromD(double d);
float asF(u64 x); u64 fromF(float d);

// value-level operations
V opBin(Kind k, const V& a, const V& b, unsigned w);          // w = operand width
V opFBin(Kind k, const V& a, const V& b, unsigned w);
V opFUn(Kind k, const V& a, unsigned w);
V opConv(Kind k, const V& a, unsigned wf, unsigned wt);
V opIte(const V& c, const V& a, const V& b, unsigned w);
V opZExt(const V& a, unsigned wf, unsigned wt);
V opSExt(const V& a, unsigned wf, unsigned wt);
V opExtract(const V& a, unsigned wf, unsigned off, unsigned w);
V opNot1(const V& a);

// concrete semantic of each operator (also used by the model evaluator)
bool foldBin(Kind k, u128 a, u128 b, unsigned w, u128& r);
bool foldF2(Kind k, u64 a, u64 b, unsigned w, u64& r);
bool foldF1(Kind k, u64 a, unsigned w, u64& r);
bool foldConv(Kind k, u64 a, unsigned wf, unsigned wt, u64& r);
double ufConcrete(unsigned fn, double a, double b, bool& ok);

// model evaluation
typedef std::unordered_map<uint32_t, u128> Model;
struct Evaluator {
  const Model& m;
  std::unordered_map<const Expr*, std::pair<bool,u128>> memo;
  bool ufConc = false;          // evaluate libm functions concretely
  Evaluator(const Model& mm) : m(mm) {}
  bool eval(const Expr* e, u128& r);
};
std::string exprStr(const Expr* e, int depth = 6);
