#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
using namespace llvm;

Engine* E;

// ------------------------------------------------------------------ types
unsigned Engine::tw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isVoidTy()) return 0;
  return 0;
}

// ------------------------------------------------------------------ constants
V Engine::evalConst(const Constant* c) {
  Type* t = c->getType();
  if (auto ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return V((u64)ci->getZExtValue());
    u128 v = 0; const APInt& a = ci->getValue();
    for (unsigned i = 0; i < a.getNumWords() && i < 2; i++) v |= (u128)a.getRawData()[i] << (64 * i);
    return V(mkConst(v, w));
  }
  if (auto cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) return V((u64)b.getZExtValue());
    u128 v = b.getRawData()[0] | ((u128)b.getRawData()[1] << 64);
    return V(mkConst(v, b.getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return V((u64)0);
  if (auto a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (auto g = dyn_cast<GlobalValue>(c)) return V(globalAddr(g));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (t->isStructTy()) { std::vector<V> v; for (unsigned i = 0; i < t->getStructNumElements(); i++) v.push_back(evalConst(Constant::getNullValue(t->getStructElementType(i)))); return mkAgg(v); }
    if (t->isArrayTy()) { std::vector<V> v; V z = evalConst(Constant::getNullValue(t->getArrayElementType())); v.assign(t->getArrayNumElements(), z); return mkAgg(v); }
    if (auto vt = dyn_cast<FixedVectorType>(t)) { std::vector<V> v(vt->getNumElements(), V((u64)0)); return mkAgg(v); }
    unsigned w = tw(t); if (w > 64) return V(mkConst(0, w));
    return V((u64)0);
  }
  if (auto ca = dyn_cast<ConstantAggregate>(c)) { std::vector<V> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(evalConst(ca->getOperand(i))); return mkAgg(v); }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<V> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { V b = evalConst(ce->getOperand(0)); return V(b.c + off.getSExtValue()); }
        break; }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
        V b = evalConst(ce->getOperand(0)); unsigned w = tw(t); if (w && w < 64) b.c &= mask64(w); return b; }
      case Instruction::Trunc: { V b = evalConst(ce->getOperand(0)); b.c &= mask64(tw(t)); return b; }
      case Instruction::Sub: return opBin(K_SUB, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), tw(t));
      case Instruction::Add: return opBin(K_ADD, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), tw(t));
      case Instruction::Xor: return opBin(K_XOR, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), tw(t));
      case Instruction::ICmp: {
        V a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); unsigned w = tw(ce->getOperand(0)->getType());
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return opBin(K_EQ, a, b, w); case CmpInst::ICMP_NE: return opNot1(opBin(K_EQ, a, b, w)); case CmpInst::ICMP_ULT: return opBin(K_ULT, a, b, w); case CmpInst::ICMP_UGT: return opBin(K_ULT, b, a, w); default: break; }
        break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  engineError("unsupported constant " + os.str());
  return V((u64)0);
}

u64 Engine::globalAddr(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  // external or not yet allocated function
  uint32_t id = nextGlob++;
  if (auto f = dyn_cast<Function>(g)) {
    Obj* o = objNew(1, O_FUNC, 0, strdup(f->getName().str().c_str())); initMem.slot(id) = ObjRef(o); funcById[id] = const_cast<Function*>(f);
    if (S) S->mem.slot(id) = initMem.slot(id);
    for (auto s : work) s->mem.slot(id) = initMem.slot(id);
  } else {
    Obj* o = objNew(256, O_EXT, 0, strdup(g->getName().str().c_str())); initMem.slot(id) = ObjRef(o);
    if (S) S->mem.slot(id) = initMem.slot(id);
    for (auto s : work) s->mem.slot(id) = initMem.slot(id);
  }
  gaddr[g] = addrOf(id);
  return gaddr[g];
}

void Engine::initConstInto(Obj* o, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy(8)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    u64 es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) initConstInto(o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  if (auto ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConstInto(o, off + sl->getElementOffset(i), ca->getOperand(i)); }
    else { u64 es = DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConstInto(o, off + i * es, ca->getOperand(i)); }
    return;
  }
  V v = evalConst(c); u64 n = DL->getTypeStoreSize(t); u128 x = v.e ? v.e->val : (u128)v.c;
  for (u64 i = 0; i < n; i++) o->data[off + i] = (uint8_t)(x >> (8 * i));
}

void Engine::initGlobals() {
  for (auto& g : M->globals()) {
    u64 sz = g.isDeclaration() ? 256 : (u64)DL->getTypeAllocSize(g.getValueType());
    uint32_t id = nextGlob++;
    Obj* o = objNew((uint32_t)sz, g.isDeclaration() ? O_EXT : g.isConstant() ? O_CONST : O_GLOBAL, 0, strdup(g.getName().str().c_str()));
    initMem.slot(id) = ObjRef(o);
    gaddr[&g] = addrOf(id);
  }
  for (auto& g : M->globals()) if (!g.isDeclaration()) {
    u64 a = gaddr[&g]; initConstInto(initMem.get(a >> 32), 0, g.getInitializer());
  }
}

// ------------------------------------------------------------------ decoding
FuncInfo* Engine::getFI(Function* F) {
  auto it = fis.find(F);
  if (it != fis.end()) return it->second;
  FuncInfo* fi = new FuncInfo; fi->F = F; fi->name = F->getName().str(); fis[F] = fi; return fi;
}

void Engine::decode(FuncInfo* fi) {
  fi->decoded = true;
  Function* F = fi->F;
  DenseMap<const Value*, int> slot; DenseMap<const BasicBlock*, int> bbi;
  int n = 0;
  for (auto& a : F->args()) { slot[&a] = n; fi->argSlots.push_back(n); n++; }
  int bi = 0;
  for (auto& b : *F) { bbi[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  fi->nslots = n;
  auto opnd = [&](const Value* v) -> Opnd {
    Opnd o;
    if (auto c = dyn_cast<Constant>(v)) { o.c = evalConst(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    auto it = slot.find(v); if (it == slot.end()) { engineError("bad operand in " + fi->name); return o; }
    o.slot = it->second; return o; };
  fi->blocks.resize(bi);
  for (auto& b : *F) {
    Block& B = fi->blocks[bbi[&b]];
    for (auto& I : b) {
      if (auto phi = dyn_cast<PHINode>(&I)) {
        PhiEnt p; p.dst = slot[phi];
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { p.preds.push_back(bbi[phi->getIncomingBlock(i)]); p.in.push_back(opnd(phi->getIncomingValue(i))); }
        B.phis.push_back(std::move(p)); continue;
      }
      Inst in; in.op = I.getOpcode(); in.I = &I; in.ty = I.getType();
      if (!I.getType()->isVoidTy()) in.dst = slot[&I];
      in.w = tw(I.getType());
      if (auto vt = dyn_cast<FixedVectorType>(I.getType())) { in.vec = true; in.nel = vt->getNumElements(); in.w = tw(vt->getElementType()); }
      switch (I.getOpcode()) {
        case Instruction::Br: {
          auto br = cast<BranchInst>(&I);
          if (br->isConditional()) in.ops.push_back(opnd(br->getCondition()));
          for (unsigned i = 0; i < br->getNumSuccessors(); i++) in.targets.push_back(bbi[br->getSuccessor(i)]);
          break; }
        case Instruction::Switch: {
          auto sw = cast<SwitchInst>(&I); in.ops.push_back(opnd(sw->getCondition())); in.w = tw(sw->getCondition()->getType());
          in.targets.push_back(bbi[sw->getDefaultDest()]);
          for (auto& cs : sw->cases()) { in.caseVals.push_back(cs.getCaseValue()->getZExtValue()); in.targets.push_back(bbi[cs.getCaseSuccessor()]); }
          break; }
        case Instruction::GetElementPtr: {
          auto g = cast<GetElementPtrInst>(&I);
          if (in.vec) { in.op = 9999; break; }
          in.ops.push_back(opnd(g->getPointerOperand()));
          for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
            Value* idx = ti.getOperand();
            if (StructType* st = ti.getStructTypeOrNull()) in.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else {
              int64_t sc = DL->getTypeAllocSize(ti.getIndexedType());
              if (auto ci = dyn_cast<ConstantInt>(idx)) in.gepOff += ci->getSExtValue() * sc;
              else { GepTerm gt; gt.op = in.ops.size(); gt.scale = sc; gt.w = tw(idx->getType()); in.ops.push_back(opnd(idx)); in.gep.push_back(gt); }
            }
          }
          break; }
        case Instruction::ICmp: case Instruction::FCmp: {
          auto c = cast<CmpInst>(&I); in.pred = c->getPredicate(); Type* t = c->getOperand(0)->getType();
          if (auto vt = dyn_cast<FixedVectorType>(t)) { in.vec = true; in.nel = vt->getNumElements(); in.w2 = tw(vt->getElementType()); }
          else in.w2 = tw(t);
          in.ops.push_back(opnd(c->getOperand(0))); in.ops.push_back(opnd(c->getOperand(1)));
          break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto cb = cast<CallBase>(&I);
          for (unsigned i = 0; i < cb->arg_size(); i++) in.ops.push_back(opnd(cb->getArgOperand(i)));
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          if (auto f = dyn_cast<Function>(cv)) {
            in.callee = f;
            if (f->isDeclaration()) in.builtin = builtinIndex(f); else { in.builtin = overrideIndex(f); if (in.builtin < 0) in.fi = getFI(f); }
          } else in.ops.push_back(opnd(cb->getCalledOperand()));
          if (auto iv = dyn_cast<InvokeInst>(&I)) { in.targets.push_back(bbi[iv->getNormalDest()]); in.targets.push_back(bbi[iv->getUnwindDest()]); }
          break; }
        case Instruction::Load: in.ty = I.getType(); in.ops.push_back(opnd(I.getOperand(0))); break;
        case Instruction::Store: in.ty = I.getOperand(0)->getType(); in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); break;
        case Instruction::Alloca: { auto a = cast<AllocaInst>(&I); in.gepOff = DL->getTypeAllocSize(a->getAllocatedType()); in.ops.push_back(opnd(a->getArraySize())); break; }
        case Instruction::ExtractValue: in.ops.push_back(opnd(I.getOperand(0))); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) in.idx.push_back(i); break;
        case Instruction::InsertValue: in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); for (unsigned i : cast<InsertValueInst>(&I)->indices()) in.idx.push_back(i); break;
        case Instruction::ShuffleVector: { auto s = cast<ShuffleVectorInst>(&I); in.ops.push_back(opnd(I.getOperand(0))); in.ops.push_back(opnd(I.getOperand(1))); for (int m : s->getShuffleMask()) in.idx.push_back((unsigned)m); in.nel = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); break; }
        case Instruction::Ret: if (I.getNumOperands()) in.ops.push_back(opnd(I.getOperand(0))); break;
        case Instruction::LandingPad: break;
        case Instruction::AtomicRMW: { auto a = cast<AtomicRMWInst>(&I); in.pred = a->getOperation(); in.ops.push_back(opnd(a->getPointerOperand())); in.ops.push_back(opnd(a->getValOperand())); break; }
        default:
          for (auto& o : I.operands()) in.ops.push_back(opnd(o.get()));
          if (I.getNumOperands()) { Type* t = I.getOperand(0)->getType(); in.ty2 = t; if (auto vt = dyn_cast<FixedVectorType>(t)) { in.w2 = tw(vt->getElementType()); } else in.w2 = tw(t); }
          if (I.getOpcode() == Instruction::Select) { in.w2 = isa<FixedVectorType>(I.getOperand(0)->getType()); }
          break;
      }
      B.insts.push_back(std::move(in));
    }
  }
}

// ------------------------------------------------------------------ constraints
static bool bitTest(const std::vector<uint64_t>& b, uint32_t i) { return (i >> 6) < b.size() && (b[i >> 6] >> (i & 63) & 1); }
static void bitSet(std::vector<uint64_t>& b, uint32_t i) { if ((i >> 6) >= b.size()) b.resize((i >> 6) + 1, 0); b[i >> 6] |= 1ull << (i & 63); }

static bool intersects(const VarSet* a, const VarSet* b) {
  auto i = a->v.begin(), j = b->v.begin();
  while (i != a->v.end() && j != b->v.end()) { if (*i == *j) return true; if (*i < *j) ++i; else ++j; }
  return false;
}
void Engine::slice(State* s, const Expr* e, std::vector<const Expr*>& out) {
  const VarSet* vs = e->vars; size_t n = s->cons.size();
  std::vector<char> in(n, 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < n; i++) if (!in[i] && intersects(s->cons[i]->vars, vs)) { in[i] = 1; out.push_back(s->cons[i]); const VarSet* u = vsUnion(vs, s->cons[i]->vars); if (u != vs) { vs = u; ch = true; } }
  }
}
bool Engine::allFixed(State* s, const Expr* e) { for (auto v : e->vars->v) if (!bitTest(s->fixed, v)) return false; return true; }

void Engine::addCons(State* s, const Expr* e) {
  if (isConst(e)) return;
  if (e->kind == K_AND) { addCons(s, e->a); addCons(s, e->b); return; }
  for (auto c : s->cons) if (c == e) return;
  if (e->kind == K_EQ && isConst(e->b) && e->a->kind == K_VAR) bitSet(s->fixed, e->a->aux);
  if (e->kind == K_VAR && e->width == 1) bitSet(s->fixed, e->aux);
  if (e->kind == K_XOR && e->width == 1 && e->a->kind == K_VAR && isConst(e->b)) bitSet(s->fixed, e->a->aux);
  s->cons.push_back(e);
}
// is (cons && e) satisfiable?  m receives a model of the slice
SatR Engine::sat(State* s, const Expr* e, Model* m) {
  if (isConst(e)) return e->val ? R_SAT : R_UNSAT;
  if (s->modelOK && !e->hasUF) { Evaluator ev(s->model); u128 r; if (ev.eval(e, r) && r) { if (m) *m = s->model; return R_SAT; } if (allFixed(s, e)) return R_UNSAT; }
  const Expr* ne = mkNot(e);
  for (auto c : s->cons) { if (c == ne) return R_UNSAT; }
  std::vector<const Expr*> q; slice(s, e, q); q.push_back(e);
  Model mm; SatR r = solverCheck(q, &mm);
  if (r == R_SAT && m) { *m = s->model; for (auto& p : mm) (*m)[p.first] = p.second; }
  if (r == R_UNKNOWN) { incomplete++; note("solver returned unknown (timeout) in " + where()); }
  return r;
}
// 0 false, 1 true, 2 both.
int Engine::decide(State* s, const Expr* c, Model& mt, Model& mf) {
  if (isConst(c)) return c->val ? 1 : 0;
  SatR t = sat(s, c, &mt);
  if (t == R_UNKNOWN) throw PathEnd{PE_ENGINE};
  if (t == R_UNSAT) return 0;
  SatR f = sat(s, mkNot(c), &mf);
  if (f == R_UNKNOWN) throw PathEnd{PE_ENGINE};
  if (f == R_UNSAT) return 1;
  return 2;
}
bool Engine::mustBeTrue(State* s, const Expr* c) { SatR r = sat(s, mkNot(c), nullptr); if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE}; return r == R_UNSAT; }

State* Engine::forkState() { static const bool tr = getenv("SYM_FORKS"); if (tr) fprintf(stderr, "fork %s\n", where().c_str()); State* n = new State(*S); nforks++; return n; }

// resolve a condition for the current state, queueing the other outcome at the same instruction
bool Engine::branchHere(const V& c) {
  if (c.isC()) return c.c & 1;
  Model mt, mf;
  int d = decide(S, c.e, mt, mf);
  if (d != 2) return d;
  State* o = forkState(); o->model = mf; addCons(o, mkNot(c.e)); work.push_back(o);
  S->model = mt; addCons(S, c.e); return true;
}
u64 Engine::concretize(const V& v, unsigned w) {
  if (v.isC()) return v.c;
  const Expr* e = v.e; u128 val;
  { Evaluator ev(S->model); ev.ufConc = true; if (!ev.eval(e, val)) engineError("cannot concretize " + exprStr(e, 4)); }
  const Expr* eq = mkBin(K_EQ, e, mkConst(val, e->width));
  if (!isConst(eq)) {
    if (eq->hasUF) { Model mt; SatR r = sat(S, eq, &mt); if (r != R_SAT) engineError("cannot concretize a value of an uninterpreted function"); S->model = mt; }
    Model mf; SatR r = sat(S, mkNot(eq), &mf);
    if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE};
    if (r == R_SAT) { State* o = forkState(); o->model = mf; addCons(o, mkNot(eq)); work.push_back(o); addCons(S, eq); }
  }
  return (u64)val;
}

// ------------------------------------------------------------------ reporting
std::string Engine::where() {
  std::string r; int n = 0;
  if (!S) return "?";
  for (int i = (int)S->frames.size() - 1; i >= 0 && n < 8; --i, ++n) { std::string d = llvm::demangle(S->frames[i].fn->name); size_t p = d.find('('); if (p != std::string::npos && p > 0) d = d.substr(0, p); if (n) r += " < "; r += d; }
  return r;
}
void Engine::note(const std::string& s) { if (notes.size() < 50 && std::find(notes.begin(), notes.end(), s) == notes.end()) notes.push_back(s); }
void Engine::engineError(const std::string& s) { engErrors++; std::string t = s + " @ " + where(); if (errs.size() < 20 && std::find(errs.begin(), errs.end(), t) == errs.end()) errs.push_back(t); throw PathEnd{PE_ENGINE}; }

void Engine::report(const std::string& kind, const std::string& msg, const Model& m) {
  std::string loc;
  for (int i = (int)S->frames.size() - 1; i >= 0; --i) {
    std::string d = llvm::demangle(S->frames[i].fn->name); size_t p = d.find('('); if (p != std::string::npos && p > 0) d = d.substr(0, p);
    if (d.compare(0, 5, "std::") == 0 || d.compare(0, 5, "void ") == 0 || d.compare(0, 2, "__") == 0 || d.find("rtl_") == 0 || d.compare(0, 3, "mem") == 0 || d.compare(0, 3, "str") == 0) continue;
    loc = d; break;
  }
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
  for (auto& v : viols) if (v.key == key) { v.count++; return; }
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = where(); v.key = key; v.count = 1;
  for (auto id : S->vars) { auto it = m.find(id); u128 x = 0; if (it != m.end()) x = it->second; else { Evaluator ev(m); ev.eval(g_vars[id].e, x); } v.vals.push_back({g_vars[id].name, (u64)x}); }
  viols.push_back(v);
  if (verbose) { if (!S->frames.empty()) { Frame& f = S->frames.back(); const Inst& in = f.fn->blocks[f.bb].insts[f.pc > 0 ? f.pc - 1 : 0]; if (in.I) { std::string t; llvm::raw_string_ostream os(t); in.I->print(os); fprintf(stderr, "   near%s  (bb %d pc %d)\n", os.str().c_str(), f.bb, f.pc); } }
    fprintf(stderr, "** %s: %s in %s\n   stack %s\n", kind.c_str(), msg.c_str(), loc.c_str(), v.stack.c_str()); for (auto& p : v.vals) fprintf(stderr, "     %s = 0x%llx\n", p.first.c_str(), (unsigned long long)p.second); }
}
void Engine::violation(const std::string& kind, const std::string& msg) { report(kind, msg, S->model); throw PathEnd{PE_VIOLATION}; }

// ------------------------------------------------------------------ memory access
Obj* Engine::findObj(u64 a, bool write, uint32_t& id) {
  id = a >> 32;
  if (id >= STK0) {
    uint32_t k = id - STK0;
    if (k >= S->nextStk) return nullptr;
    return write ? S->stk.getW(k) : S->stk.get(k);
  }
  return write ? S->mem.getW(id) : S->mem.get(id);
}
// checks an access at concrete address a of n bytes; returns object and offset
Obj* Engine::access(u64 a, u64 n, bool write, u64& off, const char* what) {
  uint32_t id; Obj* o = findObj(a, false, id);
  char b[200];
  if (!o) {
    if (id == 0) snprintf(b, sizeof b, "null pointer %s", what);
    else if (id >= STK0) snprintf(b, sizeof b, "%s of dead stack memory", what);
    else snprintf(b, sizeof b, "%s through wild pointer", what);
    violation("memory", b);
  }
  if (o->freed) { snprintf(b, sizeof b, "use after free (%s)", what); violation("memory", b); }
  off = (a & 0xffffffffu) - OFF0;
  if ((a & 0xffffffffu) < OFF0 || off + n > o->size) { snprintf(b, sizeof b, "out of bounds %s", what); violation("memory", b); }
  if (write && (o->kind == O_CONST || o->kind == O_FUNC)) { violation("memory", "write to constant memory"); }
  if (o->kind == O_FUNC) violation("memory", "read of function memory");
  if (write && o->refs >= 1) o = findObj(a, true, id);
  return o;
}
V Engine::loadObj(Obj* o, u64 off, unsigned n) {
  bool s = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { s = true; break; }
  if (!s) {
    if (n <= 8) { u64 x = 0; memcpy(&x, o->data + off, n); return V(x); }
    u128 x = 0; memcpy(&x, o->data + off, n); return V(mkConst(x, n * 8));
  }
  const Expr* e = nullptr;
  for (int i = (int)n - 1; i >= 0; --i) { const Expr* b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); e = e ? mkConcat(e, b) : b; }
  return simp(e);
}
void Engine::storeObj(Obj* o, u64 off, const V& v, unsigned n) {
  if (v.isC() || isConst(v.e)) {
    u128 x = v.isC() ? (u128)v.c : v.e->val;
    memcpy(o->data + off, &x, n);
    if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
    return;
  }
  if (!o->sym) o->sym = (const Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
  for (unsigned i = 0; i < n; i++) {
    const Expr* b = mkExtract(v.e, i * 8, 8);
    if (isConst(b)) { o->data[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = b;
  }
}
// Makes a symbolic address refer to a single object, forking as needed. Returns object id.
// After it returns, every feasible value of the address lies in [0,size-n] of that object.
uint32_t Engine::resolve(const V& a, u64 n, const char* what) {
  u128 v; { Evaluator ev(S->model); if (!ev.eval(a.e, v)) engineError("unresolvable address"); }
  uint32_t id = (u64)v >> 32;
  const Expr* hi = mkBin(K_EQ, mkExtract(a.e, 32, 32), mkConst(id, 32));
  Model mf; SatR r = sat(S, mkNot(hi), &mf);
  if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE};
  if (r == R_SAT) { State* o = forkState(); o->model = mf; addCons(o, mkNot(hi)); work.push_back(o); addCons(S, hi); }
  uint32_t id2; Obj* o = findObj((u64)v, false, id2);
  if (!o || o->freed) { u64 off; access((u64)v, n, false, off, what); }
  const Expr* off = mkBin(K_SUB, mkExtract(a.e, 0, 32), mkConst(OFF0, 32));
  if (o->size < n) { violation("memory", std::string("out of bounds ") + what); }
  const Expr* in = mkBin(K_ULE, off, mkConst(o->size - n, 32));
  Model mo; r = sat(S, mkNot(in), &mo);
  if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE};
  if (r == R_SAT) {
    report("memory", std::string("out of bounds ") + what, mo);
    Model mi; r = sat(S, in, &mi);
    if (r != R_SAT) throw PathEnd{PE_VIOLATION};
    S->model = mi; addCons(S, in);
  }
  return id;
}
V Engine::load(const V& a, unsigned n) {
  if (a.isC()) { u64 off; Obj* o = access(a.c, n, false, off, "read"); return loadObj(o, off, n); }
  uint32_t id = resolve(a, n, "read");
  u64 base = addrOf(id); uint32_t x; Obj* o = findObj(base, false, x);
  u64 cnt = o->size - n + 1;
  if (cnt > 512 * (u64)n) { u64 c = concretize(a, 64); u64 off; o = access(c, n, false, off, "read"); return loadObj(o, off, n); }
  const Expr* off = mkBin(K_SUB, mkExtract(a.e, 0, 32), mkConst(OFF0, 32));
  // group equal values; assume element alignment only if provable
  u64 step = 1;
  if (n > 1 && mustBeTrue(S, mkBin(K_EQ, mkBin(K_UREM, off, mkConst(n, 32)), mkConst(0, 32)))) step = n;
  const Expr* r = nullptr;
  for (int64_t k = (int64_t)((cnt - 1) / step * step); k >= 0; k -= step) {
    const Expr* val = toE(loadObj(o, k, n), n * 8);
    r = r ? mkIte(mkBin(K_EQ, off, mkConst(k, 32)), val, r) : val;
  }
  return simp(r);
}
void Engine::store(const V& a, const V& v, unsigned n) {
  if (a.isC()) { u64 off; Obj* o = access(a.c, n, true, off, "write"); storeObj(o, off, v, n); return; }
  uint32_t id = resolve(a, n, "write"); u64 base = addrOf(id); uint32_t x; Obj* o = findObj(base, true, x);
  if (o->kind == O_CONST || o->size > 256) { u64 c = concretize(a, 64); u64 off; o = access(c, n, true, off, "write"); storeObj(o, off, v, n); return; }
  const Expr* off = mkBin(K_SUB, mkExtract(a.e, 0, 32), mkConst(OFF0, 32));
  for (u64 k = 0; k < o->size; k++) for (unsigned i = 0; i < n; i++) if (k >= i && k - i + n <= o->size) {
    const Expr* nb = mkExtract(toE(v, n * 8), i * 8, 8); const Expr* ob = toE(loadObj(o, k, 1), 8);
    storeObj(o, k, simp(mkIte(mkBin(K_EQ, off, mkConst(k - i, 32)), nb, ob)), 1);
  }
}
V Engine::loadTy(const V& a, Type* t) {
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); std::vector<V> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(opBin(K_ADD, a, V((u64)sl->getElementOffset(i)), 64), st->getElementType(i))); return mkAgg(v); }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); std::vector<V> v; for (u64 i = 0; i < t->getArrayNumElements(); i++) v.push_back(loadTy(opBin(K_ADD, a, V(i * es), 64), t->getArrayElementType())); return mkAgg(v); }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); std::vector<V> v; for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(opBin(K_ADD, a, V(i * es), 64), vt->getElementType())); return mkAgg(v); }
  unsigned n = DL->getTypeStoreSize(t), w = tw(t); V v = load(a, n);
  if (w != n * 8) return opExtract(v, n * 8, 0, w);
  return v;
}
void Engine::storeTy(const V& a, const V& v, Type* t) {
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(opBin(K_ADD, a, V((u64)sl->getElementOffset(i)), 64), (*v.e->agg)[i], st->getElementType(i)); return; }
  if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) storeTy(opBin(K_ADD, a, V(i * es), 64), (*v.e->agg)[i], t->getArrayElementType()); return; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) storeTy(opBin(K_ADD, a, V(i * es), 64), (*v.e->agg)[i], vt->getElementType()); return; }
  unsigned n = DL->getTypeStoreSize(t), w = tw(t);
  if (w != n * 8) { store(a, opZExt(v, w, n * 8), n); return; }
  store(a, v, n);
}

u64 Engine::newHeap(u64 size, uint8_t how, const char* nm) {
  uint32_t id = heapBase + S->nextHeap++;
  Obj* o = objNew((uint32_t)size, O_HEAP, 0xBE, nm); o->how = how; o->seq = S->nextHeap;
  S->mem.slot(id) = ObjRef(o);
  return addrOf(id);
}
void Engine::freeHeap(const V& pv, uint8_t how) {
  u64 p = concretize(pv, 64);
  if (!p) return;
  uint32_t id; Obj* o = findObj(p, false, id);
  if (!o || o->kind != O_HEAP) violation("memory", "free of a pointer not obtained from the allocator");
  if (o->freed) violation("memory", "double free");
  if ((p & 0xffffffffu) != OFF0) violation("memory", "free of an interior pointer");
  if (o->how != how) violation("memory", "mismatched allocation and deallocation functions");
  Obj* n = objNew(0, O_HEAP, 0, "freed"); n->freed = true; n->how = o->how; n->size = 0;
  S->mem.slot(id) = ObjRef(n);
}
std::string Engine::readCStr(u64 a) {
  std::string s; for (;;) { V c = load(V(a), 1); u64 x = concretize(c, 8); if (!x) break; s += (char)x; a++; if (s.size() > 100000) break; } return s;
}
bool Engine::readConcrete(u64 a, u64 n, std::string& out) {
  u64 off; if (!n) { out.clear(); return true; }
  Obj* o = access(a, n, false, off, "read"); if (o->sym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) return false;
  out.assign((char*)o->data + off, n); return true;
}
void Engine::memCopy(const V& dv, const V& sv, u64 n) {
  if (!n) return;
  if (!dv.isC() || !sv.isC()) {
    u64 d = concretize(dv, 64), s = concretize(sv, 64);
    memCopy(V(d), V(s), n); return;
  }
  u64 so, dofs; Obj* s = access(sv.c, n, false, so, "read"); Obj* d = access(dv.c, n, true, dofs, "write");
  // access() for write may have unshared; re-resolve the source
  s = access(sv.c, n, false, so, "read");
  memmove(d->data + dofs, s->data + so, n);
  if (s->sym || d->sym) {
    if (!d->sym) { bool any = false; for (u64 i = 0; i < n; i++) if (s->sym[so + i]) { any = true; break; } if (!any) return; d->sym = (const Expr**)calloc(d->size, sizeof(Expr*)); }
    if (s->sym) memmove(d->sym + dofs, s->sym + so, n * sizeof(Expr*)); else memset(d->sym + dofs, 0, n * sizeof(Expr*));
  }
}
void Engine::memSet(const V& dv, const V& val, u64 n) {
  if (!n) return;
  u64 d = concretize(dv, 64); u64 off; Obj* o = access(d, n, true, off, "write");
  if (val.isC()) { memset(o->data + off, (int)val.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*)); }
  else for (u64 i = 0; i < n; i++) storeObj(o, off + i, opExtract(val, val.e->width, 0, 8), 1);
}

// ------------------------------------------------------------------ control
void Engine::jump(State* s, int target) {
  Frame& f = s->frames.back();
  f.prev = f.bb; f.bb = target; f.pc = 0;
  Block& b = f.fn->blocks[target];
  if (b.phis.empty()) return;
  V tmp[64]; std::vector<V> big; V* t = tmp; if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
  size_t k = 0;
  for (auto& p : b.phis) {
    int x = -1; for (size_t i = 0; i < p.preds.size(); i++) if (p.preds[i] == f.prev) { x = i; break; }
    const Opnd& o = p.in[x]; t[k++] = o.slot >= 0 ? f.regs[o.slot] : o.c;
  }
  k = 0; for (auto& p : b.phis) f.regs[p.dst] = t[k++];
}
void Engine::pushFrame(FuncInfo* fi, const Inst* call, const std::vector<V>& args) {
  if (!fi->decoded) decode(fi);
  if (!fi->hit) fi->hit = true;
  fi->calls++;
  if (S->frames.size() > 2000) violation("nontermination", "call stack overflow");
  S->frames.emplace_back();
  Frame& f = S->frames.back();
  f.fn = fi; f.regs.resize(fi->nslots); f.stk = S->nextStk; f.call = call;
  for (size_t i = 0; i < fi->argSlots.size() && i < args.size(); i++) f.regs[fi->argSlots[i]] = args[i];
  for (size_t i = fi->argSlots.size(); i < args.size(); i++) f.varargs.push_back(args[i]);
}
void Engine::popFrame() { Frame& f = S->frames.back(); S->nextStk = f.stk; S->frames.pop_back(); }
void Engine::ret(const V& v) {
  const Inst* call = S->frames.back().call;
  popFrame();
  if (S->frames.empty()) throw PathEnd{PE_DONE};
  Frame& f = S->frames.back();
  if (!call) { f.pc++; return; }
  if (call->dst >= 0) f.regs[call->dst] = v;
  if (call->op == Instruction::Invoke) jump(S, call->targets[0]); else f.pc++;
}

// exceptions -------------------------------------------------------
static bool tiName(Engine* e, u64 ti, std::string& n) { uint32_t id; Obj* o = e->findObj(ti, false, id); if (!o || !o->name) return false; n = o->name; return true; }
bool Engine::tiDerived(u64 t, u64 base) {
  if (t == base) return true;
  if (!t) return false;
  uint32_t id; Obj* o = findObj(t, false, id);
  if (!o || o->kind == O_EXT || o->size < 16) return false;
  u64 vptr; memcpy(&vptr, o->data, 8);
  Obj* vo = findObj(vptr, false, id); std::string vn = vo && vo->name ? vo->name : "";
  if (vn.find("__si_class_type_info") != std::string::npos) { u64 b; memcpy(&b, o->data + 16, 8); return tiDerived(b, base); }
  if (vn.find("__vmi_class_type_info") != std::string::npos) { uint32_t n; memcpy(&n, o->data + 20, 4); for (uint32_t i = 0; i < n; i++) { u64 b; memcpy(&b, o->data + 24 + 16 * i, 8); if (tiDerived(b, base)) return true; } }
  return false;
}
static int typeId(std::map<u64, int>& m, u64 ti) { auto it = m.find(ti); if (it != m.end()) return it->second; int n = m.size() + 1; m[ti] = n; return n; }
int Engine::typeIdFor(u64 ti) { return typeId(tids, ti); }
// returns: -1 no, 0 cleanup only, >0 selector
int Engine::lpMatch(const LandingPadInst* lp, u64 tinfo) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      V c = evalConst(lp->getClause(i));
      if (c.c == 0 || tiDerived(tinfo, c.c)) return typeId(tids, c.c);
    } else {
      Constant* arr = lp->getClause(i); bool allowed = false;
      for (unsigned k = 0; k < arr->getNumOperands(); k++) { V c = evalConst(cast<Constant>(arr->getOperand(k))); if (tiDerived(tinfo, c.c)) allowed = true; }
      if (!allowed) return typeId(tids, 0);
    }
  }
  return lp->isCleanup() ? 0 : -1;
}
void Engine::unwind() {
  u64 ti = S->inflight.tinfo;
  bool handler = false;
  for (int i = (int)S->frames.size() - 1; i >= 0; --i) {
    Frame& f = S->frames[i]; const Inst& in = f.fn->blocks[f.bb].insts[f.pc];
    if (in.op != Instruction::Invoke) { if (f.fn->F->doesNotThrow()) break; continue; }
    auto lp = cast<InvokeInst>(in.I)->getLandingPadInst();
    if (lpMatch(lp, ti) > 0) { handler = true; break; }
    if (f.fn->F->doesNotThrow()) break;
  }
  if (!handler) { std::string n; tiName(this, ti, n); violation("exception", "uncaught exception of type " + llvm::demangle(n)); }
  for (;;) {
    Frame& f = S->frames.back(); const Inst& in = f.fn->blocks[f.bb].insts[f.pc];
    if (in.op == Instruction::Invoke) {
      auto lp = cast<InvokeInst>(in.I)->getLandingPadInst(); int m = lpMatch(lp, ti);
      if (m >= 0) { jump(S, in.targets[1]); lpSel = m; 
        Frame& g = S->frames.back(); Block& b = g.fn->blocks[g.bb]; Inst& l = b.insts[0];
        if (l.op == Instruction::LandingPad) { g.regs[l.dst] = mkAgg({V(S->inflight.obj), V((u64)(uint32_t)m)}); g.pc = 1; }
        else engineError("landingpad not first");
        return; }
    }
    popFrame();
    if (S->frames.empty()) engineError("unwind underflow");
  }
}

// ------------------------------------------------------------------ interpreter
#define R(o) ((o).slot >= 0 ? f.regs[(o).slot] : (o).c)

V Engine::icmp(unsigned p, const V& a, const V& b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return opBin(K_EQ, a, b, w);
    case CmpInst::ICMP_NE: return opNot1(opBin(K_EQ, a, b, w));
    case CmpInst::ICMP_ULT: return opBin(K_ULT, a, b, w);
    case CmpInst::ICMP_ULE: return opBin(K_ULE, a, b, w);
    case CmpInst::ICMP_UGT: return opBin(K_ULT, b, a, w);
    case CmpInst::ICMP_UGE: return opBin(K_ULE, b, a, w);
    case CmpInst::ICMP_SLT: return opBin(K_SLT, a, b, w);
    case CmpInst::ICMP_SLE: return opBin(K_SLE, a, b, w);
    case CmpInst::ICMP_SGT: return opBin(K_SLT, b, a, w);
    default: return opBin(K_SLE, b, a, w);
  }
}
V Engine::fcmp(unsigned p, const V& a, const V& b, unsigned w) {
  auto AND = [&](V x, V y) { return opBin(K_AND, x, y, 1); };
  auto OR = [&](V x, V y) { return opBin(K_OR, x, y, 1); };
  auto uno = [&]() { return opFBin(K_FUNO, a, b, w); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return V((u64)0);
    case CmpInst::FCMP_TRUE: return V((u64)1);
    case CmpInst::FCMP_OEQ: return opFBin(K_FEQ, a, b, w);
    case CmpInst::FCMP_OGT: return opFBin(K_FLT, b, a, w);
    case CmpInst::FCMP_OGE: return opFBin(K_FLE, b, a, w);
    case CmpInst::FCMP_OLT: return opFBin(K_FLT, a, b, w);
    case CmpInst::FCMP_OLE: return opFBin(K_FLE, a, b, w);
    case CmpInst::FCMP_ONE: return AND(opNot1(opFBin(K_FEQ, a, b, w)), opNot1(uno()));
    case CmpInst::FCMP_ORD: return opNot1(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return OR(opFBin(K_FEQ, a, b, w), uno());
    case CmpInst::FCMP_UGT: return opNot1(opFBin(K_FLE, a, b, w));
    case CmpInst::FCMP_UGE: return opNot1(opFBin(K_FLT, a, b, w));
    case CmpInst::FCMP_ULT: return opNot1(opFBin(K_FLE, b, a, w));
    case CmpInst::FCMP_ULE: return opNot1(opFBin(K_FLT, b, a, w));
    default: return opNot1(opFBin(K_FEQ, a, b, w));
  }
}
static Kind binKind(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL;
    case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM;
    case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
    case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
    case Instruction::FAdd: return K_FADD; case Instruction::FSub: return K_FSUB; case Instruction::FMul: return K_FMUL; case Instruction::FDiv: return K_FDIV; case Instruction::FRem: return K_FREM;
    default: return K_CONST;
  }
}

void Engine::doCall(const Inst& in, Function* F, FuncInfo* fi, int bi, const std::vector<V>& args) {
  if (bi >= 0) {
    V r = callBuiltin(bi, in, args);
    if (builtinTookControl) { builtinTookControl = false; return; }
    Frame& f = S->frames.back();
    if (in.dst >= 0) f.regs[in.dst] = r;
    if (in.op == Instruction::Invoke) jump(S, in.targets[0]); else f.pc++;
    return;
  }
  if (!fi) engineError("call to undefined function " + (F ? F->getName().str() : std::string("?")));
  // byval arguments are passed as copies by clang already for the sret/byval ABI: copy here
  bool hasByVal = false; for (unsigned i = 0; i < F->arg_size(); i++) if (F->getArg(i)->hasByValAttr()) hasByVal = true;
  if (hasByVal) {
    std::vector<V> a2(args);
    pushFrame(fi, &in, a2);
    for (unsigned i = 0; i < F->arg_size(); i++) if (F->getArg(i)->hasByValAttr()) {
      u64 sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
      uint32_t k = S->nextStk++; S->stk.slot(k) = ObjRef(objNew((uint32_t)sz, O_STACK, 0xBE, "byval"));
      u64 na = addrOf(STK0 + k); memCopy(V(na), args[i], sz);
      S->frames.back().regs[fi->argSlots[i]] = V(na);
    }
    return;
  }
  pushFrame(fi, &in, args);
}

void Engine::runState() {
  for (;;) {
    Frame& f = S->frames.back();
    const Inst& in = f.fn->blocks[f.bb].insts[f.pc];
    if (++S->steps > maxSteps) { violation("nontermination", "instruction limit for one path exceeded"); }
    ninst++;
    if ((ninst & 0xffff) == 0 && timeUp()) { timedOut = true; throw PathEnd{PE_SILENT}; }
    switch (in.op) {
      case Instruction::Br:
        if (in.ops.empty()) { jump(S, in.targets[0]); break; }
        else {
          V c = R(in.ops[0]);
          if (c.isC()) { jump(S, in.targets[c.c & 1 ? 0 : 1]); break; }
          if (in.targets[0] == in.targets[1]) { jump(S, in.targets[0]); break; }
          Model mt, mf; int d = decide(S, c.e, mt, mf);
          if (d != 2) { jump(S, in.targets[d ? 0 : 1]); break; }
          if (verbose > 2) fprintf(stderr, "fork %s: %s\n", exprStr(c.e, 5).c_str(), where().c_str());
          forkSites[f.fn]++;
          State* o = forkState(); o->model = mf; addCons(o, mkNot(c.e)); jump(o, in.targets[1]); work.push_back(o);
          S->model = mt; addCons(S, c.e); jump(S, in.targets[0]);
          break;
        }
      case Instruction::Switch: {
        V c = R(in.ops[0]);
        if (c.isC()) { int t = in.targets[0]; for (size_t i = 0; i < in.caseVals.size(); i++) if ((u64)in.caseVals[i] == c.c) { t = in.targets[i + 1]; break; } jump(S, t); break; }
        // group by target
        std::map<int, const Expr*> cond; const Expr* dflt = mkConst(1, 1);
        for (size_t i = 0; i < in.caseVals.size(); i++) { const Expr* q = mkBin(K_EQ, c.e, mkConst(in.caseVals[i], in.w)); auto it = cond.find(in.targets[i + 1]); if (it == cond.end()) cond[in.targets[i + 1]] = q; else it->second = mkBin(K_OR, it->second, q); dflt = mkBin(K_AND, dflt, mkNot(q)); }
        { auto it = cond.find(in.targets[0]); if (it == cond.end()) cond[in.targets[0]] = dflt; else it->second = mkBin(K_OR, it->second, dflt); }
        std::vector<std::pair<int, const Expr*>> feas; std::vector<Model> ms;
        for (auto& p : cond) { Model m; SatR r = sat(S, p.second, &m); if (r == R_UNKNOWN) throw PathEnd{PE_ENGINE}; if (r == R_SAT) { feas.push_back(p); ms.push_back(m); } }
        if (feas.empty()) engineError("switch infeasible");
        if (feas.size() > 1) forkSites[f.fn]++;
        for (size_t i = 1; i < feas.size(); i++) { State* o = forkState(); o->model = ms[i]; addCons(o, feas[i].second); jump(o, feas[i].first); work.push_back(o); }
        if (feas.size() > 1) { S->model = ms[0]; addCons(S, feas[0].second); }
        jump(S, feas[0].first);
        break; }
      case Instruction::Ret: { V v; if (!in.ops.empty()) v = R(in.ops[0]); ret(v); break; }
      case Instruction::Call: case Instruction::Invoke: {
        std::vector<V> args; size_t na = in.ops.size() - (in.callee ? 0 : 1); args.reserve(na);
        for (size_t i = 0; i < na; i++) args.push_back(R(in.ops[i]));
        if (in.callee) { doCall(in, in.callee, in.fi, in.builtin, args); break; }
        u64 fp = concretize(R(in.ops.back()), 64);
        uint32_t id = fp >> 32; auto it = funcById.find(id);
        if (it == funcById.end() || (fp & 0xffffffffu) != OFF0) { violation("memory", fp ? "call through a corrupt function pointer" : "call through null function pointer"); }
        Function* F = it->second;
        if (F->isDeclaration()) doCall(in, F, nullptr, builtinIndex(F), args); else { int ov = overrideIndex(F); doCall(in, F, ov >= 0 ? nullptr : getFI(F), ov, args); }
        break; }
      case Instruction::Unreachable: violation("unreachable", "undefined behaviour: unreachable code executed"); break;
      case Instruction::Resume: {
        V a = R(in.ops[0]); S->inflight.obj = (*a.e->agg)[0].c;
        // find type of the exception object
        { auto it = S->excType.find(S->inflight.obj); if (it != S->excType.end()) S->inflight.tinfo = it->second; }
        popFrame(); if (S->frames.empty()) engineError("resume underflow"); unwind(); break; }
      case Instruction::LandingPad: engineError("landingpad reached by fallthrough"); break;
      case Instruction::Load: { V a = R(in.ops[0]); V v = loadTy(a, in.ty); S->frames.back().regs[in.dst] = v; f.pc++; break; }
      case Instruction::Store: { storeTy(R(in.ops[1]), R(in.ops[0]), in.ty); f.pc++; break; }
      case Instruction::Alloca: {
        u64 n = concretize(R(in.ops[0]), 64) * in.gepOff; uint32_t k = S->nextStk++;
        S->stk.slot(k) = ObjRef(objNew((uint32_t)n, O_STACK, 0xBE, "alloca")); f.regs[in.dst] = V(addrOf(STK0 + k)); f.pc++; break; }
      case Instruction::GetElementPtr: {
        V b = R(in.ops[0]); if (in.gepOff) b = opBin(K_ADD, b, V((u64)in.gepOff), 64);
        for (auto& g : in.gep) { V x = opSExt(R(in.ops[g.op]), g.w, 64); if (g.scale != 1) x = opBin(K_MUL, x, V((u64)g.scale), 64); b = opBin(K_ADD, b, x, 64); }
        f.regs[in.dst] = b; f.pc++; break; }
      case Instruction::ICmp: case Instruction::FCmp: {
        V a = R(in.ops[0]), b = R(in.ops[1]); V r;
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(in.op == Instruction::ICmp ? icmp(in.pred, (*a.e->agg)[i], (*b.e->agg)[i], in.w2) : fcmp(in.pred, (*a.e->agg)[i], (*b.e->agg)[i], in.w2)); r = mkAgg(v); }
        else r = in.op == Instruction::ICmp ? icmp(in.pred, a, b, in.w2) : fcmp(in.pred, a, b, in.w2);
        f.regs[in.dst] = r; f.pc++; break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        V a = R(in.ops[0]), b = R(in.ops[1]); Kind k = binKind(in.op);
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(opBin(k, (*a.e->agg)[i], (*b.e->agg)[i], in.w)); f.regs[in.dst] = mkAgg(v); }
        else f.regs[in.dst] = opBin(k, a, b, in.w);
        f.pc++; break; }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        V a = R(in.ops[0]), b = R(in.ops[1]);
        if (in.vec) engineError("vector division");
        V z = opBin(K_EQ, b, V((u64)0), in.w);
        if (in.w > 64) z = simp(mkBin(K_EQ, toE(b, in.w), mkConst(0, in.w)));
        if (branchHere(z)) violation("arith", "integer division by zero");
        S->frames.back().regs[in.dst] = opBin(binKind(in.op), a, b, in.w); S->frames.back().pc++; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        V a = R(in.ops[0]), b = R(in.ops[1]); Kind k = binKind(in.op);
        if (in.w == 80) engineError("x87 arithmetic");
        if (k == K_FDIV && !in.vec && in.w == 64 && !b.isC() && b.e->poly) {        // a known ratio: only the zero divisor differs
          const Expr* q = polyRatio(toE(a, 64), b.e);
          if (q) { V z = opFBin(K_FEQ, b, V(fromD(0.0)), 64); bool zero = z.isC() ? z.c & 1 : branchHere(z);
            Frame& g = S->frames.back(); g.regs[in.dst] = zero ? V(fromD(NAN)) : simp(q); g.pc++; break; } }
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(opFBin(k, (*a.e->agg)[i], (*b.e->agg)[i], in.w)); f.regs[in.dst] = mkAgg(v); }
        else f.regs[in.dst] = opFBin(k, a, b, in.w);
        f.pc++; break; }
      case Instruction::FNeg: {
        V a = R(in.ops[0]);
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(opFUn(K_FNEG, (*a.e->agg)[i], in.w)); f.regs[in.dst] = mkAgg(v); }
        else f.regs[in.dst] = opFUn(K_FNEG, a, in.w);
        f.pc++; break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        auto conv = [&](const V& a) -> V {
          switch (in.op) {
            case Instruction::Trunc: return opExtract(a, in.w2, 0, in.w);
            case Instruction::ZExt: return opZExt(a, in.w2, in.w);
            case Instruction::SExt: return opSExt(a, in.w2, in.w);
            case Instruction::PtrToInt: return in.w < 64 ? opExtract(a, 64, 0, in.w) : a;
            case Instruction::IntToPtr: return in.w2 < 64 ? opZExt(a, in.w2, 64) : a;
            case Instruction::SIToFP: return opConv(K_SITOFP, a, in.w2, in.w);
            case Instruction::UIToFP: return opConv(K_UITOFP, a, in.w2, in.w);
            case Instruction::FPToSI: return opConv(K_FPTOSI, a, in.w2, in.w);
            case Instruction::FPToUI: return opConv(K_FPTOUI, a, in.w2, in.w);
            case Instruction::FPExt: return opConv(K_FPEXT, a, in.w2, in.w);
            default: return opConv(K_FPTRUNC, a, in.w2, in.w);
          } };
        if (in.w == 80 || in.w2 == 80) engineError("x87 conversion");
        V a = R(in.ops[0]);
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(conv((*a.e->agg)[i])); f.regs[in.dst] = mkAgg(v); }
        else f.regs[in.dst] = conv(a);
        f.pc++; break; }
      case Instruction::BitCast: {
        V a = R(in.ops[0]); bool sv = in.ty2->isVectorTy(), dv = in.ty->isVectorTy();
        if (!sv && !dv) f.regs[in.dst] = a;
        else {
          u64 bits; const Expr* e = nullptr;
          if (sv) { auto vt = cast<FixedVectorType>(in.ty2); unsigned ew = tw(vt->getElementType()); for (int i = (int)vt->getNumElements() - 1; i >= 0; --i) { const Expr* x = toE((*a.e->agg)[i], ew); e = e ? mkConcat(e, x) : x; } }
          else e = toE(a, in.w2);
          bits = e->width;
          if (dv) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(simp(mkExtract(e, i * in.w, in.w))); f.regs[in.dst] = mkAgg(v); }
          else f.regs[in.dst] = simp(e);
          (void)bits;
        }
        f.pc++; break; }
      case Instruction::Select: {
        V c = R(in.ops[0]), a = R(in.ops[1]), b = R(in.ops[2]);
        if (in.vec) { std::vector<V> v; for (unsigned i = 0; i < in.nel; i++) v.push_back(opIte(in.w2 ? (*c.e->agg)[i] : c, (*a.e->agg)[i], (*b.e->agg)[i], in.w)); f.regs[in.dst] = mkAgg(v); }
        else if (c.isC()) f.regs[in.dst] = c.c & 1 ? a : b;
        else if ((a.e && a.e->kind == K_AGG) || (b.e && b.e->kind == K_AGG)) { bool t = branchHere(c); Frame& g = S->frames.back(); g.regs[in.dst] = t ? a : b; }
        else if (in.w == 64 && ((a.e && a.e->hasFP) || (b.e && b.e->hasFP) || (in.ty && in.ty->isDoubleTy()) || (in.I && in.I->getType()->isPointerTy()))) { bool t = branchHere(c); Frame& g = S->frames.back(); g.regs[in.dst] = t ? a : b; }
        else if ((a.e && a.e->hasFP) || (b.e && b.e->hasFP)) { bool t = branchHere(c); Frame& g = S->frames.back(); g.regs[in.dst] = t ? a : b; }
        else f.regs[in.dst] = opIte(c, a, b, in.w);
        S->frames.back().pc++; break; }
      case Instruction::Freeze: f.regs[in.dst] = R(in.ops[0]); f.pc++; break;
      case Instruction::ExtractValue: { V a = R(in.ops[0]); for (unsigned i : in.idx) { V t = (*a.e->agg)[i]; a = t; } f.regs[in.dst] = a; f.pc++; break; }
      case Instruction::InsertValue: {
        V a = R(in.ops[0]), x = R(in.ops[1]);
        std::function<V(const V&, size_t)> rec = [&](const V& q, size_t k) -> V { std::vector<V> v(*q.e->agg); v[in.idx[k]] = k + 1 == in.idx.size() ? x : rec(v[in.idx[k]], k + 1); return mkAgg(v); };
        f.regs[in.dst] = rec(a, 0); f.pc++; break; }
      case Instruction::ExtractElement: { V a = R(in.ops[0]); u64 i = concretize(R(in.ops[1]), 64); f.regs[in.dst] = (*a.e->agg)[i]; f.pc++; break; }
      case Instruction::InsertElement: { V a = R(in.ops[0]), x = R(in.ops[1]); u64 i = concretize(R(in.ops[2]), 64); std::vector<V> v(*a.e->agg); v[i] = x; f.regs[in.dst] = mkAgg(v); f.pc++; break; }
      case Instruction::ShuffleVector: { V a = R(in.ops[0]), b = R(in.ops[1]); std::vector<V> v; for (unsigned i : in.idx) { if (i == (unsigned)-1) v.push_back(V((u64)0)); else v.push_back(i < in.nel ? (*a.e->agg)[i] : (*b.e->agg)[i - in.nel]); } f.regs[in.dst] = mkAgg(v); f.pc++; break; }
      case Instruction::AtomicRMW: { V p = R(in.ops[0]), x = R(in.ops[1]); V o = loadTy(p, in.ty); V n; switch (in.pred) { case AtomicRMWInst::Add: n = opBin(K_ADD, o, x, in.w); break; case AtomicRMWInst::Sub: n = opBin(K_SUB, o, x, in.w); break; case AtomicRMWInst::Xchg: n = x; break; default: engineError("atomicrmw"); } storeTy(p, n, in.ty); f.regs[in.dst] = o; f.pc++; break; }
      case Instruction::Fence: f.pc++; break;
      default: { std::string s; raw_string_ostream os(s); in.I->print(os); engineError("unsupported instruction " + os.str()); }
    }
  }
}

void Engine::runFunction(Function* F) {
  pushFrame(getFI(F), nullptr, {});
}

void Engine::explore(Function* mainF) {
  S = new State; 
  initGlobals();
  heapBase = 0x02000000;
  for (auto& kv : funcById) (void)kv;
  // force addresses for all functions whose address is taken happens lazily in evalConst
  { MemMap tmp(initMem); S->~State(); new (S) State; for (auto t : tmp.top) { S->mem.top.push_back(t); if (t) t->refs++; } }
  // constructor list, run in order, then main
  std::vector<std::pair<unsigned, Function*>> ctors;
  if (GlobalVariable* gv = M->getNamedGlobal("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(gv->getInitializer()))
    for (auto& op : ca->operands()) { auto cs = cast<ConstantStruct>(op.get()); if (auto f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  ctorQueue.clear(); for (auto& c : ctors) ctorQueue.push_back(c.second);
  work.clear();
  // run constructors concretely on the initial state
  bool ok = true;
  for (auto c : ctorQueue) { pushFrame(getFI(c), nullptr, {}); try { runState(); } catch (PathEnd& p) { if (p.why != PE_DONE) { ok = false; break; } } }
  if (!ok) { errs.push_back("global constructors failed"); engErrors++; return; }
  S->steps = 0;
  pushFrame(getFI(mainF), nullptr, {});
  work.push_back(S); S = nullptr;
  while (!work.empty()) {
    S = work.back(); work.pop_back();
    int why = PE_ENGINE;
    try { runState(); } catch (PathEnd& p) { why = p.why; }
    npaths[why]++;
    if (S->steps > maxPathSteps) maxPathSteps = S->steps;
    if (why == PE_DONE || why == PE_VIOLATION) {
      if (S->cons.size()) distinct++;
      if (why == PE_DONE && maxSamples) {      // uniform sample of the completed paths, for replay against the real library
        u64 n = npaths[PE_DONE]; size_t at = psamples.size();
        if (at >= maxSamples) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; at = rng % n; }
        if (at < maxSamples) {
          PathSample ps; ps.trail = S->trail; ps.notes = S->notes; Evaluator ev(S->model);
          for (auto v : S->vars) { u128 x = 0; ev.eval(g_vars[v].e, x); ps.vals.push_back({g_vars[v].name, (u64)x}); }
          if (at < psamples.size()) psamples[at] = ps; else psamples.push_back(ps); } }
    }
    delete S; S = nullptr;
    if (timedOut || (maxViol && viols.size() >= maxViol) ) { if (!work.empty()) abandoned += work.size(); for (auto s : work) delete s; work.clear(); break; }
  }
}
