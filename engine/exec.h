#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <string>
#include <vector>

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { O_HEAP, O_STACK, O_GLOBAL, O_CONST, O_FUNC, O_EXT };
struct Obj {
  uint32_t refs; uint32_t size; ObjKind kind; uint8_t how; bool freed; const char* name; u64 seq;
  uint8_t* data; const Expr** sym;
};
Obj* objNew(uint32_t size, ObjKind k, uint8_t fill, const char* name);
Obj* objClone(const Obj* o);
void objUnref(Obj* o);
struct ObjRef {
  Obj* p;
  ObjRef() : p(0) {}
  explicit ObjRef(Obj* o) : p(o) {}                      // takes ownership
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->refs++; }
  ObjRef(ObjRef&& o) : p(o.p) { o.p = 0; }
  ObjRef& operator=(const ObjRef& o) { if (o.p) o.p->refs++; if (p) objUnref(p); p = o.p; return *this; }
  ObjRef& operator=(ObjRef&& o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p) objUnref(p); }
};
struct Chunk { uint32_t refs; ObjRef o[64]; };
struct MidC { uint32_t refs; Chunk* c[64]; MidC(); MidC(const MidC& m); ~MidC(); };
struct MemMap {                 // persistent 3-level map id -> object
  std::vector<MidC*> top;
  MemMap() {}
  MemMap(const MemMap& m);
  MemMap& operator=(const MemMap& m) = delete;
  ~MemMap();
  Obj* get(uint32_t id) const {
    uint32_t t = id >> 12; if (t >= top.size() || !top[t]) return 0;
    Chunk* c = top[t]->c[(id >> 6) & 63]; return c ? c->o[id & 63].p : 0; }
  ObjRef& slot(uint32_t id);    // unshares the path
  Obj* getW(uint32_t id) { Obj* o = get(id); if (!o) return 0; ObjRef& r = slot(id); if (r.p->refs > 1) { Obj* n = objClone(r.p); ObjRef nr(n); r = nr; } return r.p; }
};
static const u64 OFF0 = 0x10000;
static const uint32_t STK0 = 0x40000000u;
inline u64 addrOf(uint32_t id) { return ((u64)id << 32) | OFF0; }

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot; V c; Opnd() : slot(-1) {} };
struct GepTerm { int op; int64_t scale; unsigned w; };
struct PhiEnt { int dst; std::vector<int> preds; std::vector<Opnd> in; };
struct FuncInfo;
struct Inst {
  unsigned op;            // llvm opcode
  int dst = -1;
  unsigned w = 0;         // result / operand width as appropriate
  unsigned w2 = 0;
  std::vector<Opnd> ops;
  std::vector<GepTerm> gep; int64_t gepOff = 0;
  unsigned pred = 0;
  std::vector<u128> caseVals; std::vector<int> targets;   // br/switch/invoke targets
  llvm::Type* ty = nullptr; llvm::Type* ty2 = nullptr;
  llvm::Function* callee = nullptr; FuncInfo* fi = nullptr; int builtin = -1;
  const llvm::Instruction* I = nullptr;
  bool vec = false; unsigned nel = 0;
  std::vector<unsigned> idx;
};
struct Block { std::vector<PhiEnt> phis; std::vector<Inst> insts; };
struct FuncInfo {
  llvm::Function* F; std::string name; int nslots = 0; std::vector<Block> blocks; bool decoded = false; bool hit = false; u64 calls = 0; u64 ninst = 0;
  std::vector<int> argSlots;
};
struct Frame {
  FuncInfo* fn; std::vector<V> regs; int bb = 0, pc = 0, prev = -1;
  uint32_t stk;                 // stack object watermark on entry
  const Inst* call = nullptr;   // call instruction in the caller
  std::vector<V> varargs;
};
struct ExcRec { u64 obj, tinfo; };

struct State {
  MemMap mem; MemMap stk;
  uint32_t nextStk = 0, nextHeap = 0;
  std::vector<Frame> frames;
  std::vector<const Expr*> cons;
  Model model; bool modelOK = true;
  std::vector<uint64_t> fixed;          // bitmap of variables with a unique value
  std::map<std::string, int> names;
  std::vector<uint32_t> vars;           // variables created on this path in order
  std::map<u64, u64> tokens;            // concrete double bits -> expr id (token table)
  std::vector<ExcRec> caught;
  ExcRec inflight{0, 0}; std::map<u64, u64> excType;
  u64 steps = 0;
  u64 heapSeq = 0;
  unsigned depth = 0;
  std::vector<std::string> notes, trail;
  State() {}
  State(const State&) = default;
};

struct PathEnd { int why; };  // thrown to finish the current path
enum { PE_DONE, PE_SILENT, PE_VIOLATION, PE_ENGINE };
