#pragma once
#include "exec.h"
#include <functional>
#include <chrono>
struct Violation { std::string kind, msg, loc, stack, key; int count; std::vector<std::pair<std::string, u64>> vals; };
struct Engine {
  llvm::Module* M = nullptr; const llvm::DataLayout* DL = nullptr;
  std::unordered_map<const llvm::GlobalValue*, u64> gaddr; uint32_t nextGlob = 1; MemMap initMem; uint32_t heapBase = 0;
  std::unordered_map<uint32_t, llvm::Function*> funcById;
  std::unordered_map<llvm::Function*, FuncInfo*> fis;
  State* S = nullptr; std::vector<State*> work;
  std::vector<llvm::Function*> ctorQueue;
  std::map<u64, int> tids; int lpSel = 0;
  bool builtinTookControl = false;
  std::map<std::string, long> params;
  std::map<std::string, u64> reached; std::map<std::string, u64> asserts;
  std::map<FuncInfo*, u64> forkSites;
  struct PathSample { std::vector<std::pair<std::string, u64>> vals; std::vector<std::string> trail, notes; }; std::vector<PathSample> psamples; size_t maxSamples = 6; u64 rng = 88172645463325252ull;
  std::vector<Violation> viols; size_t maxViol = 6;
  std::vector<std::string> errs, notes, samples; u64 engErrors = 0, incomplete = 0;
  u64 ninst = 0, nforks = 0, distinct = 0, abandoned = 0, maxPathSteps = 0; u64 npaths[4] = {0, 0, 0, 0};
  u64 maxSteps = 50000000; bool timedOut = false; int verbose = 0; double maxTime = 600;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  bool timeUp() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxTime; }

  unsigned tw(llvm::Type* t);
  V evalConst(const llvm::Constant* c);
  u64 globalAddr(const llvm::GlobalValue* g);
  void initConstInto(Obj* o, u64 off, const llvm::Constant* c);
  void initGlobals();
  FuncInfo* getFI(llvm::Function* F);
  void decode(FuncInfo* fi);
  void slice(State* s, const Expr* e, std::vector<const Expr*>& out);
  bool allFixed(State* s, const Expr* e);
  void addCons(State* s, const Expr* e);
  SatR sat(State* s, const Expr* e, Model* m);
  int decide(State* s, const Expr* c, Model& mt, Model& mf);
  bool mustBeTrue(State* s, const Expr* c);
  State* forkState();
  bool branchHere(const V& c);
  u64 concretize(const V& v, unsigned w);
  std::string where();
  void note(const std::string& s);
  [[noreturn]] void engineErrorNR(const std::string& s) { engineError(s); abort(); }
  void engineError(const std::string& s);
  void report(const std::string& kind, const std::string& msg, const Model& m);
  void violation(const std::string& kind, const std::string& msg);
  Obj* findObj(u64 a, bool write, uint32_t& id);
  Obj* access(u64 a, u64 n, bool write, u64& off, const char* what);
  V loadObj(Obj* o, u64 off, unsigned n);
  void storeObj(Obj* o, u64 off, const V& v, unsigned n);
  uint32_t resolve(const V& a, u64 n, const char* what);
  V load(const V& a, unsigned n);
  void store(const V& a, const V& v, unsigned n);
  V loadTy(const V& a, llvm::Type* t);
  void storeTy(const V& a, const V& v, llvm::Type* t);
  u64 newHeap(u64 size, uint8_t how, const char* nm);
  void freeHeap(const V& p, uint8_t how);
  std::string readCStr(u64 a);
  bool readConcrete(u64 a, u64 n, std::string& out);
  void memCopy(const V& d, const V& s, u64 n);
  void memSet(const V& d, const V& v, u64 n);
  void jump(State* s, int target);
  void pushFrame(FuncInfo* fi, const Inst* call, const std::vector<V>& args);
  void popFrame();
  void ret(const V& v);
  bool tiDerived(u64 t, u64 base);
  int typeIdFor(u64 ti);
  int lpMatch(const llvm::LandingPadInst* lp, u64 tinfo);
  void unwind();
  V icmp(unsigned p, const V& a, const V& b, unsigned w);
  V fcmp(unsigned p, const V& a, const V& b, unsigned w);
  void doCall(const Inst& in, llvm::Function* F, FuncInfo* fi, int bi, const std::vector<V>& args);
  void runState();
  void runFunction(llvm::Function* F);
  void explore(llvm::Function* mainF);
  // builtins.cpp
  int builtinIndex(llvm::Function* f);
  int overrideIndex(llvm::Function* f);
  V callBuiltin(int bi, const Inst& in, const std::vector<V>& a);
  const Expr* freshVar(const std::string& name, unsigned w, int kind = 0, long lo = 0, long hi = 0);
};
extern Engine* E;
