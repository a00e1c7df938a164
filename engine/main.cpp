#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <unistd.h>
#include <algorithm>
#include <sys/resource.h>
#include <thread>
#include <pthread.h>
using namespace llvm;
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static int argc_; static char** argv_;
static int realMain() {
  std::string bc, fn, out; unsigned qt = 30000; static Engine eng; E = &eng; std::string prefix;
  for (int i = 1; i < argc_; i++) {
    std::string a = argv_[i];
    if (a == "-f") fn = argv_[++i]; else if (a == "-o") out = argv_[++i]; else if (a == "-v") eng.verbose++;
    else if (a == "-p") { std::string s = argv_[++i]; size_t e = s.find('='); eng.params[s.substr(0, e)] = atol(s.c_str() + e + 1); }
    else if (a == "--max-time") eng.maxTime = atof(argv_[++i]); else if (a == "--max-steps") eng.maxSteps = strtoull(argv_[++i], 0, 10);
    else if (a == "--query-timeout") qt = atoi(argv_[++i]); else if (a == "--samples") eng.maxSamples = atoi(argv_[++i]); else if (a == "--seed") eng.rng ^= (u64)atol(argv_[++i]) * 0x9E3779B97F4A7C15ull; else if (a == "--max-viol") eng.maxViol = atoi(argv_[++i]);
    else bc = a;
  }
  solverInit(qt);
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("sym", errs()); return 3; }
  eng.M = M.get(); eng.DL = &M->getDataLayout();
  Function* F = M->getFunction(fn);
  if (!F) { fprintf(stderr, "no function %s\n", fn.c_str()); return 3; }
  eng.t0 = std::chrono::steady_clock::now();
  try { eng.explore(F); } catch (PathEnd&) { eng.engErrors++; }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - eng.t0).count();
  std::string s = "{\n";
  auto num = [&](const char* k, double v) { char b[128]; snprintf(b, sizeof b, " \"%s\": %.17g,\n", k, v); s += b; };
  s += " \"harness\": " + jstr(fn) + ",\n";
  num("wall", wall); num("paths_done", eng.npaths[PE_DONE]); num("paths_assumed_away", eng.npaths[PE_SILENT]); num("paths_violation", eng.npaths[PE_VIOLATION]); num("paths_engine_error", eng.npaths[PE_ENGINE]);
  num("forks", eng.nforks); num("symbolic_paths", eng.distinct); num("instructions", eng.ninst); num("abandoned", eng.abandoned); num("max_path_steps", eng.maxPathSteps);
  num("queries", g_ss.queries); num("queries_sat", g_ss.sat); num("queries_unsat", g_ss.unsat); num("queries_unknown", g_ss.unknown); num("query_cache_hits", g_ss.cacheHits); num("query_model_hits", g_ss.modelHits); num("solver_time", g_ss.time); num("max_query", g_ss.maxTime);
  num("timed_out", eng.timedOut); num("engine_errors", eng.engErrors); num("incomplete", eng.incomplete); num("vars", g_vars.size());
  s += " \"errors\": ["; for (size_t i = 0; i < eng.errs.size(); i++) s += (i ? "," : "") + jstr(eng.errs[i]); s += "],\n";
  s += " \"notes\": ["; for (size_t i = 0; i < eng.notes.size(); i++) s += (i ? "," : "") + jstr(eng.notes[i]); s += "],\n";
  auto jvals = [&](const std::vector<std::pair<std::string, u64>>& v) { std::string r = "["; for (size_t k = 0; k < v.size(); k++) { char b[64]; snprintf(b, sizeof b, ",\"%llx\"]", (unsigned long long)v[k].second); r += (k ? "," : "") + std::string("[") + jstr(v[k].first) + b; } return r + "]"; };
  auto jlist = [&](const std::vector<std::string>& v) { std::string r = "["; for (size_t k = 0; k < v.size(); k++) r += (k ? "," : "") + jstr(v[k]); return r + "]"; };
  s += " \"samples\": ["; for (size_t i = 0; i < eng.psamples.size(); i++) { auto& p = eng.psamples[i]; s += std::string(i ? "," : "") + "\n  {\"vals\":" + jvals(p.vals) + ",\"trail\":" + jlist(p.trail) + ",\"notes\":" + jlist(p.notes) + "}"; } s += "],\n";
  s += " \"reached\": {"; { bool f = true; for (auto& p : eng.reached) { s += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); f = false; } } s += "},\n";
  s += " \"asserts\": {"; { bool f = true; for (auto& p : eng.asserts) { s += (f ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); f = false; } } s += "},\n";
  s += " \"functions\": ["; { bool f = true; for (auto& p : eng.fis) if (p.second->hit) { std::string d = llvm::demangle(p.second->name); s += (f ? "" : ",") + jstr(d); f = false; } } s += "],\n";
  s += " \"violations\": [";
  for (size_t i = 0; i < eng.viols.size(); i++) { auto& v = eng.viols[i]; s += std::string(i ? "," : "") + "\n  {\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"loc\":" + jstr(v.loc) + ",\"stack\":" + jstr(v.stack) + ",\"count\":" + std::to_string(v.count) + ",\"vals\":" + jvals(v.vals) + "}";
    }
  s += "]\n}\n";
  if (eng.verbose) { std::vector<std::pair<u64, std::string>> fs; for (auto& p : eng.forkSites) fs.push_back({p.second, llvm::demangle(p.first->name)}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 15; i++) fprintf(stderr, "forks %8llu %s\n", (unsigned long long)fs[i].first, fs[i].second.c_str()); }
  if (out.empty()) fputs(s.c_str(), stdout); else { FILE* f = fopen(out.c_str(), "w"); fputs(s.c_str(), f); fclose(f); }
  fflush(0); _exit(0);
}
static void* th(void*) { realMain(); return 0; }
int main(int c, char** v) {
  argc_ = c; argv_ = v;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)1 << 30); pthread_t t; if (pthread_create(&t, &a, th, 0)) { perror("thread"); return 3; } pthread_join(t, 0); return 3;
}
