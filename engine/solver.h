#pragma once
#include "expr.h"
#include <vector>
#include <string>
enum SatR { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// cs: conjunction (all width 1).  m (optional) receives values for the variables occurring in cs.
SatR solverCheck(const std::vector<const Expr*>& cs, Model* m);
