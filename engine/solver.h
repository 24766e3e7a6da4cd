#pragma once
#include "expr.h"
enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, byZ3 = 0, crossed = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs, g_crossEvery; extern double g_solverDeadline; double solverNow();

// decide satisfiability of the conjunction; on SAT fill `out` (values for all symbols in the conjunction are set)
SatRes solverCheck(const std::vector<Expr*> &cs, Model &out);
void solverInit();
