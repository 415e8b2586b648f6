#pragma once
#include "expr.hh"
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries=0, cacheHits=0, sat=0, unsat=0, unknown=0, modelHits=0; double time=0, maxTime=0; };
extern SolverStats g_ss;
extern unsigned g_timeout_ms;
// check satisfiability of conjunction; on SAT fill model (only variables in the sliced set are updated in m).
Res solve(const std::vector<E>& cs, E q, Model* m);
void solverInit();
extern FILE* g_smtlog;

int solverSelftest();
