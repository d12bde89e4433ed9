#pragma once
#include "expr.h"

enum SatResult
{
    UNSAT,
    SAT,
    UNKNOWN
};

struct SolverStats
{
    u64 queries = 0;         // questions asked by the executor
    u64 z3_calls = 0;        // calls that reached the solver
    u64 cache_hits = 0;
    u64 model_hits = 0;
    u64 unknown = 0;
    double time = 0;
};
extern SolverStats g_sstats;
extern unsigned g_query_timeout_ms;

// Is (and of cs) /\ q satisfiable?  On SAT, fills `out` (values for variables in the slice).
// `base` satisfies cs.
SatResult solve(const std::vector<E>& cs, E q, const ModelP& base, ModelP& out);
void addRecentModel(const ModelP& m);
