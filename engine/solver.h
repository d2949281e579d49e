#pragma once
#include "expr.h"

struct SolverStats
{
    uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknowns = 0, fdcalls = 0, gfcalls = 0, fmcalls = 0, liacalls = 0, sat = 0, unsat = 0;
    double z3time = 0;
};
extern SolverStats gSolverStats;
enum class Res
{
    Sat,
    Unsat,
    Unknown
};
extern unsigned gSolverTimeoutMs;

// Is  /\ pc /\ cond  satisfiable?  `base` is a model of pc; on Sat, `out` is a model of pc /\ cond.
Res solveSat(const std::vector<E>& pc, E cond, const Model& base, std::shared_ptr<const Model>& out);
// dump of the last hard query as SMT-LIB2 (for cross-checking)
extern std::string gDumpDir;
// called when a solver call cannot be interrupted
extern void (*gStuckHandler)();
// the conjunction decided over the integers; Unknown when it does not translate (m: starting values in, model out)
Res solveFm(const std::vector<E>& cs, const Model& base, Model& m);
Res solveLia(const std::vector<E>& cs, unsigned timeoutMs, Model& m);
