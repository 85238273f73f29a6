#pragma once
#include "expr.h"
#include <memory>
typedef std::shared_ptr<const Model> ModelPtr;
enum Res { Unsat, Sat, Unknown };
struct SolverStats {
    u64 queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats sstats;
extern unsigned solverTimeoutMs;
extern double solverDeadline; // seconds since the start of the process
// Is pc && cond satisfiable?  base satisfies pc.  On Sat, out satisfies pc && cond.
Res solve(const std::vector<E> &pc, E cond, const ModelPtr &base, ModelPtr &out);
void dumpSmt(const std::vector<E> &pc, E cond, const char *file);
