#pragma once
#include "expr.h"
#include <memory>
enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0, maxq = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
// Is  conj(cs) && extra  satisfiable?  `hint` satisfies cs.  On SAT, *out (if given) satisfies everything.
SatRes solveWith(const std::vector<E> &cs, E extra, const Model &hint, Model *out);
void solverInterrupt(); // from another thread
