// Satisfiability of path conditions, by z3.
#pragma once
#include <string>

#include "expr.h"

namespace irsym {
enum class Res { UNSAT, SAT, UNKNOWN };
struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0;
    double seconds = 0;
};
extern SolverStats sstats;
extern unsigned query_timeout_ms;
// satisfiability of pc and cond; constraints that share no variable with cond are left out. On SAT, model (if given)
// gets the values of the variables of the slice on top of what it holds.
Res check(const std::vector<E*>& pc, E* cond, Model* model);
Res differ(const std::vector<E*>& pc, const std::vector<E*>& x, const std::vector<E*>& y);
}  // namespace irsym
