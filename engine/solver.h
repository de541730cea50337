#pragma once
#include "expr.h"
#include <z3.h>
namespace sx {
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0; double z3time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern const char* g_dumpDir; extern unsigned g_dumpEvery;
// Decide  constraints /\ q  (only the constraints sharing symbols with q matter: the rest are known satisfiable
// under base). On SAT, out = base model updated for the symbols of the slice.
Res solve(const std::vector<E>& constraints, E q, const Model& base, Model* out);
}  // namespace sx
