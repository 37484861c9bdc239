#pragma once
#include "expr.h"
#include <map>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats gStats;
extern bool gIncremental; extern unsigned gSolverTimeoutMs;
extern std::string gDumpDir;
// Is conj(pc) & extra satisfiable?  `m` must satisfy pc on entry; on SAT it is replaced by a model of pc & extra.
Res solverCheck(const std::vector<E>& pc, E extra, Model& m);
