#pragma once
#include "expr.hpp"
#include <string>
#include <vector>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0, maxSec = 0;
  uint64_t hard = 0, external = 0, realProofs = 0, guessed = 0, cases = 0; // cases: decided by evaluating the formula for every value of its few bits
};
extern SolverStats gSS;
extern unsigned gQueryTimeoutMs;
extern double gDeadline;     // absolute, seconds (monotonic)
double nowSec();
// satisfiability of (all of cs) and q.  base satisfies cs; on SAT *out satisfies cs and q.
Res solve(const std::vector<E> &cs, E q, const ModelP &base, ModelP *out, unsigned timeoutMs = 0);
bool writeSmt2(const std::string &path, const std::vector<E> &cs, E q);
bool realUnsat(const std::vector<E> &cs, E q, unsigned ms); // linear real/integer over-approximation
