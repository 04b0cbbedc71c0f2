#pragma once
#include "expr.h"
#include <string>
struct SolverStats { uint64_t queries = 0, cache_hits = 0, sat = 0, unsat = 0, unknown = 0, hard = 0, interval = 0; double time = 0, max_time = 0; };
extern SolverStats g_sstat;
extern double g_solver_timeout;	// seconds for one query
// 1 sat (model filled for the variables involved), 0 unsat, -1 unknown
int solve(const std::vector<E>& cons, Model* out);
// slice constraints relevant for e and solve (cons && e)
int solve_sliced(const std::vector<E>& cons, E e, Model* out);
std::string smt2_of(const std::vector<E>& cons);
const std::vector<uint32_t>& vars_of(E e);
