#pragma once
#include "expr.h"
#include <vector>
enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t z3_calls = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, model_hits = 0; double z3_time = 0, max_query = 0; };
extern SolverStats g_ss;
extern std::string g_smt_dump; extern int g_smt_dump_max;   // directory for a sample of the queries, in SMT-LIB2
extern unsigned g_rlimit; extern double g_deadline;   // steady-clock seconds
// decides the conjunction of `cs`; on SAT writes values of the involved symbols into `m`
Sat solve(const std::vector<Expr*> &cs, Model &m);
