#pragma once
#include "expr.hpp"
#include <atomic>
enum class Res { Sat, Unsat, Unknown };
struct Shared; // statistics shared between processes (see exec.hpp)
struct SolverStats { std::atomic<uint64_t> queries, sat, unsat, unknown, us, maxus; };
extern SolverStats* g_sstat;
extern uint64_t g_rlimit;
// Is conj(constraints) & extra satisfiable?  When model != null and Sat, a model of *all* given constraints is stored.
Res solve(const std::vector<Expr*>& constraints, Expr* extra, Assignment* model, bool slice = true);
void warmSolver();
