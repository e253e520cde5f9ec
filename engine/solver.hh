// Bit-blasting to an and/xor/mux graph, incremental MiniSat for path conditions, and a portfolio of
// external solvers (kissat, cadical on CNF; z3, cvc5 on SMT-LIB2) for queries MiniSat does not settle quickly.
#pragma once
#include "expr.hh"

enum Res { SAT_, UNSAT_, UNK_ };
struct SolverStats {
	u64 queries = 0, bySimp = 0, byMini = 0, byExt = 0, sat = 0, unsat = 0, unk = 0;
	double time = 0, extTime = 0; u64 maxVars = 0;
	std::unordered_map<std::string, u64> extWins;
};
extern SolverStats g_ss;
extern i64 g_miniBudget;	// conflicts before the portfolio is asked
extern double g_extTimeout;	// seconds
extern std::string g_tmpdir;
extern bool g_absAdd; extern u64 g_absUnsat;	// linear abstraction
extern bool g_crossCheck;	// every UNSAT verdict must be confirmed by a second solver on the SMT-LIB2 form
extern u64 g_crossChecked;
extern int g_portfolio;
Res solve(const std::vector<E> &conds, Model *m, bool hard = false);
std::string toSMT2(const std::vector<E> &conds, bool getModel);
