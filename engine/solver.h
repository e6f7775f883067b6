#pragma once
#include <optional>
#include "term.h"
namespace lfv {
enum class Ans { Sat, Unsat, Unknown };
struct Model { std::unordered_map<T, double> real; std::unordered_map<T, i128> ints; };
struct SolverStats { long queries = 0, sat = 0, unsat = 0, unknown = 0, cvc5 = 0; double seconds = 0; };
extern SolverStats g_solver;
// satisfiability of pc /\ extra, restricted to the conjuncts relevant for extra
Ans solve(const std::vector<T>& pc, T extra, int timeout_ms, Model* m);
const std::vector<uint32_t>& symsOf(T n);
bool hasReal(T n);
}  // namespace lfv
