// Floating-point expressions read as real arithmetic over integer leaves.
#pragma once
#include "solver.h"
struct RealResult { int res; std::vector<std::pair<E, u128>> leaves; std::string why; };  // 0 holds, 1 counterexample, -1 no answer
// |got - want| <= slack + 1e-6 (1 + |want|) for all values of the leaves with non-zero divisors?
RealResult realClose(Solver &S, E got, E want, double slack, unsigned timeoutMs, const std::vector<E> &path);
