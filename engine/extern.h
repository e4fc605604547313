// A query answered by separate solver processes (z3 and z3-new, the first answer
// counts), so that one that ignores its time limit can be ended.
#pragma once
#include <string>
#include <vector>
#include <z3.h>
// 1 satisfiable, 0 unsatisfiable, -1 no answer. values: decimal or #x/#b texts of `terms`
int externCheck(Z3_context c, Z3_solver asserted, const std::vector<Z3_ast> &terms, unsigned timeoutMs, std::vector<std::string> &values);
__int128 externNumber(const std::string &s);
