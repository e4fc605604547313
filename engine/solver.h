#pragma once
#include "expr.h"
#include <map>
#include <unordered_set>
#include <chrono>
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, evalHits = 0; double time = 0, maxTime = 0; u64 second = 0; };
struct Solver {
  SolverStats st;
  Z3_context ctx;
  Z3_solver fast = nullptr;
  unsigned timeoutMs = 60000;
  bool crossCheck = false;
  struct CacheEnt { int res; std::vector<std::pair<u32, u64>> model; };
  std::map<std::vector<u32>, CacheEnt> cache;
  Solver();
  Z3_ast tr(E e);
  // is cons && q satisfiable?  returns 1 sat, 0 unsat, -1 unknown. base: a model of cons.
  int check(const std::vector<E> &cons, E q, const Model &base, Model *out);
  // satisfiability of a set without a known model
 private:
  int run(const std::vector<E> &fs, const std::vector<u32> &vars, CacheEnt &ent);
  Z3_ast toFp(E e);
  std::map<unsigned, Z3_sort> bvSort;
  Z3_sort bv(unsigned w);
  std::map<u32, Z3_func_decl> ufs;
};
