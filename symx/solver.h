#pragma once
#include <string>
#include "expr.h"
#include <z3.h>
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNK = 2 };
struct SolverStats { u64 retries, order, orderSat, queries, sat, unsat, unk, cacheHits, modelHits; u64 usec; u64 maxUsec; };
struct Solver {
  void init(u64 rlimit);
  // is (pcs && q) satisfiable? base: model of pcs. On SAT, returns new full model.
  Res check(const std::vector<Expr *> &pcs, Expr *q, const ModelP &base, ModelP &out);
  SolverStats st{};
  int mode = 0;
};
extern Solver g_solver; extern std::string (*g_where)();
ModelP newModel(const ModelP &base);
