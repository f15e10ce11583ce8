#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
enum R { SAT, UNSAT, UNK };
struct Solver {
  Z3_context ctx; Z3_config cfg;
  std::vector<Z3_ast> bv, bl; // by expr id
  uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncache = 0, nack = 0; double time = 0, maxq = 0;
  unsigned timeout_ms;
  std::string dumpDir; std::string tacticName;
  std::map<std::vector<uint32_t>, std::pair<R, std::shared_ptr<Model>>> cache;
  Solver();
  Z3_ast asBV(E e); Z3_ast asBool(E e);
  // check conjunction cs; on SAT fills model (only for symbols in support)
  R check(const std::vector<E> &cs, std::shared_ptr<Model> *out);
  R checkZ3(const std::vector<E> &cs, std::shared_ptr<Model> *out);
};
