#pragma once
#include "solver.h"
#include "llvm/ADT/SmallString.h"
R liaCheck(Z3_context ctx, const std::vector<E> &cs, std::shared_ptr<Model> *out, unsigned timeout_ms);
extern bool gLia;
