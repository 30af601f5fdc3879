#pragma once
#include "hist.h"
struct Engine {
  const char *name;
  bool indexed;                                    // cases are numbered 0..count-1 instead of drawn at random
  void (*run)(Ctx &, Src &);
  uint64_t (*count)(const Ctx &);                  // indexed only
  const char *rule;                                // what counts as non-trivial
};
const Engine *findEngine(const std::string &name);
void e_cost(Ctx &, Src &);
