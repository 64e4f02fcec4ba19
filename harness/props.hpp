#pragma once
#include "tape.hpp"
#include <string>
#include <vector>
struct Prop {
  const char *id;
  bool (*run)(Tape &); // true: the case was non-trivial
  const char *rule;
  int n_special = 0; // costly scenarios that run once per check
  bool (*special)(Tape &, int) = nullptr;
};
extern const std::vector<Prop> g_props;
// sub-processes started by special scenarios
int sub_rnd();
int sub_kinds();
int sub_exit(unsigned seed);
// Known findings: returns an empty string if the defect is gone
std::string probe_reuse_after_backward();
