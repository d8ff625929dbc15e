// Reference model of a clause set: exact model set for few variables (truth
// table), an independent small CDCL for more.
#pragma once
#include "core.hpp"
#include <set>
namespace sim {
using Clause = std::vector<int>;   // DIMACS literals

struct RefCdcl {   // one-shot solver; returns true iff satisfiable
  static bool solve(int nv, const std::vector<Clause>& cls, const Clause& assumps, std::vector<char>* model = nullptr);
  // unit propagation closure over root; returns false on conflict
};

struct Formula {
  int nv = 0;              // highest variable that may occur
  bool tt = false;         // truth table in use
  std::vector<Clause> clauses;
  std::vector<u64> table;  // models
  bool known_unsat = false;
  mutable std::set<int> implied;         // literals known to follow
  mutable std::vector<char> witness;   // cached model (cdcl mode)
  void init(int maxvar);
  void add(const Clause& c);
  bool sat() const;
  bool sat(const Clause& assumps) const;
  bool entails(const Clause& c) const;      // F |= c
  bool satisfied_by(const std::vector<char>& val, int* bad = nullptr) const; // val[v] in {0,1,2}
  u64 count_models() const;  // tt only, over nv vars
};
}
namespace sim {
// Independent check of a printed refutation. Empty if it is one, else "signature explanation".
std::string check_printed_proof(const std::string& text, const std::set<std::set<int>>& inputs, int any_input_of_size = -1);
}
