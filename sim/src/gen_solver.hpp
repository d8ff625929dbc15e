#pragma once
#include "core.hpp"
#include "ref.hpp"
namespace sim {
struct FormulaSpec { int nv; std::vector<Clause> cls; std::string family; };
FormulaSpec gen_formula(Rng& r, int size_class);   // 0 tiny (<=10 vars), 1 small (<=14), 2 medium (15..40), 3 large
struct OptSpec { bool allow_gb = true, allow_cb = true, allow_ncb = true, force_gb = false; bool proof = false, deps = false, attach = true, interactive = false, iuv = true; double attach_p = 0.4; bool stats = false; double stats_p = 0.15; bool limits = false; double iuv_p = 0.12; };
Words gen_options(Rng& r, const OptSpec& o);
Clause rand_clause(Rng& r, int nv, int maxlen, bool weird);
std::string lits_str(const Clause& c);
}
