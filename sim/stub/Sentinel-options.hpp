// Stand-in for the (absent) SATSentinel submodule: option record only.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
  class Options {
  public:
    std::string commands_file;
    bool check_no_conflicts = false;
    bool check_trail_monotonicity = false;
    bool check_implied_levels = false;
    bool check_no_missed_implications = false;
    bool check_topological_order = false;
    bool check_assignment_coherence = false;
    bool check_weak_watched_literals = false;
    bool check_strong_watched_literals = false;
    Options() = default;
    std::vector<std::string> given;
    explicit Options(std::vector<std::string>& tokens) : given(tokens) {
      for (size_t i = 0; i + 1 < tokens.size(); i++) if (tokens[i] == "-commands") commands_file = tokens[i + 1];
    }
    static std::string get_help_text() { return "sentinel stub\n"; }
  };
}
