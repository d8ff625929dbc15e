// Stand-in for the (absent) SATSentinel submodule. It is the observation and
// command seam of the simulator: every notification the solver emits is handed
// to the listener installed by the simulated client, which may record it, check
// it, switch to another client, or type a command back into the solver.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <string>
#include <vector>
namespace sentinel {
  struct Tvar    { unsigned value; explicit Tvar(unsigned v = 0) : value(v) {} };
  struct Tlit    { unsigned value; Tlit() : value(0) {} explicit Tlit(unsigned v) : value(v) {} Tlit(Tvar v, unsigned pol) : value(v.value << 1 | (pol & 1)) {} };
  struct Tclause { unsigned value; explicit Tclause(unsigned v = 0xFFFFFFFF) : value(v) {} };
  struct Tlevel  { unsigned value; explicit Tlevel(unsigned v = 0xFFFFFFFF) : value(v) {} };

  struct WatchInvariant {
    std::string name;
    std::function<bool(Tlit, Tlit, Tlit, std::string&)> check;
    std::string description;
    WatchInvariant(std::string n, std::function<bool(Tlit, Tlit, Tlit, std::string&)> c, std::string d)
      : name(std::move(n)), check(std::move(c)), description(std::move(d)) {}
  };

  class Tparser {
    std::function<bool(const std::string&)> _f;
  public:
    explicit Tparser(std::function<bool(const std::string&)> f) : _f(std::move(f)) {}
    bool operator()(const std::string& s) const { return _f(s); }
  };

  struct SATSentinel;
  struct Listener {
    virtual ~Listener() = default;
    virtual void attached_to(SATSentinel*) {}
    virtual bool add_variable(unsigned) { return true; }
    virtual bool alias(unsigned, const std::string&) { return true; }
    virtual bool add_clause(unsigned, const Tlit*, unsigned, bool) { return true; }
    virtual bool delete_clause(unsigned) { return true; }
    virtual bool shrink_clause(unsigned, unsigned) { return true; }
    virtual bool assign(unsigned, unsigned) { return true; }
    virtual bool unassign(unsigned) { return true; }
    virtual bool propagate(unsigned) { return true; }
    virtual bool unpropagate(unsigned) { return true; }
    virtual bool update_level(unsigned, unsigned) { return true; }
    virtual bool update_reason(unsigned, unsigned) { return true; }
    virtual bool watch(unsigned, unsigned) { return true; }
    virtual bool unwatch(unsigned, unsigned) { return true; }
    virtual bool block(unsigned, unsigned, unsigned) { return true; }
    virtual bool lock(unsigned) { return true; }
    virtual bool unlock(unsigned) { return true; }
    virtual bool check_invariants() { return true; }
    virtual bool checkpoint() { return true; }
    virtual bool message(const std::string&, unsigned) { return true; }
  };

  struct SATSentinel {
    Options options;
    Listener* listener = nullptr;
    Tparser* parser = nullptr;
    std::vector<WatchInvariant*> invariants;
    std::function<std::string(Tvar)> var_detail;
    std::function<std::string(Tclause)> clause_detail;
  };

  // Which listener a solver created right now belongs to (the simulator decides).
  inline std::function<Listener*()>& listener_source() { static std::function<Listener*()> f; return f; }

  inline SATSentinel* create_sentinel(const Options& o) {
    SATSentinel* s = new SATSentinel();
    s->options = o;
    s->listener = listener_source() ? listener_source()() : nullptr;
    if (s->listener) s->listener->attached_to(s);
    return s;
  }
  inline void delete_sentinel(SATSentinel* s) {
    for (auto* i : s->invariants) delete i;
    delete s->parser;
    delete s;
  }
#define SIM_FWD(call) (s->listener ? s->listener->call : true)
  inline bool add_variable(SATSentinel* s, Tvar v) { return SIM_FWD(add_variable(v.value)); }
  inline bool set_variable_alias(SATSentinel* s, Tvar v, std::string a) { return SIM_FWD(alias(v.value, a)); }
  inline bool add_clause(SATSentinel* s, Tclause c, const Tlit* l, unsigned n, bool ext) { return SIM_FWD(add_clause(c.value, l, n, ext)); }
  inline bool delete_clause(SATSentinel* s, Tclause c) { return SIM_FWD(delete_clause(c.value)); }
  inline bool shrink_clause(SATSentinel* s, Tclause c, Tlit l) { return SIM_FWD(shrink_clause(c.value, l.value)); }
  inline bool assign(SATSentinel* s, Tlit l, Tclause r) { return SIM_FWD(assign(l.value, r.value)); }
  inline bool unassign(SATSentinel* s, Tlit l) { return SIM_FWD(unassign(l.value)); }
  inline bool propagate(SATSentinel* s, Tlit l) { return SIM_FWD(propagate(l.value)); }
  inline bool unpropagate(SATSentinel* s, Tlit l) { return SIM_FWD(unpropagate(l.value)); }
  inline bool update_level(SATSentinel* s, Tlit l, Tlevel v) { return SIM_FWD(update_level(l.value, v.value)); }
  inline bool update_reason(SATSentinel* s, Tlit l, Tclause c) { return SIM_FWD(update_reason(l.value, c.value)); }
  inline bool watch(SATSentinel* s, Tclause c, Tlit l) { return SIM_FWD(watch(c.value, l.value)); }
  inline bool unwatch(SATSentinel* s, Tclause c, Tlit l) { return SIM_FWD(unwatch(c.value, l.value)); }
  inline bool block(SATSentinel* s, Tclause c, Tlit b, Tlit w) { return SIM_FWD(block(c.value, b.value, w.value)); }
  inline bool lock_assumption(SATSentinel* s, Tlit l) { return SIM_FWD(lock(l.value)); }
  inline bool unlock_assumption(SATSentinel* s, Tlit l) { return SIM_FWD(unlock(l.value)); }
  inline bool check_invariants(SATSentinel* s) { return SIM_FWD(check_invariants()); }
  inline bool checkpoint(SATSentinel* s) { return SIM_FWD(checkpoint()); }
  inline bool message(SATSentinel* s, const std::string& m, unsigned lvl = 0) { return SIM_FWD(message(m, lvl)); }
#undef SIM_FWD
  inline bool save_execution(SATSentinel*, const std::string&) { return true; }
  inline bool load_execution(SATSentinel*, const std::string&) { return true; }
  inline void set_command_parser(SATSentinel* s, Tparser* p) { s->parser = p; }
  inline void set_variable_detail_callback(SATSentinel* s, std::function<std::string(Tvar)> f) { s->var_detail = std::move(f); }
  inline void set_clause_detail_callback(SATSentinel* s, std::function<std::string(Tclause)> f) { s->clause_detail = std::move(f); }
  inline void add_watch_invariant(SATSentinel* s, WatchInvariant* w) { s->invariants.push_back(w); }
}
