// World "solver": one or more clients, each owning a NapSAT instance built from
// the real sources, driven through the public API. Clients are fibers that the
// scheduler may switch at every seam crossing inside the solver.
#include "core.hpp"
#include "ref.hpp"
#include "disk.hpp"
#include "Sentinel-API.hpp"
#include "SAT-API.hpp"
#include "SAT-options.hpp"
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

namespace sim {
using napsat::NapSAT;
static inline napsat::Tlit nl(int l) { return napsat::Tlit(napsat::Tvar((unsigned) std::abs(l)), (unsigned) (l > 0)); }
static inline int dl(napsat::Tlit l) { return l.pol() ? (int) l.var().value : -(int) l.var().value; }
static inline int dlv(unsigned v) { return (v & 1) ? (int) (v >> 1) : -(int) (v >> 1); }
static std::string show(const Clause& c) { std::string s = "("; for (int l : c) s += std::to_string(l) + " "; if (s.size() > 1) s.pop_back(); return s + ")"; }

struct SolverClient;
static std::vector<std::unique_ptr<SolverClient>> clients;
std::string scratch_dir();

struct CaptureCout {   // redirect std::cout into a string
  std::ostringstream ss; std::streambuf* old;
  CaptureCout() { old = std::cout.rdbuf(ss.rdbuf()); if (sched) sched->hold++; }
  ~CaptureCout() { std::cout.rdbuf(old); if (sched) sched->hold--; }
};

struct SolverClient : sentinel::Listener {
  int id = 0;
  Words optwords;
  std::vector<Words> ops;
  int maxvar = 0;
  std::unique_ptr<napsat::options> opt;
  NapSAT* s = nullptr;
  Formula F;
  std::set<int> assumed;
  std::deque<std::string> commands;
  bool gb = false, iuv = false, interactive = false, proof = false, deps = false, attached = false;
  bool chk_observe = false, chk_entail = false, chk_inv = false, chk_root = false, chk_watch = false;
  u64 inv_every = 1, inv_count = 0;
  int vars_known = 0;       // what variables_count() must at least cover
  std::map<unsigned, Clause> handle2input;   // external clause handles
  std::vector<std::vector<int>> blobs;
  u64 transcript = 1469598103934665603ull;   // hash of API-visible results of this client
  void rec(u64 v) { transcript = (transcript ^ v) * 0x100000001B3ull; transcript ^= transcript >> 31; mix(v + 977 * (u64) id); }
  bool dead = false;         // abandoned after an injected allocation failure
  bool dirty_limit = false;
  u64 learned = 0, user_learned = 0;   // user_learned: of them, those of conflicts that a clause of the interactive user caused

  // ----------------------------------------------------------- observed model
  struct OClause { Clause lits; bool external = false; std::map<int, int> watch; };
  std::vector<signed char> oval; std::vector<int> otrail; std::vector<unsigned> oreason; std::vector<char> oprop;
  std::map<unsigned, OClause> live;
  std::set<int> olocked;
  std::map<int, bool> suggested; std::set<int> ever; bool user_step = false;   // suggestions not used yet, variables that ever had a value
  Clause current_input; bool adding = false;
  sentinel::SATSentinel* sen = nullptr;
  int ov(int l) const { int v = std::abs(l); if ((size_t) v >= oval.size()) return 0; return l > 0 ? oval[v] : -oval[v]; }
  void ensure(int v) { if ((size_t) v >= oval.size()) { oval.resize(v + 1, 0); oreason.resize(v + 1, ~0u); oprop.resize(v + 1, 0); } }

  [[noreturn]] void bad(const std::string& sig, const std::string& msg) {
    violation(sig, "client " + std::to_string(id) + " [" + join(optwords) + "]: " + msg);
  }
  void note(u64 kind, u64 a = 0, u64 b = 0) {
    SIM_COUNT("notifications");
    mix(kind * 0x9E3779B97F4A7C15ull + a * 31 + b);
    if (kind != 3 && kind != 4) seen.shrunk = ~0u;
  }
  struct CB { Harness h; ~CB() {} };
  // ------------------------------------------------- what statistics must say
  struct { u64 adds = 0, gone = 0, learn = 0, learn_lits = 0, learn_gone = 0, units = 0, binaries = 0, deleted = 0; unsigned last = ~0u, shrunk = ~0u; bool last_ext = false; } seen;
  i64 born0 = 0, born1 = 0, solve_hi = 0, solve_lo = 0; std::map<std::string, double> stat_before; bool other_ran = false;
  template <class Fn> napsat::status timed(Fn f, bool open) {
    i64 t0 = vclock.elapsed_ns; u64 r0 = vclock.reads, sw0 = sched ? sched->switches : 0; napsat::status r;
    { Code c; r = f(); }
    i64 el = vclock.elapsed_ns - t0, lo = el - 3 * vclock.tick - 400 * Clock::step_ns - 1000;
    for (u64 k : {r0 + 1, r0 + 2, vclock.reads, vclock.reads - 1}) { auto it = vclock.stalls.find(k); if (it != vclock.stalls.end()) lo -= it->second; }
    solve_hi += el; if (open && lo > 0 && (sched ? sched->switches : 0) == sw0) solve_lo += lo;
    return r;
  }
  // the text of print_statistics()
  void judgeStatistics(const std::string& text, i64 t0) {
    bool on = opt->print_stats || opt->print_live_stats;
    if (!on) { if (text.find("- ") != std::string::npos || text.find("No statistic") == std::string::npos) bad("stats:off", "no statistics are collected, but print_statistics() says: " + text.substr(0, 60)); return; }
    SIM_COUNT("stats_judged"); out->nontrivial = 1;
    std::map<std::string, double> now; std::istringstream in(text); std::string line; double created = -1;
    auto number = [&](const std::string& w, double& v) {   // 1,234.50
      size_t dot = w.find('.'); std::string h = w.substr(0, dot), digits; if (h.empty()) return false;
      for (size_t i = 0; i < h.size(); i++) { size_t left = h.size() - i; if (left % 4 == 0) { if (h[i] != ',' || i == 0) return false; } else if (!isdigit((unsigned char) h[i])) return false; else digits += h[i]; }
      if (digits.size() > 1 && digits[0] == '0') return false;
      if (dot != std::string::npos) { digits += w.substr(dot); for (size_t i = dot + 1; i < w.size(); i++) if (!isdigit((unsigned char) w[i])) return false; }
      v = atof(digits.c_str()); return true;
    };
    auto duration = [&](const std::string& w, double& ms) {   // 1h 2m 3s 4ms
      std::istringstream i(w); std::string x; ms = 0; double last = 1e300; bool any = false;
      while (i >> x) { size_t d = 0; while (d < x.size() && isdigit((unsigned char) x[d])) d++; std::string u = x.substr(d); double f = u == "h" ? 3600000 : u == "m" ? 60000 : u == "s" ? 1000 : u == "ms" ? 1 : 0; if (!f || !d || f >= last) return false; last = f; ms += atof(x.substr(0, d).c_str()) * f; any = true; }
      return any && last == 1;
    };
    while (std::getline(in, line)) {
      size_t c = line.find(": "); if (c == std::string::npos) { if (line.compare(0, 2, "c ") || line.back() != ':') bad("stats:form", "line '" + line + "'"); continue; }
      std::string name = line.substr(line.compare(0, 5, "c  - ") ? 2 : 5, c - (line.compare(0, 5, "c  - ") ? 2 : 5)), val = line.substr(c + 2); double v;
      if (name == "Time since creation") { if (!duration(val, created)) bad("stats:time", name + ": '" + val + "' is no duration"); continue; }
      if (val == "---") continue;
      bool t = val.size() > 2 && !val.compare(val.size() - 2, 2, "ms");
      if (t ? !duration(val, v) : !number(val, v)) bad("stats:form", "'" + name + ": " + val + "' is no " + (t ? "duration" : "number"));
      if (now.count(name)) bad("stats:twice", name + " appears twice");
      now[name] = v;
    }
    i64 t1 = vclock.elapsed_ns; double hi = (double) (t1 - born0) / 1e6, lo = (double) (t0 - born1) / 1e6 - 1;
    if (created < 0 || created > hi || created < lo) bad("stats:age", "time since creation " + std::to_string(created) + " ms, but between " + std::to_string(lo) + " and " + std::to_string(hi) + " ms went by");
    auto get = [&](const char* n) { return now.count(n) ? now[n] : 0.0; };
    if (get("Solve time") > (double) solve_hi / 1e6 || get("Solve time") < (double) solve_lo / 1e6 - 1) bad("stats:solve-time", "solve time " + std::to_string(get("Solve time")) + " ms, but the searches took between " + std::to_string((double) solve_lo / 1e6) + " and " + std::to_string((double) solve_hi / 1e6) + " ms");
    if (get("Repair time") > hi || get("Cost estimation time") > get("Repair time") + 1) bad("stats:repair-time", "repair time " + std::to_string(get("Repair time")) + " ms, cost estimation " + std::to_string(get("Cost estimation time")) + " ms, age " + std::to_string(hi) + " ms");
    auto range = [&](const char* n, u64 from, u64 to) { double g = get(n); if (g < (double) from || g > (double) to) bad("stats:count", std::string(n) + " is " + std::to_string((u64) g) + " but should lie between " + std::to_string(from) + " and " + std::to_string(to)); };
    range("Add clause", seen.adds - seen.gone, seen.adds);
    if (!seen.learn_gone) { double a = get("Avg learned clause size"), e = seen.learn ? (double) seen.learn_lits / (double) seen.learn : 0; if (a > e + 1e-9 || a < e - 0.0101) bad("stats:average", "average size of learned clauses is " + std::to_string(a) + " but " + std::to_string(seen.learn) + " clauses with " + std::to_string(seen.learn_lits) + " literals were learned"); }
    range("Clause deleted", 0, seen.deleted);
    range("Unit clause simplified", seen.units, seen.units); range("Binary clause simplified", seen.binaries, seen.binaries);
    range("Restart", 0, (u64) get("Conflict repair"));
    for (auto& [n, v] : stat_before) if (n.compare(0, 3, "Avg") && get(n.c_str()) < v) bad("stats:decreased", n + " went from " + std::to_string(v) + " to " + std::to_string(get(n.c_str())));
    stat_before = now;
  }
  bool done(Seam sm = SEAM_NOTIFY) { in_code = true; crossing(sm); return true; }

  void attached_to(sentinel::SATSentinel* x) override { sen = x; }
  bool add_variable(unsigned v) override {
    Harness h; note(1, v); ensure((int) v); vars_known = std::max(vars_known, (int) v);
    crossing(SEAM_NOTIFY); return true;
  }
  bool add_clause(unsigned cl, const sentinel::Tlit* lits, unsigned n, bool ext) override {
    Harness h; note(2, cl, n);
    OClause c; c.external = ext;
    for (unsigned i = 0; i < n; i++) { c.lits.push_back(dlv(lits[i].value)); mix(lits[i].value); }
    if (!ext) { SIM_COUNT("conflict_learned"); learned++; }
    seen.adds++; seen.last = cl; seen.last_ext = ext; if (!ext) { seen.learn++; seen.learn_lits += n; }
    if (chk_observe) {
      if (live.count(cl)) bad("observe:add-live-id", "clause id " + std::to_string(cl) + " announced while already live");
      Clause x = c.lits; std::sort(x.begin(), x.end());
      if (ext && adding)
        for (int l : c.lits) if (std::find(current_input.begin(), current_input.end(), l) == current_input.end())
          bad("observe:foreign-literal", "announced external clause " + show(c.lits) + " is not part of the given clause " + show(current_input));
    }
    if (chk_entail && (!ext || adding)) {
      SIM_COUNT("entailment_checks");
      if (!F.entails(c.lits)) bad(ext ? "entail:input" : "entail:learned", std::string(ext ? "input" : "learned") + " clause " + show(c.lits) + " is not a consequence of the clauses given so far");
    }
    live[cl] = std::move(c);
    crossing(SEAM_NOTIFY); return true;
  }
  bool delete_clause(unsigned cl) override {
    Harness h; note(3, cl); SIM_COUNT("clause_deleted"); seen.deleted++; if (seen.shrunk == cl) countShort(cl, -1); seen.shrunk = ~0u; if (seen.last == cl) { seen.gone++; if (!seen.last_ext) seen.learn_gone++; seen.last = ~0u; }
    if (chk_observe) {
      auto it = live.find(cl);
      if (it == live.end()) bad("observe:delete-dead", "clause id " + std::to_string(cl) + " deleted but not live");
      for (int l : otrail) if (oreason[std::abs(l)] == cl && ov(l) > 0 && !adding)
        bad("observe:delete-reason", "clause " + show(it->second.lits) + " deleted while it is the reason of " + std::to_string(l));
    }
    live.erase(cl);
    crossing(SEAM_NOTIFY); return true;
  }
  // clauses that a purge made binary or unit; one that it shortens further or deletes at once does not count
  void countShort(unsigned cl, int by) { auto it = live.find(cl); size_t n = it == live.end() ? 0 : it->second.lits.size(); if (n == 1) seen.units += (u64) (i64) by; if (n == 2) seen.binaries += (u64) (i64) by; }
  bool shrink_clause(unsigned cl, unsigned lit) override {
    Harness h; note(4, cl, lit); SIM_COUNT("clause_shrunk"); if (seen.shrunk == cl) countShort(cl, -1); seen.shrunk = cl;
    int l = dlv(lit);
    auto it = live.find(cl);
    if (it == live.end()) { if (chk_observe) bad("observe:shrink-dead", "clause id " + std::to_string(cl) + " shrunk but not live"); }
    else {
      auto& v = it->second.lits; auto p = std::find(v.begin(), v.end(), l);
      if (p == v.end()) { if (chk_observe) bad("observe:shrink-missing", "literal " + std::to_string(l) + " removed from " + show(v) + " which does not contain it"); }
      else { v.erase(p); countShort(cl, 1); }
      if (chk_entail) {
        SIM_COUNT("entailment_checks");
        if (!F.entails(v)) bad("entail:shrunk", "clause strengthened to " + show(v) + " which is not a consequence of the given clauses");
      }
    }
    crossing(SEAM_NOTIFY); return true;
  }
  bool assign(unsigned lit, unsigned reason) override {
    Harness h; note(5, lit, reason); int l = dlv(lit); int v = std::abs(l);
    ensure(v);
    if (chk_observe) {
      if (v < 1 || v > vars_known) bad("observe:assign-unknown", "unknown variable " + std::to_string(v) + " assigned");
      if (oval[v]) bad("observe:assign-twice", "variable " + std::to_string(v) + " assigned while already assigned");
      if (reason < 0xFFFFFFFCu) {
        auto it = live.find(reason);
        if (it == live.end()) bad("observe:dead-reason", "literal " + std::to_string(l) + " implied by clause id " + std::to_string(reason) + " which is not live");
        bool has = false;
        for (int x : it->second.lits) { if (x == l) has = true; else if (ov(x) >= 0) bad("observe:reason-not-unit", "literal " + std::to_string(l) + " implied by " + show(it->second.lits) + " where " + std::to_string(x) + " is not false"); }
        if (!has) bad("observe:reason-lacks-literal", "literal " + std::to_string(l) + " implied by " + show(it->second.lits));
      }
    }
    auto sg = suggested.find(v);
    if (sg != suggested.end()) {
      bool decision = reason >= 0xFFFFFFFCu;
      if (decision && !user_step) { SIM_COUNT("suggestions_followed"); if ((l > 0) != sg->second) bad("suggest:ignored", "variable " + std::to_string(v) + " is decided for the first time, but not with the suggested polarity"); }
      suggested.erase(sg);
    }
    ever.insert(v);
    oval[v] = l > 0 ? 1 : -1; oreason[v] = reason; otrail.push_back(l); oprop[v] = 0;
    crossing(SEAM_NOTIFY); return true;
  }
  bool unassign(unsigned lit) override {
    Harness h; note(6, lit); int l = dlv(lit);
    if (chk_observe && ov(l) <= 0) bad("observe:unassign", "literal " + std::to_string(l) + " unassigned while not assigned");
    if ((size_t) std::abs(l) < oval.size()) oval[std::abs(l)] = 0;
    auto it = std::find(otrail.rbegin(), otrail.rend(), l);
    if (it != otrail.rend()) otrail.erase(std::next(it).base());
    crossing(SEAM_NOTIFY); return true;
  }
  bool propagate(unsigned lit) override {
    Harness h; note(7, lit); int l = dlv(lit);
    if (chk_observe && ov(l) <= 0) bad("observe:propagate", "literal " + std::to_string(l) + " propagated while not assigned");
    if ((size_t) std::abs(l) < oprop.size()) oprop[std::abs(l)] = 1;
    crossing(SEAM_NOTIFY); return true;
  }
  bool unpropagate(unsigned lit) override {
    Harness h; note(8, lit); int l = dlv(lit);
    if (chk_observe && ov(l) <= 0) bad("observe:unpropagate", "literal " + std::to_string(l) + " unpropagated while not assigned");
    if ((size_t) std::abs(l) < oprop.size()) oprop[std::abs(l)] = 0;
    crossing(SEAM_NOTIFY); return true;
  }
  bool update_level(unsigned lit, unsigned lvl) override {
    Harness h; note(9, lit, lvl); int l = dlv(lit);
    if (chk_observe && ov(l) <= 0) bad("observe:update-level", "level of " + std::to_string(l) + " changed while not assigned");
    if (chk_root && lvl == 0) checkRootLit(l, "observed at root level");
    crossing(SEAM_NOTIFY); return true;
  }
  bool update_reason(unsigned lit, unsigned cl) override {
    Harness h; note(10, lit, cl); int l = dlv(lit);
    if (chk_observe) {
      if (ov(l) <= 0) bad("observe:update-reason", "reason of " + std::to_string(l) + " changed while not assigned");
      if (cl < 0xFFFFFFFCu) {
        auto it = live.find(cl);
        if (it == live.end()) bad("observe:dead-reason", "reason of " + std::to_string(l) + " set to dead clause id " + std::to_string(cl));
        for (int x : it->second.lits) if (x != l && ov(x) >= 0) bad("observe:reason-not-unit", "reason of " + std::to_string(l) + " set to " + show(it->second.lits) + " where " + std::to_string(x) + " is not false");
      }
    }
    if ((size_t) std::abs(l) < oreason.size()) oreason[std::abs(l)] = cl;
    crossing(SEAM_NOTIFY); return true;
  }
  bool watch(unsigned cl, unsigned lit) override { Harness h; note(11, cl, lit); auto it = live.find(cl); if (it != live.end()) it->second.watch[dlv(lit)] = 0; return true; }
  bool unwatch(unsigned cl, unsigned lit) override { Harness h; note(12, cl, lit); auto it = live.find(cl); if (it != live.end()) it->second.watch.erase(dlv(lit)); return true; }
  bool block(unsigned cl, unsigned b, unsigned w) override {
    Harness h; note(13, cl, b); auto it = live.find(cl);
    if (it != live.end()) it->second.watch[dlv(w)] = dlv(b);
    return true;
  }
  bool lock(unsigned lit) override { Harness h; note(14, lit); olocked.insert(dlv(lit)); return true; }
  bool unlock(unsigned lit) override { Harness h; note(15, lit); olocked.erase(dlv(lit)); return true; }
  bool message(const std::string&, unsigned) override { return true; }

  bool check_invariants() override {
    Harness h; note(16);
    details();
    if (chk_inv && (++inv_count % inv_every) == 0) quiescent();
    crossing(SEAM_NOTIFY); return true;
  }
  // what an observer shows about a variable and a clause when the user points at them
  u64 detail_count = 0;
  void details() {
    if (!chk_observe || !sen || !sen->var_detail || !sen->clause_detail || live.empty() || oval.size() < 2 || live.size() > 400) return;
    if (++detail_count % 5) return;
    SIM_COUNT("details_shown");
    unsigned v = 1 + (unsigned) ((detail_count / 5 * 2654435761u) % (oval.size() - 1));
    std::string vd, cd; { Code c; vd = sen->var_detail(sentinel::Tvar(v)); }
    const char* val = oval[v] > 0 ? "value: true\n" : oval[v] < 0 ? "value: false\n" : "value: undef\n";
    if (vd.find(val) == std::string::npos) bad("detail:variable", "the details of variable " + std::to_string(v) + " do not say '" + std::string(val, strlen(val) - 1) + "': " + vd);
    auto it = live.begin(); std::advance(it, (long) ((detail_count / 5 * 40503u) % live.size()));
    { Code c; cd = sen->clause_detail(sentinel::Tclause(it->first)); }
    if (cd.find("size: " + std::to_string(it->second.lits.size()) + "\n") == std::string::npos || cd.find("deleted") != std::string::npos) bad("detail:clause", "the details of clause " + show(it->second.lits) + " are: " + cd);
    for (int l : it->second.lits) {
      bool has = false;
      for (const char* neg : {"-", "~", "¬"}) for (char end : {' ', '\n', ':'}) has |= cd.find("  " + std::string(l < 0 ? neg : "") + std::to_string(std::abs(l)) + end) != std::string::npos;
      if (!has) bad("detail:clause", "the details of clause " + show(it->second.lits) + " lack literal " + std::to_string(l) + ": " + cd);
    }
  }
  void quiescent() {
    SIM_COUNT("quiescent_checks");
    for (auto& [cid, c] : live) {
      int undef = 0, sat = 0, falsep = 0, un = 0;
      for (int l : c.lits) { int v = ov(l); if (v > 0) sat++; else if (v == 0) { undef++; un = l; } else if (oprop[std::abs(l)]) falsep++; }
      if (sat) continue;
      if (undef == 0 && falsep == (int) c.lits.size()) bad("inv:falsified", "clause " + show(c.lits) + " is falsified at a point where propagation is complete");
      if (undef == 1 && falsep == (int) c.lits.size() - 1) bad("inv:missed-implication", "clause " + show(c.lits) + " should have implied " + std::to_string(un) + " at a point where propagation is complete");
    }
    std::vector<char> seen(oval.size(), 0);
    for (int l : otrail) {
      unsigned r = oreason[std::abs(l)];
      if (r < 0xFFFFFFFCu) {
        auto it = live.find(r);
        if (it == live.end()) bad("inv:reason-dead", "reason of " + std::to_string(l) + " is not a live clause");
        for (int x : it->second.lits) {
          if (x == l) continue;
          if (ov(x) >= 0) bad("inv:reason", "reason " + show(it->second.lits) + " of " + std::to_string(l) + " no longer implies it");
          if (!seen[std::abs(x)]) bad("inv:topological", "reason " + show(it->second.lits) + " of " + std::to_string(l) + " uses a literal assigned later");
        }
      }
      seen[std::abs(l)] = 1;
    }
    if (chk_watch && sen) {
      for (auto& [cid, c] : live) {
        if (c.lits.size() < 3 || c.watch.size() != 2) continue;
        int a = c.watch.begin()->first, b = std::next(c.watch.begin())->first;
        for (int k = 0; k < 2; k++) {
          int w = k ? b : a, o = k ? a : b, bl = c.watch[w];
          if (!bl) continue;
          for (auto* inv : sen->invariants) {
            std::string err; SIM_COUNT("watch_checks");
            bool ok = inv->check(sentinel::Tlit(nl(w).value), sentinel::Tlit(nl(o).value), sentinel::Tlit(nl(bl).value), err);
            if (!ok) bad("inv:watch", "declared invariant '" + inv->name + "' broken for clause " + show(c.lits) + " watch " + std::to_string(w));
          }
        }
      }
    }
  }
  bool checkpoint() override {
    Harness h; note(17); SIM_COUNT("checkpoints");
    details();
    std::string cmd;
    while (!commands.empty()) {
      cmd = commands.front(); commands.pop_front();
      if (runCommand(cmd)) { crossing(SEAM_NOTIFY); return true; }
      if (napsat::get_status(s) == napsat::status::UNSAT) { crossing(SEAM_NOTIFY); return true; }
    }
    // with UNSAT under assumptions, the user leaves the prompt (or forgets)
    if (napsat::get_status(s) == napsat::status::UNSAT) { crossing(SEAM_NOTIFY); return true; }
    { Code c; (*sen->parser)(""); }
    crossing(SEAM_NOTIFY); return true;
  }
  struct UserStep { bool& f; bool old; UserStep(bool& x, bool v) : f(x), old(x) { f = v; } ~UserStep() { f = old; } };
  bool runCommand(const std::string& cmd) {
    UserStep us(user_step, !split(cmd).empty());
    SIM_COUNT("commands"); SIM_COUNT("fault_command");
    Words w = split(cmd);
    if (w.empty()) { Code c; return (*sen->parser)(""); }
    if (w[0] == "LEARN") {
      Clause cl; std::string text = "LEARN";
      for (size_t i = 1; i < w.size(); i++) { int l = atoi(w[i].c_str()); if (!l || std::abs(l) > maxvar) continue;
        cl.push_back(l); text += " " + std::to_string(l); }
      if (cl.empty() && w.size() > 1) return false;
      F.add(cl); current_input = cl; adding = true;
      u64 l0 = learned; bool r; { Code c; r = (*sen->parser)(text); } user_learned += learned - l0;
      adding = false; for (int l : cl) vars_known = std::max(vars_known, std::abs(l));
      if (!r) bad("command:refused", "the command '" + text + "' was refused");
      return r;
    }
    if (w[0] == "DELETE") {   // delete a clause that the solver learned: it follows from the others, so no answer may change
      std::vector<unsigned> ids; for (auto& [id, c] : live) if (!c.external) ids.push_back(id);
      if (ids.empty()) return false;
      unsigned id = ids[(size_t) atoi(w.size() > 1 ? w[1].c_str() : "0") % ids.size()];
      bool reason = false; for (int l : otrail) reason |= oreason[std::abs(l)] == id;
      SIM_COUNT("command_delete");
      bool r; { Code c; r = (*sen->parser)("DELETE_CLAUSE " + std::to_string(id)); }
      if (r && reason) bad("command:delete-reason", "a clause that is the reason of a literal was deleted on command");
      if (r == (live.count(id) > 0)) bad("command:delete", "deleting clause " + std::to_string(id) + " reported " + std::to_string(r));
      return r;
    }
    if (w[0] == "RAW") {   // a command that means nothing: refused without an effect
      std::string text = join(w, 1); SIM_COUNT("command_invalid");
      std::vector<napsat::Tlit> before, after; napsat::status sb, sa; unsigned vb = vcount(); size_t lb = live.size();
      { Code c; sb = napsat::get_status(s); } before = trailCopy();
      bool r = false;
      try { Code c; r = (*sen->parser)(text); }
      catch (const std::bad_alloc&) { in_code = false; throw; }
      catch (const std::exception& e) { in_code = false; bad("command:exception", "the command '" + text + "' threw " + e.what()); }
      { Code c; sa = napsat::get_status(s); } after = trailCopy();
      if (r) bad("command:accepted", "the invalid command '" + text + "' was accepted");
      if (sa != sb || before != after || vb != vcount() || lb != live.size()) bad("command:effect", "the invalid command '" + text + "' changed the state of the solver");
      return false;
    }
    if (w[0] == "PRINT" && w.size() == 2) {
      std::vector<napsat::Tlit> before = trailCopy(), after; napsat::status sb, sa; std::string text; bool r; u64 oom = alloc_ctl.failed;
      { Code c; sb = napsat::get_status(s); }
      { CaptureCout cap; { Code c; r = (*sen->parser)(cmd); } text = cap.ss.str(); }
      { Code c; sa = napsat::get_status(s); } after = trailCopy();
      if (sa != sb || before != after) bad("command:effect", "the command '" + cmd + "' changed the state of the solver");
      if (alloc_ctl.failed == oom) printed(w[1], text);   // a stream swallows the failure and prints less
      return r;
    }
    if (w[0] == "DECIDE") {
      napsat::status sb; std::vector<napsat::Tlit> before = trailCopy(), after; bool r; int l = w.size() == 2 ? atoi(w[1].c_str()) : 0;
      if (std::abs(l) > (int) vcount()) return false;
      { Code c; sb = napsat::get_status(s); }
      bool valid = sb == napsat::status::UNKNOWN && w.size() <= 2;
      for (auto& t : before) if (l && std::abs(dl(t)) == std::abs(l)) valid = false;
      { Code c; r = (*sen->parser)(cmd); } after = trailCopy();
      if (!valid) {
        napsat::status sa; { Code c; sa = napsat::get_status(s); }
        if (r) bad("command:accepted", "the invalid command '" + cmd + "' was accepted");
        if (before != after || sa != sb) bad("command:effect", "the invalid command '" + cmd + "' changed the state of the solver");
      } else if (l) {
        if (!r) bad("command:refused", "the command '" + cmd + "' was refused");
        bool is; if (after.empty() || dl(after.back()) != l || after.size() != before.size() + 1) bad("command:decide", "the command '" + cmd + "' did not assign the literal");
        { Code c; is = napsat::is_decided(s, nl(l)); } if (!is) bad("command:decide", "the literal of the command '" + cmd + "' is not a decision");
      }
      return r;
    }
    if (w[0] == "ASSUME" && w.size() == 2) {
      int l = atoi(w[1].c_str()); if (!gb || !l || std::abs(l) > (int) vcount()) return false;
      bool r; { Code c; r = (*sen->parser)(cmd); }
      if (r) assumed.insert(l);
      return r;
    }
    if (w[0] == "FORGET" && w.size() == 2) {
      int l = atoi(w[1].c_str()); if (!gb || !l || std::abs(l) > (int) vcount()) return false;
      bool r; { Code c; r = (*sen->parser)(cmd); }
      if (r) assumed.erase(l);
      return r;
    }
    Code c; return (*sen->parser)(cmd);
  }

  // what a PRINT command shows is the state that the API and the notifications give
  static std::string plain(const std::string& t) {   // without escape sequences and symbols
    std::string o; for (size_t i = 0; i < t.size(); i++) {
      if (t[i] == '\033') { while (i < t.size() && !isalpha((unsigned char) t[i])) i++; continue; }
      if ((unsigned char) t[i] >= 0x80) continue;
      o += t[i] == '~' ? '-' : t[i];
    }
    return o;
  }
  static bool integer(const std::string& t) { size_t i = !t.empty() && t[0] == '-'; if (i == t.size()) return false; for (; i < t.size(); i++) if (!isdigit((unsigned char) t[i])) return false; return true; }
  void printed(const std::string& what, const std::string& text) {
    std::istringstream in(text); std::string line; std::vector<int> t; for (auto l : trailCopy()) t.push_back(dl(l));
    if (what == "trail") {
      std::vector<int> got; SIM_COUNT("print_trail");
      while (std::getline(in, line)) {
        size_t at = line.find(" --> "); if (at == std::string::npos) continue;
        Words h = split(plain(line.substr(0, at))), q = split(plain(line.substr(at + 5)));
        if (h.empty() || !integer(h.back())) continue;
        int l = atoi(h.back().c_str()); got.push_back(l);
        // "= undef" for a decision, or the clause: its id, its literals
        unsigned r = std::abs(l) < (int) oreason.size() ? oreason[std::abs(l)] : 0xFFFFFFFFu; bool isd = false;
        for (size_t i = 0; i < q.size() && i < 2; i++) isd |= q[i] == "undef";
        if (isd != (r >= 0xFFFFFFFCu)) bad("print:reason", "PRINT trail shows " + std::to_string(l) + (isd ? " as a decision, but it was implied" : " with a reason, but it is a decision"));
      }
      if (got != t) bad("print:trail", "PRINT trail shows " + show(got) + " where the trail is " + show(t));
    } else if (what == "trail-simple") {
      std::vector<int> got; SIM_COUNT("print_trail");
      while (std::getline(in, line)) { size_t at = line.find(": "); if (at == std::string::npos) continue; for (auto& x : split(plain(line.substr(at + 2)))) if (integer(x)) got.push_back(atoi(x.c_str())); }
      std::vector<int> e = t; std::sort(e.begin(), e.end()); std::sort(got.begin(), got.end());
      if (got != e) bad("print:trail", "PRINT trail-simple shows " + show(got) + " where the assignment is " + show(e));
    } else if (what == "clause-set") {
      std::map<unsigned, std::vector<int>> got; unsigned id = 0; bool in_clause = false; SIM_COUNT("print_clauses");
      for (auto& x : split(plain(text))) {
        if (x.back() == ':') { size_t d = 0; while (d < x.size() && isalpha((unsigned char) x[d])) d++; id = (unsigned) strtoul(x.c_str() + d, nullptr, 10); if (got.count(id)) bad("print:clauses", "PRINT clause-set shows clause " + std::to_string(id) + " twice"); got[id]; in_clause = true; }
        else if (in_clause && integer(x)) got[id].push_back(atoi(x.c_str()));
      }
      for (auto& [i, c] : live) {
        std::vector<int> a = c.lits; std::sort(a.begin(), a.end());
        if (!got.count(i)) bad("print:clauses", "PRINT clause-set does not show clause " + std::to_string(i) + ": " + show(a));
        std::sort(got[i].begin(), got[i].end()); if (got[i] != a) bad("print:clauses", "PRINT clause-set shows clause " + std::to_string(i) + " as " + show(got[i]) + " where it is " + show(a));
      }
      for (auto& [i, c] : got) if (!live.count(i) && c.size()) bad("print:clauses", "PRINT clause-set shows clause " + std::to_string(i) + ", which was deleted");
    }
  }

  // ------------------------------------------------------------------ helpers
  std::vector<napsat::Tlit> trailCopy() { const std::vector<napsat::Tlit>* t; { Code c; t = &napsat::get_partial_assignment(s); } return *t; }
  unsigned vcount() { Code c; unsigned n = napsat::variables_count(s); return n ? n - 1 : 0; }
  Clause assumptions() const { return Clause(assumed.begin(), assumed.end()); }
  void checkRootLit(int l, const char* where) {
    SIM_COUNT("root_checked");
    if (!F.entails({l})) bad("root:not-entailed", "literal " + std::to_string(l) + " " + where + " but does not follow from the clauses");
  }

  void create() {
    if (s) { Code c; napsat::delete_solver(s); s = nullptr; }
    std::vector<std::string> toks(optwords.begin(), optwords.end());
    if (account) { Code c; opt.reset(new napsat::options(toks)); } else opt.reset(new napsat::options(toks));
    gb = opt->graph_backtracking; iuv = opt->ignore_unused_variables; interactive = opt->interactive;
    proof = opt->build_proof; deps = opt->record_dependencies;
    attached = interactive || opt->observing || opt->check_invariants || opt->print_stats;
    oval.clear(); otrail.clear(); oreason.clear(); oprop.clear(); live.clear(); olocked.clear(); suggested.clear(); ever.clear(); assumed.clear(); handle2input.clear();
    vars_known = 0; F.init(maxvar); learned = user_learned = 0;
    sen = nullptr;
    seen = {}; solve_hi = solve_lo = 0; stat_before.clear(); born0 = vclock.elapsed_ns;
    { Code c; s = napsat::create_solver((unsigned) initvars, 0, *opt); }
    born1 = vclock.elapsed_ns;
    if (vcount() != (unsigned) initvars) bad("vars:initial", "a solver created with " + std::to_string(initvars) + " variables has " + std::to_string(vcount()));
    if (gb) { if (opt->lazy_chunk_merging) SIM_COUNT("strategy_gb_lcm"); else if (opt->eager_chunk_merging) SIM_COUNT("strategy_gb_ecm"); else SIM_COUNT("strategy_gb"); }
    else if (opt->lazy_strong_chronological_backtracking) SIM_COUNT("strategy_lscb");
    else if (opt->chronological_backtracking) SIM_COUNT("strategy_cb");
    else SIM_COUNT("strategy_ncb");
    fingerprint(hash_str(join(optwords)));
  }
  int initvars = 0;

  u64 partial_checks = 0;
  u64 founded_checks = 0;
  // after a propagation that ended without a verdict, no clause is violated and none forces a literal that has no value
  void complete(const char* who) {
    if (!chk_root || maxvar > 200) return;
    SIM_COUNT("propagation_checks");
    std::vector<signed char> val((size_t) maxvar + 1, 0);
    for (auto& t : trailCopy()) { int l = dl(t); if (std::abs(l) <= maxvar) val[(size_t) std::abs(l)] = l > 0 ? 1 : -1; }
    for (auto& c : F.clauses) {
      bool sat = false; std::set<int> open;
      for (int l : c) { int v = val[(size_t) std::abs(l)]; if (!v) open.insert(l); else if ((l > 0) == (v > 0)) sat = true; }
      for (int l : open) if (open.count(-l)) sat = true;
      if (sat) continue;
      if (open.empty()) bad("propagate:violated", std::string(who) + " ended without a verdict but the clause " + show(c) + " is violated");
      if (open.size() == 1) bad("propagate:missed", std::string(who) + " ended without a verdict but the clause " + show(c) + " forces " + std::to_string(*open.begin()));
    }
  }
  void checkPartial() {
    if (!s) return;
    if (maxvar > 1000 && ++partial_checks % 12) return;
    SIM_COUNT("op_trail_check");
    const std::vector<napsat::Tlit>* t; { Code c; t = &napsat::get_partial_assignment(s); }
    unsigned n = vcount(); std::vector<char> vars((size_t) n + 1, 0);
    for (auto l : *t) {
      if (l.var().value == 0 || l.var().value > n) bad("trail:range", "partial assignment contains a literal over unknown variable " + std::to_string(l.var().value));
      if (vars[l.var().value]++) bad("trail:duplicate", "variable " + std::to_string(l.var().value) + " appears twice in the partial assignment");
      napsat::Tval v; { Code c; v = napsat::get_variable_value(s, l.var()); }
      if (v != (l.pol() ? napsat::Tval::TRUE : napsat::Tval::FALSE)) bad("trail:value", "literal " + std::to_string(dl(l)) + " is in the partial assignment but its variable's value disagrees");
      bool root; { Code c; root = napsat::is_root_level(s, l.var()); }
      bool dec; { Code c; dec = napsat::is_decided(s, l); }
      if (root && dec) bad("trail:root-decision", "literal " + std::to_string(dl(l)) + " reported both decided and at root level");
      if (root && chk_root) checkRootLit(dl(l), "reported at root level");
      rec(l.value * 4 + root * 2 + dec);
    }
    for (unsigned v = 1; v <= n; v++) if (!vars[v]) {
      napsat::Tval x; { Code c; x = napsat::get_variable_value(s, napsat::Tvar(v)); }
      if (x != napsat::Tval::UNDEF) bad("trail:missing", "variable " + std::to_string(v) + " has a value but is not in the partial assignment");
    }
    if (chk_root && maxvar <= 20 && ++founded_checks % 3 == 0) {   // what is not decided follows from the clauses and the decisions
      Clause dec, rest; for (auto l : *t) { bool d; { Code c; d = napsat::is_decided(s, l); } (d ? dec : rest).push_back(dl(l)); }
      SIM_COUNT("founded_checks");
      for (int l : rest) { dec.push_back(-l); if (F.sat(dec)) { dec.pop_back(); bad("trail:unfounded", "literal " + std::to_string(l) + " has a value but follows neither from the clauses nor from the decisions " + show(dec)); } dec.pop_back(); }
    }
    if (chk_observe && attached) {
      std::set<int> a(otrail.begin(), otrail.end()), b;
      for (auto l : *t) b.insert(dl(l));
      if (a != b) bad("observe:diverged", "the observer's assignment differs from the solver's partial assignment");
    }
  }
  std::vector<char> currentModel() {
    std::vector<char> m((size_t) std::max(maxvar, (int) vcount()) + 1, 2);
    const std::vector<napsat::Tlit>* t; { Code c; t = &napsat::get_partial_assignment(s); }
    for (auto l : *t) if (l.var().value < m.size()) m[l.var().value] = l.pol();
    return m;
  }
  void checkVerdict(napsat::status st, bool may_be_unknown, const char* what) {
    rec((u64) st + 7000);
    if (st == napsat::status::SAT) {
      SIM_COUNT("answer_sat"); out->nontrivial = 1;
      auto m = currentModel(); int badc = -1;
      if (!F.satisfied_by(m, &badc)) bad("sat:not-a-model", std::string(what) + " answered SAT but clause " + show(F.clauses[badc]) + " is not satisfied by the assignment");
      for (int l : assumed) if (m[std::abs(l)] != (l > 0)) bad("sat:assumption", std::string(what) + " answered SAT but assumption " + std::to_string(l) + " does not hold");
      if (!iuv) for (unsigned v = 1; v <= vcount(); v++) if (m[v] == 2) bad("sat:partial", std::string(what) + " answered SAT but variable " + std::to_string(v) + " has no value");
    } else if (st == napsat::status::UNSAT) {
      SIM_COUNT("answer_unsat"); out->nontrivial = 1;
      if (F.sat(assumptions())) bad("unsat:satisfiable", std::string(what) + " answered UNSAT but the clauses" + (assumed.empty() ? "" : " and assumptions " + show(assumptions())) + " are satisfiable");
    } else if (st == napsat::status::UNKNOWN || st == napsat::status::INTERRUPTED || st == napsat::status::TIMEOUT) {
      SIM_COUNT("answer_unknown");
      if (!may_be_unknown) bad("verdict:unknown", std::string(what) + " returned " + napsat::status_to_string(st) + " although no limit was set");
      SIM_COUNT("limit_interrupted"); out->nontrivial = 1;
    } else bad("verdict:error", std::string(what) + " returned " + napsat::status_to_string(st));
    napsat::status g; { Code c; g = napsat::get_status(s); }
    if (g != st) bad("verdict:status-mismatch", "get_status() disagrees with the value returned by " + std::string(what));
    fingerprint((u64) st * 31 + std::min<u64>(learned, 64));
    checkPartial();
  }
  // run a solve call: the verdict is checked, the limits are respected
  template <class Fn> napsat::status timedSolve(Fn f, bool may_be_unknown, double limit, const char* what) {
    bool open = napsat::get_status(s) == napsat::status::UNKNOWN;
    u64 l0 = learned - user_learned; i64 t0 = vclock.elapsed_ns; u64 stalls0 = vclock.stalled_ns; u64 steps0 = my_steps();
    napsat::status r = timed(f, open);
    if (open && attached && limit >= 0 && !gb && learned - user_learned - l0 > (u64) limit + 1)
      bad("limit:overshoot", std::string(what) + " learned " + std::to_string(learned - user_learned - l0) + " clauses although its limit is " + std::to_string((u64) limit) + " conflicts");
    if (open && opt->timeout >= 0 && !gb && clients.size() == 1) {
      i64 el = vclock.elapsed_ns - t0 - (i64) (vclock.stalled_ns - stalls0), allow = (i64) (opt->timeout * 1e6) + 4 * vclock.tick + 400000 * Clock::step_ns;
      if (el > allow) bad("limit:late", std::string(what) + " returned " + std::to_string(el) + " ns of simulated time after the call although its timeout is " + std::to_string((i64) (opt->timeout * 1e6)) + " ns");
    }
    (void) steps0;
    checkVerdict(r, may_be_unknown, what);
    return r;
  }
  u64 my_steps() { return sched && sched->cur >= 0 ? sched->crossings[(size_t) sched->cur] : 0; }
  Clause lits(const Words& w, size_t from) {
    Clause c; for (size_t i = from; i < w.size(); i++) { int l = atoi(w[i].c_str()); if (l && std::abs(l) <= maxvar) c.push_back(l); }
    return c;
  }

  void addClause(Clause c, bool piecewise) {
    if (piecewise) { Clause d; for (int l : c) if (std::find(d.begin(), d.end(), l) == d.end() && std::find(d.begin(), d.end(), -l) == d.end()) d.push_back(l); c = d; if (c.empty()) return; }
    F.add(c); current_input = c; adding = true;
    napsat::Tclause h;
    if (piecewise) {
      { Code k; napsat::start_new_clause(s); }
      for (int l : c) { Code k; napsat::push_literal(s, nl(l)); }
      Code k; h = napsat::finalize_clause(s);
    } else {
      std::vector<napsat::Tlit> v; for (int l : c) v.push_back(nl(l));
      if (v.empty()) v.reserve(1);
      Code k; h = napsat::add_clause(s, v.data(), (unsigned) c.size());
    }
    adding = false;
    rec(h.value);
    if (h.value < 0xFFFFFFFCu) handle2input[h.value] = c;
    for (int l : c) vars_known = std::max(vars_known, std::abs(l));
    for (int l : c) { napsat::Tval v; { Code k; v = napsat::get_variable_value(s, napsat::Tvar((unsigned) std::abs(l))); } (void) v; }
    checkPartial();
  }

  bool step(const Words& w) {   // one operation; false = unknown
    const std::string& o = w[0];
    napsat::status st = napsat::get_status(s);
    auto unknown = [&]() { return st == napsat::status::UNKNOWN; };
    if (o == "add") { SIM_COUNT("op_add"); addClause(lits(w, 1), false); }
    else if (o == "addp") { SIM_COUNT("op_addp"); addClause(lits(w, 1), true); }
    else if (o == "newvar") {
      if ((int) vcount() >= maxvar) return true;
      SIM_COUNT("op_newvar");
      unsigned before = vcount(); napsat::Tvar v; { Code c; v = napsat::new_variable(s); }
      if (v.value != before + 1) bad("vars:new", "new_variable returned " + std::to_string(v.value) + " with " + std::to_string(before) + " existing variables");
      if (vcount() != before + 1) bad("vars:count", "new_variable left " + std::to_string(vcount()) + " variables where there were " + std::to_string(before));
      rec(v.value); checkPartial();
    }
    else if (o == "solve") {
      SIM_COUNT("op_solve");
      timedSolve([&] { return napsat::solve(s); }, opt->conflict_limit >= 0 || opt->timeout >= 0, opt->conflict_limit, "solve()");
    }
    else if (o == "until") {
      // interrupted searches resume: repeated calls end with a verdict
      if (opt->conflict_limit < 0 && opt->timeout < 0) { SIM_COUNT("op_solve"); timedSolve([&] { return napsat::solve(s); }, false, -1, "solve()"); return true; }
      napsat::status r = napsat::status::UNKNOWN; u64 lim = 1;
      for (int i = 0; i < 30000 && r == napsat::status::UNKNOWN; i++, lim = std::min<u64>(lim * 2, 1u << 30)) {
        SIM_COUNT("op_limit");
        if (opt->conflict_limit < 0) r = timedSolve([&] { return napsat::solve(s); }, true, -1, "solve()");
        else r = timedSolve([&] { return napsat::solve_limited(s, (unsigned) lim); }, true, (double) lim, "solve_limited()");
        if (dirty_limit) return true;
      }
      if (r == napsat::status::UNKNOWN) bad("limit:no-progress", "30000 interrupted searches in a row ended without a verdict");
    }
    else if (o == "limit" && w.size() > 1) {
      SIM_COUNT("op_limit"); SIM_COUNT("fault_conflict_limit");
      unsigned lim = (unsigned) atoi(w[1].c_str());
      timedSolve([&] { return napsat::solve_limited(s, lim); }, true, lim, "solve_limited()");
    }
    else if (o == "prop") {
      if (!unknown()) return true;
      SIM_COUNT("op_propagate");
      bool r; { Code c; r = napsat::propagate(s); }
      rec(r);
      napsat::status g = napsat::get_status(s);
      if (g == napsat::status::UNSAT || g == napsat::status::SAT) { if (r) bad("propagate:result", "propagate() invites a decision although the status is final"); checkVerdict(g, true, "propagate()"); }
      else { checkPartial(); if (r) complete("propagate()"); }
    }
    else if (o == "decide" && w.size() > 1) {
      if (!unknown()) return true;
      bool more; { Code c; more = napsat::propagate(s); }
      if (!more) { napsat::status g = napsat::get_status(s); if (g == napsat::status::UNSAT || g == napsat::status::SAT) checkVerdict(g, true, "propagate()"); return true; }
      int l = atoi(w[1].c_str());
      complete("propagate()");
      if (l == 0) {
        SIM_COUNT("op_decide"); std::vector<napsat::Tlit> before = trailCopy(), after; bool r, dec = true; { Code c; r = napsat::decide(s); } rec(r); after = trailCopy();
        napsat::status g = napsat::get_status(s);
        if (r != (g == napsat::status::UNKNOWN)) bad("decide:result", "decide() returned " + std::to_string(r) + " but the status is " + std::to_string((int) g));
        if (after.size() != before.size() + r || !std::equal(before.begin(), before.end(), after.begin())) bad("decide:trail", "decide() did not add exactly one literal");
        if (r) { Code c; dec = napsat::is_decided(s, after.back()); }
        if (!dec) bad("decide:reason", "decide() assigned a literal that is no decision");
        if (g == napsat::status::SAT) { checkVerdict(g, true, "decide()"); return true; }
        checkPartial(); return true;
      }
      if (std::abs(l) > (int) vcount()) return true;
      napsat::Tval v; bool dec; { Code c; v = napsat::get_variable_value(s, napsat::Tvar((unsigned) std::abs(l))); }
      if (v != napsat::Tval::UNDEF) return true;
      SIM_COUNT("op_decide");
      { UserStep us(user_step, true); Code c; napsat::decide(s, nl(l)); }
      { Code c; dec = napsat::is_decided(s, nl(l)); }
      if (!dec) bad("decide:reason", "decide(" + std::to_string(l) + ") did not make the literal a decision");
      { Code c; v = napsat::get_variable_value(s, napsat::Tvar((unsigned) std::abs(l))); }
      if (v != (l > 0 ? napsat::Tval::TRUE : napsat::Tval::FALSE)) bad("decide:value", "decide(" + std::to_string(l) + ") did not make the literal true");
      checkPartial();
    }
    else if (o == "assume" && w.size() > 1) {
      int l = atoi(w[1].c_str()); if (!gb || !l || std::abs(l) > (int) vcount()) return true;
      if (assumeneedsunknown && st == napsat::status::UNSAT) return true;
      SIM_COUNT("op_assume");
      bool r; { UserStep us(user_step, true); Code c; r = napsat::add_assumption(s, nl(l)); }
      rec(r);
      if (r) {
        SIM_COUNT("assume_ok"); assumed.insert(l);
        napsat::Tval v; { Code c; v = napsat::get_variable_value(s, napsat::Tvar((unsigned) std::abs(l))); }
        if (v != (l > 0 ? napsat::Tval::TRUE : napsat::Tval::FALSE)) bad("assume:value", "accepted assumption " + std::to_string(l) + " is not true afterwards");
      } else {
        SIM_COUNT("assume_refused");
        Clause a = assumptions(); a.push_back(l);
        if (F.sat(a)) bad("assume:refused", "assumption " + std::to_string(l) + " refused although it is compatible with the clauses and assumptions " + show(assumptions()));
      }
      checkPartial();
    }
    else if (o == "assumev") {
      if (!gb) return true;
      std::vector<napsat::Tlit> ls; Clause a;
      for (size_t i = 1; i < w.size(); i++) { int l = atoi(w[i].c_str()); if (!l || std::abs(l) > (int) vcount()) continue; ls.push_back(nl(l)); a.push_back(l); }
      if (ls.empty()) return true;
      SIM_COUNT("op_assume_vector");
      bool r; { UserStep us(user_step, true); Code c; r = napsat::add_assumption(s, ls); }
      rec(r);
      if (r) {
        SIM_COUNT("assume_ok"); for (int l : a) assumed.insert(l);
        for (int l : a) { napsat::Tval v; { Code c; v = napsat::get_variable_value(s, napsat::Tvar((unsigned) std::abs(l))); }
          if (v != (l > 0 ? napsat::Tval::TRUE : napsat::Tval::FALSE)) bad("assume:value", "accepted assumption " + std::to_string(l) + " is not true afterwards"); }
      } else {   // which of them were accepted is not reported
        SIM_COUNT("assume_refused");
        for (int l : assumptions()) a.push_back(l);
        if (F.sat(a)) bad("assume:refused", "assumptions " + show(a) + " refused although they are compatible with the clauses");
        { Code c; napsat::forget_assumption(s); } assumed.clear();
      }
      checkPartial();
    }
    else if (o == "forget") {
      if (!gb) return true;
      SIM_COUNT("op_forget");
      if (w.size() > 1) {
        int l = atoi(w[1].c_str()); if (!l || std::abs(l) > (int) vcount()) return true;
        bool r; { Code c; r = napsat::forget_assumption(s, nl(l)); }
        rec(r);
        if (r && !assumed.count(l)) bad("forget:phantom", "forget_assumption(" + std::to_string(l) + ") succeeded although it was not assumed");
        if (!r && assumed.count(l)) bad("forget:lost", "forget_assumption(" + std::to_string(l) + ") failed although it was assumed");
        if (r) assumed.erase(l);
      } else { { Code c; napsat::forget_assumption(s); } assumed.clear(); }
      checkPartial();
    }
    else if (o == "sync") { SIM_COUNT("op_sync"); { Code c; napsat::synchronize(s); } checkPartial(); }
    else if (o == "suggest" && w.size() > 2) {
      int l = atoi(w[1].c_str()); if (!l || std::abs(l) > (int) vcount()) return true;
      SIM_COUNT("op_suggest"); { Code c; napsat::suggest_polarity(s, nl(l), atoi(w[2].c_str()) != 0); }
      if (chk_root && attached && !ever.count(std::abs(l))) suggested[std::abs(l)] = atoi(w[2].c_str()) != 0;
    }
    else if (o == "weight" && w.size() > 1) {
      SIM_COUNT("op_weight"); u64 seed = strtoull(w[1].c_str(), nullptr, 10);
      Code c; napsat::set_weight_function(s, [seed](napsat::Tlit l) { Rng r(seed * 1315423911u + l.var().value); return 1.0 + (double) r.below(16); });
    }
    else if (o == "block") {
      if (st != napsat::status::SAT) return true;
      SIM_COUNT("op_block"); SIM_COUNT("models_enumerated");
      const std::vector<napsat::Tlit>* t; { Code c; t = &napsat::get_partial_assignment(s); }
      Clause c; for (auto l : *t) c.push_back(-dl(l));
      addClause(c, false);
    }
    else if (o == "enum") { enumerate(); }
    else if (o == "parse" && w.size() > 1) { return parse(atoi(w[1].c_str())); }
    else if (o == "core") {
      if (!gb || st != napsat::status::UNSAT) return true;
      SIM_COUNT("op_core"); SIM_COUNT("core_checked");
      std::vector<napsat::Tlit> core; { Code c; core = napsat::unsat_core(s); }
      Clause a;
      for (auto l : core) {
        int x = dl(l);
        if (!assumed.count(x)) bad("core:foreign", "unsat core contains " + std::to_string(x) + " which is not an assumption");
        a.push_back(x); rec(l.value);
      }
      if (F.sat(a)) bad("core:satisfiable", "the clauses are satisfiable under the reported failed assumptions " + show(a));
    }
    else if (o == "ccore") {
      if (!gb || !deps || st != napsat::status::UNSAT) return true;
      SIM_COUNT("op_ccore"); SIM_COUNT("core_checked");
      std::vector<napsat::Tclause> core; { Code c; core = napsat::clause_unsat_core(s); }
      Formula G; G.init(maxvar);
      for (auto h : core) {
        auto it = handle2input.find(h.value);
        if (it == handle2input.end()) bad("ccore:foreign", "clause core contains handle " + std::to_string(h.value) + " which is not an input clause");
        G.add(it->second);
      }
      if (G.sat(assumptions())) bad("ccore:satisfiable", "the clauses named by the clause core are satisfiable under the assumptions " + show(assumptions()));
    }
    else if (o == "proof") {
      if (!proof || st != napsat::status::UNSAT || !assumed.empty()) return true;
      SIM_COUNT("op_proof"); checkProof();
    }
    else if (o == "stats") { SIM_COUNT("op_stats"); i64 t0 = vclock.elapsed_ns; std::string text; { CaptureCout cap; { Code c; napsat::print_statistics(s); } text = cap.ss.str(); } if (!alloc_ctl.failed) judgeStatistics(text, t0); }
    else if (o == "recreate") { SIM_COUNT("op_recreate"); create(); }
    else if (o == "cmd") { commands.push_back(join(w, 1)); }
    else return false;
    return true;
  }
  bool assumeneedsunknown = false, account = false;

  // more variables than planned for
  void grow(int n) { if (n <= maxvar) return; std::vector<Clause> cs = F.clauses; maxvar = n; F.init(n); for (auto& c : cs) F.add(c); }
  std::map<unsigned, std::string> seen_alias;
  bool alias(unsigned v, const std::string& a) override { Harness h; note(18, v); mix(a); seen_alias[v] = a; crossing(SEAM_NOTIFY); return true; }

  // Reading a file: the clause set is exactly the content of the file, or the file is refused.
  bool parse(int k) {
    const Words* file = nullptr; for (auto& h : *heads) if (h[0] == "file" && h.size() > 2 && atoi(h[1].c_str()) == k) file = &h;
    if (!file) return true;
    SIM_COUNT("op_parse");
    std::string fmt = (*file)[2], path = disk_path(k, fmt), content;
    DiskFile& f = disk[path];
    if (fmt == "xz") SIM_COUNT("io_xz"); else if (fmt == "bz2") SIM_COUNT("io_bz2"); else SIM_COUNT("io_plain");
    bool intact = decompress(fmt == "xz" || fmt == "bz2" ? fmt : "plain", f.bytes, content);
    DimacsRef ref = dimacs_read(content, attached);
    u64 fired = f.faults_fired; std::vector<Clause> before = F.clauses; int maxvar_before = maxvar; unsigned vars_before = vcount();
    bool sane = ref.biggest <= 20000;
    if (!sane) may_exhaust = true;
    if (intact && sane) {
      grow((int) ref.vars);
      for (auto& c : ref.clauses) F.add(c);
      if (maxvar > 14) { std::set<int> u; for (auto& c : F.clauses) for (int l : c) u.insert(std::abs(l)); (void) u; }
    }
    seen_alias.clear();
    bool ok = false, threw = false;
    u64 oom = alloc_ctl.failed;
    try { Code c; ok = napsat::parse_dimacs(s, path.c_str()); }
    catch (const std::bad_alloc&) { in_code = false; if (alloc_ctl.failed != oom) { F.clauses.resize(before.size()); throw; } threw = true; if (sane && intact) bad("parse:bad_alloc", "reading an ordinary file ran out of memory"); }
    catch (const std::exception& e) { in_code = false; threw = true; SIM_COUNT("io_parse_exception"); if (f.faults_fired == fired) bad("parse:exception", std::string("reading a file without read errors threw ") + e.what()); }
    rec(ok * 2 + threw); out->nontrivial = 1;
    may_exhaust = false;
    bool read_error = f.faults_fired != fired;
    bool already_unsat = intact && sane && !F.sat();
    if (ok) {
      SIM_COUNT("io_parse_ok");
      if (!intact) bad("parse:damaged-accepted", "the damaged compressed file " + path + " was accepted");
      if (!ref.ok && sane && !already_unsat) bad("parse:malformed-accepted", "the malformed file " + path + " was accepted");
      if (read_error && !interruptible(f)) bad("parse:read-error-ignored", "reading " + path + " failed but it was accepted");
      if (!sane) { create(); maxvar = maxvar_before; F.init(maxvar); for (auto& c : before) addClause(c, false); return true; }
      napsat::status st; { Code c; st = napsat::get_status(s); }
      if (st == napsat::status::UNSAT && !already_unsat) bad("unsat:satisfiable", "UNSAT after reading " + path + " although the clauses are satisfiable");
      if (st == napsat::status::ERROR) bad("verdict:error", "status is ERROR after " + path + " was accepted");
      if (st != napsat::status::UNSAT) {
        if (vcount() < ref.vars) bad("parse:variables", "after reading " + path + " there are " + std::to_string(vcount()) + " variables, the file has " + std::to_string(ref.vars));
        if (vcount() > std::max(vars_before, ref.vars)) bad("parse:variables", "after reading " + path + " there are " + std::to_string(vcount()) + " variables, the file names " + std::to_string(ref.vars));
        if (attached && seen_alias != ref.alias) bad("parse:alias", "the aliases the observer received differ from those in " + path);
      }
      for (auto& c : ref.clauses) for (int l : c) vars_known = std::max(vars_known, std::abs(l));
      checkPartial();
      return true;
    }
    SIM_COUNT("io_parse_refused");
    if (!threw && sane && !read_error && alloc_ctl.failed == oom && intact && ref.ok) bad("parse:refused", "the intact file " + path + " was refused");
    // refused: the instance is given up; a new one reads the intact file
    F.clauses = before; maxvar = maxvar_before;
    create(); F.init(maxvar);
    for (auto& c : before) addClause(c, false);
    if (f.bytes == f.pristine && f.read_faults.empty() && f.open_faults.empty()) return true;   // nothing to repair
    disk_heal(path);
    return parse(k);
  }
  bool interruptible(DiskFile& f) { for (auto& [n, x] : f.read_faults) if (x.kind == "eio" && n <= f.reads) return false; for (auto& [n, e] : f.open_faults) if (n <= f.opens) return false; return true; }
  const std::vector<Words>* heads = nullptr;

  void enumerate() {
    // all models: must visit every model over the variables exactly once
    if (!F.tt) return;
    std::set<std::vector<char>> seen;
    u64 expect = F.count_models(), guard = expect + 5;
    if (expect > 400) return;
    unsigned nv = vcount();
    grow((int) nv); if (!F.tt || (expect = F.count_models()) > 400) return;
    guard = expect + 5;
    if ((int) nv != maxvar || iuv || opt->conflict_limit >= 0 || opt->timeout >= 0) return;
    out->nontrivial = 1;
    while (guard--) {
      napsat::status r = timed([&] { return napsat::solve(s); }, false);
      checkVerdict(r, false, "solve()");
      if (r != napsat::status::SAT) break;
      auto m = currentModel(); m.resize(nv + 1);
      if (!seen.insert(m).second) bad("enum:repeat", "a blocked model was returned again");
      SIM_COUNT("models_enumerated");
      Clause c; for (unsigned v = 1; v <= nv; v++) c.push_back(m[v] ? -(int) v : (int) v);
      addClause(c, false);
    }
    if (seen.size() != expect) bad("enum:count", "enumeration found " + std::to_string(seen.size()) + " models, the clauses have " + std::to_string(expect));
  }

  void checkProof() {
    SIM_COUNT("proof_checked"); out->nontrivial = 1;
    bool ok; { Code c; ok = napsat::check_proof(s); }
    rec(ok);
    if (!ok) bad("proof:rejected", "check_proof() rejects the solver's own proof");
    std::string text;
    u64 failed_before = alloc_ctl.failed;
    { CaptureCout cap; { Code c; napsat::print_proof(s); } text = cap.ss.str(); }
    if (alloc_ctl.failed != failed_before) return;   // a stream swallows the failure and prints less
    std::set<std::set<int>> inputs;
    for (auto& c : F.clauses) inputs.insert(std::set<int>(c.begin(), c.end()));
    std::string err = check_printed_proof(text, inputs);
    if (!err.empty()) bad(err.substr(0, err.find(' ')), err.substr(err.find(' ') + 1));
  }

  void main() {
    try { create(); }
    catch (const std::bad_alloc&) { in_code = false; if (!alloc_ctl.failed) bad("crash:bad_alloc", "unexpected out-of-memory"); SIM_COUNT("fault_abandon"); dead = true; out->nontrivial = 1; }
    if (!dead) for (auto& w : ops) {
      mix(hash_str(w[0])); fingerprint(hash_str(w[0]));
      crossing(SEAM_OP);
      try { step(w); }
      catch (const std::bad_alloc&) {
        if (!alloc_ctl.failed) bad("crash:bad_alloc", "unexpected out-of-memory");
        SIM_COUNT("fault_abandon"); dead = true; in_code = false; out->nontrivial = 1;
        break;   // the client gives up on its instance; others must be unaffected
      }
      catch (const std::exception& e) { in_code = false; bad("exception", std::string("operation '") + join(w).substr(0, 80) + "' threw: " + e.what()); }
    }
    if (dead) { recover(); }
    if (s) { Code c; napsat::delete_solver(s); s = nullptr; }
  }
  // After a failed allocation: release the instance, start a new one, give it
  // the same clauses. The new instance must answer as if nothing had happened.
  void recover() {
    std::vector<Clause> given = F.clauses;
    adding = false; commands.clear();
    try {
      if (s) { Code c; napsat::delete_solver(s); s = nullptr; }
      create();
      for (auto& c : given) addClause(c, false);
      if (!interactive) { napsat::status r = timed([&] { return napsat::solve(s); }, false); checkVerdict(r, opt->conflict_limit >= 0 || opt->timeout >= 0, "solve() after recovery"); }
    } catch (const std::exception& e) { in_code = false; bad("recover:exception", std::string("recovery after an allocation failure threw: ") + e.what()); }
  }
};

static u64 run_clients(const Plan& p, std::vector<u64>& transcripts) {
  clients.clear();
  disk_load(p);
  int maxvar = (int) p.num("maxvar", 10);
  long nclients = 0;
  for (auto& h : p.head) if (h[0] == "client" && h.size() > 1) {
    auto c = std::make_unique<SolverClient>();
    c->heads = &p.head;
    c->id = atoi(h[1].c_str()); c->optwords.assign(h.begin() + 2, h.end());
    c->maxvar = maxvar; c->initvars = (int) p.num("initvars", 0);
    c->account = p.num("account", 0);
    c->assumeneedsunknown = p.num("assume_known", 0);
    if (auto* k = p.find("checks")) for (auto& x : *k) {
      if (x == "observe") c->chk_observe = true; if (x == "entail") c->chk_entail = true;
      if (x == "inv") c->chk_inv = true; if (x == "root") c->chk_root = true; if (x == "watch") c->chk_watch = true;
    }
    c->inv_every = (u64) p.num("inv_every", 1);
    clients.push_back(std::move(c)); nclients++;
  }
  for (auto& b : p.body) {
    if (b[0] == "op" && b.size() > 2) { int id = atoi(b[1].c_str()); if (id >= 0 && id < (int) clients.size()) clients[id]->ops.emplace_back(b.begin() + 2, b.end()); }
  }
  SIM_COUNTN("clients", nclients);
  sentinel::listener_source() = []() -> sentinel::Listener* { return sched && sched->cur >= 0 && sched->cur < (int) clients.size() ? clients[(size_t) sched->cur].get() : nullptr; };
  Sched sc; sched = &sc;
  for (auto& c : clients) { SolverClient* q = c.get(); sc.add([q] { q->main(); }); }
  for (auto& b : p.body) if (b[0] == "switch" && b.size() > 3) {
    int from = atoi(b[1].c_str()); if (from >= 0 && from < (int) clients.size()) sc.points[from].push_back({strtoull(b[2].c_str(), nullptr, 10), atoi(b[3].c_str())});
  }
  for (auto& v : sc.points) std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.at < b.at; });
  sc.run();
  sched = nullptr;
  transcripts.clear();
  for (auto& c : clients) transcripts.push_back(c->dead ? 0 : c->transcript);
  u64 n = sc.switches;
  clients.clear();
  return n;
}

void world_solver(const Plan& p) {
  alloc_ctl.junk = (unsigned char) p.num("junk", 0xA5);
  SIM_COUNT("fault_heap_garbage");
  step_budget = (u64) p.num("budget", 60000000); slow_ok = p.num("slow_ok", 0);
  for (auto& b : p.body) if (b[0] == "fault" && b.size() > 2 && b[1] == "alloc") alloc_ctl.fail_at = strtoull(b[2].c_str(), nullptr, 10);
  vclock.tick = p.num("tick", 1000);
  for (auto& b : p.body) if (b[0] == "stall" && b.size() > 2) vclock.stalls[strtoull(b[1].c_str(), nullptr, 10)] = atoll(b[2].c_str());
  for (auto& b : p.body) if (b[0] == "clock" && b.size() > 2) vclock.jumps[strtoull(b[1].c_str(), nullptr, 10)] = atoll(b[2].c_str());
  std::vector<u64> t1;
  if (p.num("account", 0)) { account([&] { t1.clear(); run_clients(p, t1); }); return; }
  run_clients(p, t1);
  if (p.num("compare_alone", 0)) {
    // Each client alone, no switches, different heap garbage, different clock:
    // what it observed must be what it observed in company.
    u64 failed_client = alloc_ctl.failed;
    (void) failed_client;
    alloc_ctl.fail_at = 0; vclock.jumps.clear(); vclock.stalls.clear(); vclock.tick = 977; alloc_ctl.junk ^= 0x5A;
    for (size_t i = 0; i < t1.size(); i++) {
      if (!t1[i]) continue;
      Plan q = p; q.head.clear(); q.body.clear();
      for (auto& h : p.head) { if (h[0] == "client") { if (atoi(h[1].c_str()) == (int) i) { Words w = h; w[1] = "0"; q.head.push_back(w); } } else q.head.push_back(h); }
      for (auto& b : p.body) if (b[0] == "op" && atoi(b[1].c_str()) == (int) i) { Words w = b; w[1] = "0"; q.body.push_back(w); }
      std::vector<u64> t2;
      run_clients(q, t2);
      if (t2.empty() || t2[0] != t1[i]) violation("isolation:diverged", "client " + std::to_string(i) + " observed different results in company (other clients, clock, heap contents) than alone");
      out->nontrivial = 1;
    }
  }
}
}
