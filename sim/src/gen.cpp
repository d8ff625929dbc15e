#include "core.hpp"
#include "gen_solver.hpp"
#include <algorithm>
namespace sim {
Plan generate_other(const std::string& prop, u64 seed, bool deep);

static Words W(std::initializer_list<std::string> l) { return Words(l); }
static Words opline(int client, const std::string& text) { Words w{"op", std::to_string(client)}; Words t = split(text); w.insert(w.end(), t.begin(), t.end()); return w; }

struct HistSpec {
  double p_incremental = 0.6;   // add clauses after a verdict
  bool limits = false, userprop = true, assume = false, block = true, weird = true, proof = false, core = false, ccore = false;
  bool newvar = true, misc = true, enumerate = false; bool recreate = false;
  int sc_max = 3; std::vector<int> classes = {0, 1, 1, 1, 2};
  bool interactive = false;
  double forget_p = 0.3; bool stats = false;
  bool sat_bias = false, unsat_bias = false;   // of the formula families
  bool solve_until = false;    // finish interrupted searches by calling again
  bool probe = false;          // many partial states: propagate / decide between additions
  bool gaps = false;           // variables that occur in no clause
};

static int gen_history(Plan& p, Rng& r, int client, const HistSpec& h, int forced_maxvar = 0) {
  FormulaSpec f = gen_formula(r, r.pick(h.classes));
  if (h.sat_bias && r.chance(0.6) && f.cls.size() > 4) { // thin it out: more, and more varied, models
    size_t keep = f.cls.size() * (size_t) r.range(40, 90) / 100; f.cls.resize(keep); }
  if (h.unsat_bias && r.chance(0.5)) { int k = f.nv / 2 + r.range(0, f.nv); for (int i = 0; i < k; i++) f.cls.push_back(rand_clause(r, f.nv, 3, false)); }
  int nv = f.nv;
  if (h.gaps && nv < 14 && nv > 3) { int gap = r.range(1, nv); for (auto& c : f.cls) for (int& l : c) if (std::abs(l) == gap) l = l > 0 ? (gap % nv) + 1 : -((gap % nv) + 1); }
  int maxv = nv + (r.chance(0.3) && nv < 14 ? r.range(0, 2) : 0);
  if (forced_maxvar) maxv = forced_maxvar;
  auto op = [&](const std::string& t) { p.body.push_back(opline(client, t)); };
  auto emit_clause = [&](const Clause& c) {
    if (h.weird && r.chance(0.04)) op("add" + lits_str(rand_clause(r, nv, 5, true)));
    op((r.chance(0.25) ? "addp" : "add") + lits_str(c));
  };
  auto misc = [&]() {
    if (!h.misc) return;
    switch (r.below(h.assume ? 11 : 9)) {
      case 9: op("assume " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); break;
      case 10: op(r.chance(0.3) ? "forget" : "forget " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); break;
      case 0: if (h.newvar) op("newvar"); break;
      case 1: op("sync"); break;
      case 2: op("suggest " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv)) + " " + std::to_string(r.below(2))); break;
      case 3: op("weight " + std::to_string(r.below(1000))); break;
      case 4: if (h.userprop) op("prop"); break;
      case 5: if (h.userprop) op("decide 0"); break;
      case 6: if (h.userprop) op("decide " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); break;
      case 7: if (r.chance(h.stats ? 1 : 0.2)) op("stats"); break;
      case 8: if (h.recreate && r.chance(0.1)) op("recreate"); break;
    }
  };
  auto assume = [&]() {
    if (!h.assume) return;
    int k = r.range(1, 3);
    if (r.chance(0.15)) { std::string l; for (int i = 0; i < k; i++) l += " " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv)); op("assumev" + l); return; }
    for (int i = 0; i < k; i++) op("assume " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv)));
  };
  auto solve = [&]() {
    if (h.limits && r.chance(0.5)) { int k = r.range(1, 4); for (int i = 0; i < k; i++) op("limit " + std::to_string(r.chance(0.3) ? 0 : r.logu(20))); }
    if (h.assume) assume();
    op(h.solve_until ? "until" : "solve");
    if (h.assume && h.core) op("core");
    if (h.assume && h.ccore) op("ccore");
    if (h.proof) op("proof");
    if (h.assume && r.chance(h.forget_p)) { op(r.chance(0.4) ? "forget" : "forget " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); if (r.chance(0.7)) op("solve"); }
  };
  // split the clauses in batches
  int batches = r.chance(h.p_incremental) ? r.range(1, 6) : 1;
  size_t pos = 0; bool suggest = h.probe && h.misc && r.chance(0.3);
  if (h.interactive) {
    // commands typed at the prompt are queued before the solve that consumes them
  }
  for (int b = 0; b < batches; b++) {
    size_t end = b == batches - 1 ? f.cls.size() : pos + r.below(f.cls.size() - pos + 1);
    for (; pos < end; pos++) { emit_clause(f.cls[pos]); if (suggest && r.chance(0.25)) op("suggest " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv)) + " " + std::to_string(r.chance(0.7))); if (r.chance(h.probe ? 0.15 : 0.02)) { if (h.probe && r.chance(0.7)) { int k = r.range(1, 4); for (int i = 0; i < k; i++) op(r.chance(0.3) ? "prop" : r.chance(0.4) ? "decide 0" : "decide " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); } else misc(); } }
    if (h.interactive) {
      int k = r.range(0, 12);
      for (int i = 0; i < k; i++) {
        switch (r.below(10)) {
          case 0: op("cmd"); break;
          case 1: op(r.chance(0.03) ? "cmd LEARN" : "cmd DECIDE"); break;
          case 2: case 3: op("cmd DECIDE " + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); break;
          case 4: case 5: op("cmd LEARN" + lits_str(rand_clause(r, nv, 4, r.chance(0.15)))); break;
          case 6: if (h.assume) op((r.chance(0.6) ? "cmd ASSUME " : "cmd FORGET ") + std::to_string(r.chance(0.5) ? r.range(1, nv) : -r.range(1, nv))); else op("cmd PRINT trail"); break;
          case 7: op(r.chance(0.4) ? "cmd PRINT clause-set" : r.chance(0.6) ? "cmd PRINT " + r.pick<std::string>({"trail", "trail-simple", "watch-lists", "nothing"}) : r.chance(0.3) ? "cmd RAW BOGUS 1" : "cmd RAW " + r.pick(std::vector<std::string>{"HINT 1", "HINT -1 0", "HINT x", "HINT 99999999999", "HINT", "DECIDE 1 2", "ASSUME", "ASSUME 1 2", "FORGET", "FORGET 1 2", "DELETE_CLAUSE", "DELETE_CLAUSE 1 2"})); break;
          case 8: op("cmd DELETE " + std::to_string(r.below(64))); break;
          case 9: {
            std::string c = r.pick(std::vector<std::string>{"DECIDE", "DECIDE", "LEARN", "LEARN 1", "DELETE_CLAUSE", "ASSUME", "FORGET", "decide", "LEARN 1 -2"});
            std::string a = r.pick(std::vector<std::string>{"abc", "0", "1x", "--1", "2147483648", "-2147483648", "99999999999999999999", "1.5", "\"", "0x1", ""});
            if (c.substr(0, 5) != "LEARN" && r.chance(0.2)) a = (r.chance(0.5) ? "" : "-") + std::to_string(r.pick(std::vector<int>{100000, 2147483647, 65536}));
            if (a.empty()) { if (c.find(' ') == std::string::npos && c != "DECIDE" && c != "LEARN") op("cmd RAW " + c); break; }
            if (c == "DELETE_CLAUSE" && a == "0") a = "-1";
            op("cmd RAW " + c + " " + a); break;
          }
        }
      }
    }
    solve();
    if (r.chance(0.4)) misc();
    if (h.block && r.chance(0.3)) { int k = r.range(1, 5); for (int i = 0; i < k; i++) { op("block"); op("solve"); } }
  }
  if (h.enumerate) op("enum");
  if (h.proof) op("proof");
  return maxv;
}

static void heap_garbage(Plan& p, Rng& r) { p.head.push_back(W({"junk", std::to_string(r.below(256))})); }
static void clock_faults(Plan& p, Rng& r) {
  p.head.push_back(W({"tick", std::to_string(r.logu(100000))}));
  int k = (int) r.below(4);
  for (int i = 0; i < k; i++) {
    i64 d = (i64) r.logu(4000000000000000ull); if (r.chance(0.5)) d = -d;
    p.body.push_back(W({"clock", std::to_string(r.logu(200)), std::to_string(d)}));
  }
  if (r.chance(0.3)) p.body.push_back(W({"stall", std::to_string(r.logu(500)), std::to_string(r.logu(100000000000ull))}));
}
static void switches(Plan& p, Rng& r, int n) {
  if (n < 2) return;
  for (int c = 0; c < n; c++) {
    int k = (int) r.logu(48);
    u64 span = r.pick<u64>({60, 400, 3000, 20000});
    for (int i = 0; i < k; i++) {
      int to = (int) r.below((u64) n - 1); if (to >= c) to++;
      p.body.push_back(W({"switch", std::to_string(c), std::to_string(1 + r.below(span)), std::to_string(to)}));
    }
  }
}

static Plan gen_account_plan(u64 seed, const std::string& tier);
struct Profile {
  std::function<void(Rng&, OptSpec&, HistSpec&)> tune;
  std::string checks;
  double multi = 0.25;       // chance of more than one client
  int force_clients = 0;
  bool compare_alone = false;
  double alloc_fault = 0;
  bool may_assume = true;    // assumptions in some of the graph backtracking runs
  bool forced_initvars = false;
  bool stalls = false;       // long ones
  double wide = 0;           // chance of a formula over thousands of variables
};

static Plan gen_solver_plan(const std::string& prop, u64 seed, bool deep, const Profile& pf) {
  Plan p; p.prop = prop; p.seed = seed; p.world = "solver";
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str(prop));
  int n = pf.force_clients ? pf.force_clients : r.chance(pf.multi) ? r.range(2, 3) : 1;
  heap_garbage(p, r);
  Words ck = split("checks " + pf.checks); if (ck.size() > 1) p.head.push_back(ck);
  int mv = 0; bool slow_ok = false;
  for (int c = 0; c < n; c++) {
    OptSpec o; HistSpec h; o.iuv = false;
    if (deep && r.chance(0.3)) h.classes = {1, 2, 2, 2, 3};
    pf.tune(r, o, h);
    if (r.chance(0.04)) o.deps = true;
    bool wide = pf.wide > 0 && r.chance(pf.wide);
    if (wide) { h.classes = {4}; h.block = h.enumerate = h.proof = o.proof = false; h.limits = false; if (r.chance(0.7)) o.force_gb = true; }
    Words cl = W({"client", std::to_string(c)}); Words ow = gen_options(r, o); cl.insert(cl.end(), ow.begin(), ow.end());
    p.head.push_back(cl);
    bool gb = std::find(ow.begin(), ow.end(), "-gb") != ow.end(); bool medium = false;
    if (gb && pf.may_assume && !h.enumerate && r.chance(0.3)) h.assume = true;
    // the choice of backtracking sets in graph backtracking is exponential in the number of simultaneous conflicts
    if (gb) for (auto& x : h.classes) { if (x == 3) x = 2; medium |= x == 2; }
    if (gb && medium) slow_ok = true;
    mv = std::max(mv, gen_history(p, r, c, h));
  }
  p.head.push_back(W({"maxvar", std::to_string(mv)}));
  if (r.chance(0.3)) p.head.push_back(W({"initvars", std::to_string(r.range(1, mv))}));
  if (slow_ok && mv > 14) p.head.push_back(W({"slow_ok", "1"}));
  if (pf.compare_alone) p.head.push_back(W({"compare_alone", "1"}));
  switches(p, r, n);
  clock_faults(p, r);
  if (pf.stalls && r.chance(0.6)) { int k = r.range(1, 3); for (int i = 0; i < k; i++) p.body.push_back(W({"stall", std::to_string(r.logu(300)), std::to_string(r.logu(20000000000000ull))})); }
  if (pf.alloc_fault > 0 && r.chance(pf.alloc_fault)) p.body.push_back(W({"fault", "alloc", std::to_string(r.logu(r.chance(0.5) ? 300 : 20000))}));
  return p;
}

static const std::map<std::string, Profile>& profiles() {
  static std::map<std::string, Profile> m;
  if (!m.empty()) return m;
  auto& C01 = m["C01"]; C01.wide = 0.003; C01.tune = [](Rng& r, OptSpec&, HistSpec& h) { h.sat_bias = true; if (r.chance(0.3)) h.classes = {2, 2, 3}; };
  auto& C02 = m["C02"]; C02.tune = [](Rng& r, OptSpec&, HistSpec& h) { h.unsat_bias = true; if (r.chance(0.3)) h.classes = {2, 2, 3}; };
  auto& C03 = m["C03"]; C03.wide = 0.006; C03.tune = [](Rng& r, OptSpec& o, HistSpec& h) { h.classes = {0, 1, 2, 2, 3}; o.stats = true; if (r.chance(0.3)) { h.block = false; h.p_incremental = 0; h.classes = {3}; } };
  auto& C04 = m["C04"]; C04.tune = [](Rng& r, OptSpec& o, HistSpec& h) { h.limits = true; h.classes = {1, 1, 2, 2}; o.limits = r.chance(0.6); o.attach_p = 0.7; h.solve_until = true; };
  auto& C05 = m["C05"]; C05.tune = [](Rng& r, OptSpec&, HistSpec& h) { h.classes = {0, 0, 1}; h.enumerate = true; h.p_incremental = 0.3; h.weird = r.chance(0.2); h.sat_bias = true; };
  auto& C06 = m["C06"]; C06.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.attach_p = r.chance(0.5) ? 1 : 0; h.limits = r.chance(0.5); h.probe = true; h.classes = {0, 1, 1, 2}; }; C06.checks = "root";
  auto& C07 = m["C07"]; C07.tune = [](Rng&, OptSpec& o, HistSpec& h) { o.attach_p = 1; h.classes = {1, 1, 1, 2}; }; C07.checks = "entail root";
  auto& C08 = m["C08"]; C08.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.attach_p = 1; h.classes = {1, 1, 2}; h.limits = r.chance(0.3); }; C08.checks = "observe";
  auto& C09 = m["C09"]; C09.tune = [](Rng&, OptSpec& o, HistSpec& h) { o.attach_p = 1; h.classes = {0, 1, 1, 2}; }; C09.checks = "inv watch observe";
  auto& C10 = m["C10"]; C10.tune = [](Rng&, OptSpec& o, HistSpec& h) { o.proof = true; h.proof = true; h.unsat_bias = true; h.classes = {0, 1, 1, 2}; };
  auto& C11 = m["C11"]; C11.tune = [](Rng&, OptSpec& o, HistSpec& h) { o.interactive = true; h.interactive = true; h.classes = {0, 1, 1, 2}; }; C11.checks = "observe entail";
  auto& C16 = m["C16"]; C16.tune = [](Rng& r, OptSpec& o, HistSpec& h) { h.classes = {0, 1, 1, 2}; h.limits = r.chance(0.3); o.stats = true; o.proof = r.chance(0.2); h.proof = o.proof; }; C16.compare_alone = true; C16.multi = 0.8;
  auto& C17 = m["C17"]; C17.wide = 0.002; C17.tune = [](Rng& r, OptSpec& o, HistSpec& h) { h.classes = {0, 1, 1, 2}; h.limits = r.chance(0.2); o.proof = r.chance(0.2); h.proof = o.proof; }; C17.alloc_fault = 1; C17.multi = 0.6;
  auto& C23 = m["C23"]; C23.tune = [](Rng&, OptSpec& o, HistSpec& h) { o.iuv = true; o.iuv_p = 1; h.newvar = true; h.gaps = true; };
  auto& C24 = m["C24"]; C24.tune = [](Rng& r, OptSpec&, HistSpec& h) { h.p_incremental = 1; h.probe = true; h.limits = r.chance(0.3); h.classes = {0, 1, 1, 1, 2}; }; C24.checks = "root";
  auto& C12 = m["C12"]; C12.wide = 0.004; C12.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.force_gb = true; h.assume = true; h.limits = r.chance(0.3); h.probe = r.chance(0.3); o.proof = r.chance(0.15); h.proof = o.proof; o.attach_p = r.chance(0.5) ? 1 : 0; h.unsat_bias = r.chance(0.3); h.sat_bias = r.chance(0.3); if (r.chance(0.15)) { o.interactive = true; h.interactive = true; } }; C12.checks = "root";
  auto& C13 = m["C13"]; C13.wide = 0.003; C13.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.force_gb = true; h.assume = true; h.core = true; h.unsat_bias = r.chance(0.4); h.probe = r.chance(0.3); h.limits = r.chance(0.2); };
  auto& C28 = m["C28"]; C28.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.stats = true; o.stats_p = 0.95; o.attach_p = 1; h.stats = true; h.limits = r.chance(0.4); h.classes = {0, 1, 1, 2, 2, 3}; if (r.chance(0.1)) { o.interactive = true; h.interactive = true; } }; C28.stalls = true;
  auto& C14 = m["C14"]; C14.tune = [](Rng& r, OptSpec& o, HistSpec& h) { o.force_gb = true; o.deps = true; h.assume = true; h.ccore = true; h.core = r.chance(0.3); h.unsat_bias = r.chance(0.5); h.probe = r.chance(0.3); h.limits = r.chance(0.2); };
  return m;
}
bool is_solver_profile(const std::string& prop) { return profiles().count(prop) > 0; }

// C27: workloads of the other properties, whose resources are accounted for
static Plan gen_account_plan(u64 seed, const std::string& tier) {
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str("C27"));
  std::string base = r.pick<std::string>({"C17", "C17", "C03", "C03", "C10", "C11", "C12", "C14", "C14", "C16", "C24", "C23", "C05", "C15", "C15", "C15", "C18", "C19", "C20", "C21", "C25"});
  Plan p = generate(base, seed, tier); p.prop = "C27";
  std::erase_if(p.head, [](auto& h) { return h[0] == "compare_alone" || h[0] == "checks"; });
  bool has = false; for (auto& b : p.body) has |= b[0] == "fault" && b.size() > 1 && b[1] == "alloc";
  if (!has && r.chance(0.4)) p.body.push_back(W({"fault", "alloc", std::to_string(r.logu(r.chance(0.5) ? 300 : 20000))}));
  p.head.push_back(W({"account", "1"})); p.head.push_back(W({"base", base}));
  return p;
}

Plan generate(const std::string& prop, u64 seed, const std::string& tier) {
  bool deep = tier == "thorough";
  if (prop == "C27") return gen_account_plan(seed, tier);
  auto& m = profiles(); auto it = m.find(prop);
  if (it != m.end()) return gen_solver_plan(prop, seed, deep, it->second);
  return generate_other(prop, seed, deep);
}
}
