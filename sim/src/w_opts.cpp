// World "opts": a history of command lines is read into configurations. A
// command line may be damaged (tokens lost, repeated, swapped, altered), and an
// allocation may fail while it is read.
#include "disk.hpp"
#include "SAT-options.hpp"
#include <cerrno>
#include <cmath>
#include <iostream>
namespace sim {
struct TextSink : std::streambuf {
  std::string text;
  int overflow(int c) override { bool s = in_code; in_code = false; if (c != EOF) text += (char) c; in_code = s; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { bool s = in_code; in_code = false; text.append(p, (size_t) n); in_code = s; return n; }
};
// the documented options: names, the documented default, the field that holds the value
struct BoolSpec { std::vector<std::string> names; bool dflt; bool napsat::options::*field; };
struct NumSpec { std::vector<std::string> names; double dflt; double napsat::options::*field; };
using O = napsat::options;
static const std::vector<BoolSpec>& bools() {
  static const std::vector<BoolSpec> v = {
    {{"--chronological-backtracking", "-cb"}, false, &O::chronological_backtracking}, {{"--lazy-strong-chronological-backtracking", "-lscb"}, false, &O::lazy_strong_chronological_backtracking},
    {{"--graph-backtracking", "-gb"}, false, &O::graph_backtracking}, {{"--lazy-chunk-merging", "-lcm"}, false, &O::lazy_chunk_merging}, {{"--eager-chunk-merging", "-ecm"}, false, &O::eager_chunk_merging},
    {{"--backtrack-smallest-chunk", "-bsc"}, false, &O::backtrack_smallest_chunk}, {{"--backtrack-first-chunk", "-bfc"}, false, &O::backtrack_first_chunk}, {{"--delete-clauses", "-del"}, true, &O::delete_clauses},
    {{"--ignore-unused-variables", "-iuv", "--ignore-unused_variables"}, false, &O::ignore_unused_variables}, {{"--interactive", "-i"}, false, &O::interactive}, {{"--observing", "-o"}, false, &O::observing},
    {{"--check-invariants", "-c"}, false, &O::check_invariants}, {{"--save-state-on-interrupt", "-ssi"}, true, &O::save_state_on_interrupt}, {{"--statistics", "-stat"}, false, &O::print_stats},
    {{"--live-statistics", "-live-stat"}, false, &O::print_live_stats}, {{"--proof", "-bp"}, false, &O::build_proof}, {{"--check-proof", "-cp"}, false, &O::check_proof}, {{"--print-proof", "-pp"}, false, &O::print_proof},
    {{"--record-dependencies"}, false, &O::record_dependencies}, {{"--restarts"}, true, &O::restarts}, {{"--backtrack-learned", "-bl"}, false, &O::backtrack_learned},
    {{"--use-max-approximate-cost-estimation", "-max-approx-cost"}, false, &O::use_max_approximate_cost_estimation}, {{"--use-sum-approximate-cost-estimation", "-sum-approx-cost"}, false, &O::use_sum_approximate_cost_estimation},
    {{"--use-vsids-approximate-cost-estimation", "-vsids-approx-cost"}, false, &O::use_vsids_approximate_cost_estimation}};
  return v;
}
static const std::vector<NumSpec>& nums() {
  static const std::vector<NumSpec> v = {
    {{"--var-activity-decay"}, 0.95, &O::var_activity_decay}, {{"--clause-elimination-multiplier"}, 2.0, &O::clause_elimination_multiplier}, {{"--clause-activity-multiplier"}, 1.001, &O::clause_activity_multiplier},
    {{"--clause-activity-threshold-decay"}, 0.85, &O::clause_activity_threshold_decay}, {{"--chunk-level-penalty"}, 0.01, &O::chunk_level_penalty}, {{"--backtrack-possibilities-limit"}, 1000, &O::backtrack_possibilities_limit},
    {{"--sync-weight"}, 8, &O::sync_weight}, {{"--timeout", "-t"}, -1, &O::timeout}, {{"--conflict-limit", "-cl"}, -1, &O::conflict_limit}};
  return v;
}
struct EnvModel { bool warn = false, info = false; std::string obsidian, inv; };
struct ConfModel { std::vector<char> b; std::vector<double> n; std::vector<std::string> sentinel; bool told = false, fatal = false; };

static bool number(const std::string& t, double& v) {
  errno = 0; char* e; v = strtod(t.c_str(), &e);
  return e != t.c_str() && (size_t) (e - t.c_str()) == t.size() && errno != ERANGE;
}
// what the documentation says the command line means
static ConfModel reference(std::vector<std::string> in, EnvModel& env) {
  ConfModel m;
  for (auto& s : bools()) m.b.push_back(s.dflt);
  for (auto& s : nums()) m.n.push_back(s.dflt);
  std::vector<std::string> t;
  auto value = [](const std::vector<std::string>& v, size_t i) { return i + 1 < v.size() && !v[i + 1].empty() && v[i + 1][0] != '-'; };
  for (size_t i = 0; i < in.size(); i++) {
    bool w = in[i] == "--suppress-warning" || in[i] == "-sw", f = in[i] == "--suppress-info" || in[i] == "-si";
    bool ob = in[i] == "--obsidian-template-folder", iv = in[i] == "--invariant-configuration-folder" || in[i] == "-icf";
    if (w || f) {
      bool& x = w ? env.warn : env.info;
      if (!value(in, i)) x = true;
      else if (in[i + 1] == "on" || in[i + 1] == "off") { x = in[i + 1] == "on"; i++; }
      else m.told |= !env.warn;
    } else if (ob || iv) { if (value(in, i)) { (ob ? env.obsidian : env.inv) = in[i + 1]; i++; } else m.told |= !env.warn; }
    else t.push_back(in[i]);
  }
  // the group of observer options behind -o
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] != "-o" && t[i] != "--observing") continue;
    if (i + 1 >= t.size() || t[i + 1].empty() || t[i + 1][0] != '{') break;
    size_t e = i + 1; while (e < t.size() && (t[e].empty() || t[e].back() != '}')) e++;
    if (e == t.size()) { m.told |= !env.warn; break; }
    std::string g; for (size_t k = i + 1; k <= e; k++) g += (k == i + 1 ? "" : " ") + t[k];
    std::string w; for (char c : g.substr(1, g.size() - 2) + " ") { if (c == ' ' || c == '\t' || c == '\n') { if (!w.empty()) m.sentinel.push_back(w); w.clear(); } else w += c; }
    t.erase(t.begin() + (long) i + 1, t.begin() + (long) e + 1);
    break;
  }
  std::vector<char> sb(m.b.size(), 0), sn(m.n.size(), 0);
  for (size_t i = 0; i < t.size(); i++) {
    int bi = -1, ni = -1;
    for (size_t k = 0; k < bools().size(); k++) for (auto& n : bools()[k].names) if (n == t[i]) bi = (int) k;
    for (size_t k = 0; k < nums().size(); k++) for (auto& n : nums()[k].names) if (n == t[i]) ni = (int) k;
    if (bi < 0 && ni < 0) { m.told |= !env.warn; continue; }
    if (bi >= 0 ? sb[(size_t) bi] : sn[(size_t) ni]) { m.told |= !env.warn; continue; }
    if (bi >= 0) {
      if (!value(t, i)) m.b[(size_t) bi] = true;
      else if (t[i + 1] == "on" || t[i + 1] == "off") { m.b[(size_t) bi] = t[i + 1] == "on"; i++; }
      else { m.told |= !env.warn; continue; }
      sb[(size_t) bi] = 1;
    } else {
      double v; if (!value(t, i) || !number(t[i + 1], v)) { m.told |= !env.warn; continue; }
      m.n[(size_t) ni] = v; i++; sn[(size_t) ni] = 1;
    }
  }
  auto B = [&](bool O::*f) -> char& { for (size_t k = 0; k < bools().size(); k++) if (bools()[k].field == f) return m.b[k]; abort(); };
  auto drop = [&](bool O::*f) { if (B(f)) { B(f) = false; m.told |= !env.warn; } };
  bool gb = B(&O::graph_backtracking);
  if (!gb) for (auto f : {&O::backtrack_learned, &O::lazy_chunk_merging, &O::eager_chunk_merging, &O::backtrack_smallest_chunk, &O::backtrack_first_chunk, &O::use_max_approximate_cost_estimation, &O::use_sum_approximate_cost_estimation, &O::use_vsids_approximate_cost_estimation}) drop(f);
  if (B(&O::lazy_chunk_merging)) drop(&O::eager_chunk_merging);
  if (B(&O::backtrack_first_chunk)) drop(&O::backtrack_smallest_chunk);
  if (B(&O::use_max_approximate_cost_estimation)) drop(&O::use_sum_approximate_cost_estimation);
  if (B(&O::use_max_approximate_cost_estimation) || B(&O::use_sum_approximate_cost_estimation)) drop(&O::use_vsids_approximate_cost_estimation);
  if (B(&O::lazy_strong_chronological_backtracking)) { drop(&O::chronological_backtracking); B(&O::chronological_backtracking) = true; }
  if (gb) { drop(&O::chronological_backtracking); drop(&O::lazy_strong_chronological_backtracking); }
  for (size_t i = 0; i + 1 < m.sentinel.size(); i++) if (m.sentinel[i] == "-commands" && !m.sentinel[i + 1].empty()) B(&O::interactive) = true;
  if (B(&O::print_proof) || B(&O::check_proof)) B(&O::build_proof) = true;
  if (!B(&O::observing) && !B(&O::interactive)) { drop(&O::print_stats); drop(&O::print_live_stats); }
  for (size_t k = 0; k < nums().size(); k++) if (nums()[k].field == &O::clause_activity_threshold_decay && (m.n[k] < 0 || m.n[k] > 1)) m.fatal = true;
  return m;
}

static bool expect_exit = false, armed = false;
static void at_exit() {
  if (!armed) return;
  in_code = false;
  if (expect_exit) finish_ok();
  violation("options:exit", "reading a command line ended the process");
}

void world_opts(const Plan& p) {
  alloc_ctl.junk = (unsigned char) p.num("junk", 0xA5); SIM_COUNT("fault_heap_garbage");
  for (auto& b : p.body) if (b[0] == "fault" && b.size() > 2 && b[1] == "alloc") alloc_ctl.fail_at = strtoull(b[2].c_str(), nullptr, 10);
  EnvModel env; env.inv = napsat::env::get_invariant_configuration_folder(); env.obsidian = napsat::env::get_obsidian_template_folder();
  napsat::env::set_suppress_warning(false); napsat::env::set_suppress_info(false);
  atexit(at_exit); armed = true;
  TextSink o, e; auto* so = std::cout.rdbuf(&o); auto* se = std::cerr.rdbuf(&e);
  bool broken = false;
  for (auto& b : p.body) {
    if (b[0] == "fault" && b.size() > 1 && b[1] == "line") SIM_COUNT("fault_command_line");
    if (b[0] != "op" || b.size() < 3) continue;
    if (b[2] == "help") {
      u64 oom = alloc_ctl.failed;
      std::string h; try { Code c; h = napsat::options::get_help_text(); } catch (const std::bad_alloc&) { in_code = false; SIM_COUNT("fault_abandon"); continue; }
      if (alloc_ctl.failed != oom) { SIM_COUNT("fault_abandon"); continue; }   // a stream stops writing when an allocation fails, as streams do
      auto entry = [&](const std::vector<std::string>& names, const std::string& d) {
        std::string t = "  " + names[0]; for (size_t i = 1; i < names.size(); i++) t += ", " + names[i];
        size_t at = h.find("\n" + t + " ("); if (at == std::string::npos) violation("options:help", "the help does not list " + t);
        std::string line = h.substr(at + 1, h.find('\n', at + 1) - at - 1);
        if (line.find("default " + d) == std::string::npos) violation("options:help", "the help says '" + line + "', the default is " + d);
      };
      for (auto& s : bools()) entry(s.names, s.dflt ? "on" : "off");
      for (auto& s : nums()) entry(s.names, std::to_string(s.dflt));
      out->nontrivial = 1; continue;
    }
    if (b[2] != "read") continue;
    std::vector<std::string> tokens; std::string line;
    for (size_t i = 3; i < b.size(); i++) { tokens.push_back(unescape(b[i] == "\\e" ? "" : b[i])); line += (i > 3 ? " " : "") + b[i]; }
    auto bad = [&](const std::string& sig, const std::string& m) { violation(sig, "reading '" + line + "': " + m); };
    ConfModel m = reference(tokens, env);
    SIM_COUNT("options_read"); if (m.told) SIM_COUNT("options_refused");
    o.text.clear(); e.text.clear();
    expect_exit = m.fatal;
    std::unique_ptr<napsat::options> got; u64 oom = alloc_ctl.failed;
    for (int attempt = 0;; attempt++) {
      std::vector<std::string> t = tokens;
      try { Code c; t = napsat::env::extract_environment_variables(t); got.reset(new napsat::options(t)); break; }
      catch (const std::bad_alloc&) { in_code = false; if (alloc_ctl.failed == oom || attempt) bad("options:bad_alloc", "ran out of memory"); SIM_COUNT("fault_abandon"); broken = true; }
      catch (const std::exception& x) { in_code = false; bad("options:exception", std::string("threw ") + x.what()); }
    }
    out->nontrivial = 1;
    if (m.fatal) bad("options:range-ignored", "a value outside the range that the option allows was accepted");
    for (size_t k = 0; k < bools().size(); k++) {
      mix((u64) ((*got).*(bools()[k].field)));
      if ((*got).*(bools()[k].field) != (bool) m.b[k]) bad("options:value", bools()[k].names[0] + " is " + (m.b[k] ? "off" : "on") + ", expected " + (m.b[k] ? "on" : "off"));
    }
    for (size_t k = 0; k < nums().size(); k++) {
      double x = (*got).*(nums()[k].field); mix(std::to_string(x));
      if (x != m.n[k] && !(std::isnan(x) && std::isnan(m.n[k]))) bad("options:value", nums()[k].names[0] + " is " + std::to_string(x) + ", expected " + std::to_string(m.n[k]));
    }
    if (got->sentinel_options.given != m.sentinel) bad("options:observer-group", "the observer received " + std::to_string(got->sentinel_options.given.size()) + " options, expected " + std::to_string(m.sentinel.size()));
    if (napsat::env::get_suppress_warning() != env.warn || napsat::env::get_suppress_info() != env.info) bad("options:environment", "the messages are suppressed differently than asked for");
    if (napsat::env::get_invariant_configuration_folder() != env.inv || napsat::env::get_obsidian_template_folder() != env.obsidian) bad("options:environment", "a folder is not the one given");
    if (alloc_ctl.failed != oom) broken = true;   // the message may be cut short
    bool told = !o.text.empty() || !e.text.empty();
    if (m.told && !told && !broken) bad("options:silent", "part of the command line was not followed and nothing was said");
    if (!m.told && told && !broken) bad("options:complaint", "the command line was followed but the program complains: " + o.text + e.text);
    broken = false;
  }
  armed = false;
  std::cout.rdbuf(so); std::cerr.rdbuf(se);
  finish_ok();
}

Plan gen_opts_plan(const std::string& prop, u64 seed, bool deep) {
  Plan p; p.prop = prop; p.seed = seed; p.world = "opts";
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str(prop));
  p.head.push_back({"junk", std::to_string(r.below(256))});
  static const std::vector<std::string> env = {"-sw", "-si", "--suppress-warning", "--suppress-info", "-icf", "--invariant-configuration-folder", "--obsidian-template-folder"};
  static const std::vector<std::string> junk = {"-bogus", "--graph", "-GB", "--no-such-option", "on", "off", "file.cnf", "3", "0.5", "-1", "-", "--", "-gb=on", "{", "}", "{-x}", "\\e", "-wcb", "-rscb"};
  static const std::vector<std::string> values = {"0", "1", "2", "0.5", "0.25", "100", "1e3", "1e-3", "0x10", "+7", "2147483648", "1e300", ".5", "5.", "inf"};
  static const std::vector<std::string> wrong = {"abc", "1e999", "1e-999", "10s", "1,5", "on", "0.5x", "1e", "--", "-3", "\\e", "1\\s", "0x", "e5"};
  int lines = r.range(1, deep ? 12 : 6);
  for (int l = 0; l < lines; l++) {
    if (r.chance(0.05)) { p.body.push_back({"op", "0", "help"}); continue; }
    Words w; int k = r.range(0, r.chance(0.2) ? 20 : 7); bool gbbias = r.chance(0.5), group = false;
    for (int i = 0; i < k; i++) {
      int z = (int) r.below(20);
      if (z == 0) { w.push_back(r.pick(junk)); continue; }
      if (z <= 2) { w.push_back(r.pick(env)); bool folder = w.back() == "-icf" || w.back().find("folder") != std::string::npos; if (r.chance(folder ? 0.9 : 0.6)) w.push_back(folder ? r.pick<std::string>({"/tmp/x", "here", "a/b/", "x\\sy"}) : r.pick<std::string>({"on", "off", "off", "maybe"})); continue; }
      if (z == 3 && !group) {
        group = true; w.push_back(r.pick<std::string>({"-o", "--observing"}));
        switch (r.below(6)) {
          case 0: w.push_back("{-commands\\scmds.txt}"); break;
          case 1: w.push_back("{-dl"); w.push_back("10"); w.push_back("-commands"); w.push_back("cmds.txt}"); break;
          case 2: w.push_back("{"); w.push_back("--gui"); w.push_back("}"); break;
          case 3: w.push_back("{}"); break;
          case 4: w.push_back("{--gui\\s\\s-dl\\s3}"); break;
          default: w.push_back("{--gui"); w.push_back("-gb"); break;   // not terminated
        }
        continue;
      }
      if (z <= 7) { auto& n = r.pick(nums()); w.push_back(r.pick(n.names)); bool decay = n.names[0] == "--clause-activity-threshold-decay"; if (r.chance(0.9)) w.push_back(r.chance(0.15) ? r.pick(wrong) : decay && r.chance(0.97) ? r.pick<std::string>({"0", "1", "0.5", "1e-3"}) : r.pick(values)); continue; }
      auto& b = bools()[gbbias && r.chance(0.5) ? r.pick<size_t>({0, 1, 2, 3, 4, 5, 6, 20, 21, 22, 23}) : r.below(bools().size())];
      if (b.names[0] == "--observing" && group) continue;
      w.push_back(r.pick(b.names)); if (r.chance(0.4)) w.push_back(r.chance(0.9) ? (r.chance(0.6) ? "on" : "off") : r.pick<std::string>({"ON", "true", "1", "o", "\\e", "onoff"}));
    }
    // the command line is damaged
    if (!w.empty() && r.chance(0.25)) {
      int n = r.range(1, 3);
      for (int i = 0; i < n && !w.empty(); i++) {
        size_t at = r.below(w.size());
        switch (r.below(4)) {
          case 0: w.erase(w.begin() + (long) at); break;
          case 1: if (w[at] != "-o" && w[at] != "--observing") w.insert(w.begin() + (long) r.below(w.size() + 1), w[at]); break;
          case 2: std::swap(w[at], w[r.below(w.size())]); break;
          case 3: if (w[at].size() > 2 && w[at][0] != '\\' && w[at].find('\\') == std::string::npos) w[at].pop_back(); break;
        }
      }
      p.body.push_back({"fault", "line", std::to_string(n)});
    }
    w.insert(w.begin(), {"op", "0", "read"}); p.body.push_back(w);
  }
  if (r.chance(0.2)) p.body.push_back({"fault", "alloc", std::to_string(r.logu(3000))});
  return p;
}
}
