// World "cli": the command line program, run on simulated files.
#include "disk.hpp"
#include "gen_solver.hpp"
#include "ref.hpp"
#include "Sentinel-API.hpp"
#include "SAT-options.hpp"
#include <iostream>
#include <sstream>
int napsat_cli_main(int argc, char** argv);
namespace sim {
void gen_file(Plan& p, Rng& r, int k, int nv, const std::vector<Clause>& cls, const std::vector<int>& older, double p_fault, const std::string& force_fmt);
struct Sink : std::streambuf {     // the terminal: never part of the program's memory
  std::string text;
  int overflow(int c) override { bool s = in_code; in_code = false; if (c != EOF) text += (char) c; in_code = s; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { bool s = in_code; in_code = false; text.append(p, (size_t) n); in_code = s; return n; }
};
void world_cli(const Plan& p) {
  alloc_ctl.junk = (unsigned char) p.num("junk", 0xA5); SIM_COUNT("fault_heap_garbage");
  step_budget = (u64) p.num("budget", 60000000); slow_ok = p.num("slow_ok", 0);
  vclock.tick = p.num("tick", 1000);
  for (auto& b : p.body) {
    if (b[0] == "fault" && b.size() > 2 && b[1] == "alloc") alloc_ctl.fail_at = strtoull(b[2].c_str(), nullptr, 10);
    if (b[0] == "stall" && b.size() > 2) vclock.stalls[strtoull(b[1].c_str(), nullptr, 10)] = atoll(b[2].c_str());
    if (b[0] == "clock" && b.size() > 2) vclock.jumps[strtoull(b[1].c_str(), nullptr, 10)] = atoll(b[2].c_str());
  }
  disk_load(p);
  sentinel::listener_source() = []() -> sentinel::Listener* { return nullptr; };
  napsat::env::set_suppress_warning(false); napsat::env::set_suppress_info(false);   // as at the start of the program
  std::vector<std::string> args{"/simdisk/napsat"};
  if (auto* a = p.find("args")) args.insert(args.end(), a->begin() + 1, a->end());
  auto has = [&](const std::string& x) { for (auto& a : args) if (a == x) return true; return false; };
  std::string file; const Words* fh = nullptr;
  for (auto& h : p.head) if (h[0] == "file" && h.size() > 2) { fh = &h; file = disk_path(atoi(h[1].c_str()), h[2]); }
  std::string content; bool intact = false; DimacsRef ref; bool named = false;
  if (fh) for (auto& a : args) if (a == "FILE") { a = file; named = true; }
  bool exists = named && disk.count(file);
  if (exists) { std::string fmt = (*fh)[2]; intact = decompress(fmt == "xz" || fmt == "bz2" ? fmt : "plain", disk[file].bytes, content); ref = dimacs_read(content, has("-o") || has("-c") || has("-i")); }
  if (ref.biggest > 20000) inconclusive();
  bool all = args.size() > 1 && args[1] == "--all-models";
  bool limited = has("-t") || has("-cl");
  Formula F; F.init((int) ref.vars);
  if (exists && intact) for (auto& c : ref.clauses) F.add(c);
  u64 models = F.tt ? F.count_models() : 0;
  if (all && (!F.tt || models > 500)) { out->nontrivial = 0; finish_ok(); }
  std::vector<std::vector<char>> store; std::vector<char*> argv;
  for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
  for (auto& s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  Sink o, e; auto* so = std::cout.rdbuf(&o); auto* se = std::cerr.rdbuf(&e);
  int rc = -1; bool threw = false; std::string what;
  SIM_COUNT("cli_runs");
  try { Code c; rc = napsat_cli_main((int) args.size(), argv.data()); }
  catch (const std::exception& x) { in_code = false; threw = true; what = x.what(); }
  std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cout.clear(); std::cerr.clear();
  mix((u64) rc); mix(o.text); out->nontrivial = 1;
  bool io_error = exists && disk[file].faults_fired > 0, oom = alloc_ctl.failed > 0;
  std::string cmd = "napsat" ; for (size_t i = 1; i < args.size(); i++) cmd += " " + args[i];
  auto bad = [&](const std::string& sig, const std::string& m) { violation(sig, cmd + ": " + m); };
  // verdict lines
  std::string verdict; int nv = 0;
  { std::istringstream ss(o.text); std::string l; while (std::getline(ss, l)) { if (l.rfind("s ", 0) == 0 || l == "UNKNOWN") { verdict = l; nv++; } } }
  if (threw) {
    if (!oom && !io_error) bad("cli:exception", "ended with an uncaught exception (" + what + ")");
    if (nv) { /* the verdict was printed before; it is judged below */ } else finish_ok();
  }
  // the options behind the input file are read as they are given: no word of them is dropped or taken for another one
  // (the value of a repeated option is reported as unknown)
  size_t first = all ? 2 : 1; bool plain = args.size() > first && args[first] == file;
  for (size_t i = first + 1; i < args.size(); i++) for (size_t j = first + 1; j < i; j++) if (args[i][0] == '-' && args[i] == args[j]) plain = false;
  for (size_t pos = 0; plain && (pos = (o.text + e.text).find("Unknown option ", pos)) != std::string::npos; pos++) {
    std::string w = (o.text + e.text).substr(pos + 15); w = w.substr(0, w.find_first_of("\n \033"));
    if (w != "--no-such-option" && w != "-bogus") bad("cli:option", "takes '" + w + "' for an option");
  }
  bool usage = args.size() < 2 || (all && args.size() < 3);
  bool no_run = usage || args[1] == "-h" || args[1] == "--help" || args[1] == "-v" || args[1] == "--version";
  if (no_run) {
    if (nv) bad("cli:verdict", "prints a verdict without a problem");
    if (!threw && rc != (usage ? 1 : 0)) bad("cli:exit", "exit code " + std::to_string(rc));
    finish_ok();
  }
  bool sat = exists && intact ? F.sat() : true;
  bool readable = exists && intact && ref.ok;
  if (!threw && !readable && !(exists && intact && !sat)) {
    if (rc == 0 || nv) bad("cli:bad-input-accepted", "the input is missing, damaged or malformed but the program exits with " + std::to_string(rc) + " and prints '" + verdict + "'");
    finish_ok();
  }
  if (!threw && rc != 0) {
    if (nv) bad("cli:refused-with-verdict", "exits with " + std::to_string(rc) + " but prints '" + verdict + "'");
    if (readable && !io_error && !oom) bad("cli:refused", "the intact input was refused");
    finish_ok();
  }
  if (!threw && nv != 1) bad("cli:verdict-lines", "prints " + std::to_string(nv) + " verdict lines");
  if (verdict == "s SATISFIABLE") { SIM_COUNT("answer_sat"); if (!sat) bad("sat:unsatisfiable", "answers SATISFIABLE but the clauses have no model"); if (all && !limited) bad("cli:all-models", "the enumeration stopped at a model"); }
  else if (verdict == "s UNSATISFIABLE") {
    SIM_COUNT("answer_unsat");
    if (all) {
      u64 n = 0; size_t pos = 0; while ((pos = o.text.find("Model found: ", pos)) != std::string::npos) { n++; pos++; }
      SIM_COUNTN("models_enumerated", n);
      if (!has("-iuv") && n != models) bad("cli:all-models", "prints " + std::to_string(n) + " models, the clauses have " + std::to_string(models));
      if (has("-iuv") && (n > models || (n == 0) != (models == 0))) bad("cli:all-models", "prints " + std::to_string(n) + " models, the clauses have " + std::to_string(models));
    } else if (sat) bad("unsat:satisfiable", "answers UNSATISFIABLE but the clauses have a model");
    if (has("-pp") && !threw && !oom) {
      SIM_COUNT("proof_checked");
      std::set<std::set<int>> in; for (auto& c : ref.clauses) in.insert(std::set<int>(c.begin(), c.end()));
      std::string err = check_printed_proof(o.text, in, all ? (has("-iuv") ? 0 : (int) ref.vars) : -1);
      if (!err.empty()) bad(err.substr(0, err.find(' ')), err.substr(err.find(' ') + 1));
    }
  } else {
    SIM_COUNT("answer_unknown");
    if (!limited) bad("cli:no-verdict", "prints '" + verdict + "' although no limit was set");
  }
  if ((o.text + e.text).find("proof is invalid") != std::string::npos) bad("proof:rejected", "the program rejects its own proof");
  finish_ok();
}

Plan gen_cli_plan(const std::string& prop, u64 seed, bool deep) {
  Plan p; p.prop = prop; p.seed = seed; p.world = "cli";
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str(prop));
  p.head.push_back({"junk", std::to_string(r.below(256))});
  p.head.push_back({"tick", std::to_string(r.logu(100000))});
  bool all = r.chance(0.25);
  OptSpec o; o.iuv = true; o.proof = false; o.attach_p = 0.25; o.limits = r.chance(0.25) && !all;
  Words ow = gen_options(r, o);
  if (r.chance(0.35)) { auto w = r.pick<std::string>({"-pp", "-cp", "-bp"}); if (r.chance(0.6)) ow.insert(ow.begin(), w); else ow.push_back(w); }
  if (r.chance(0.1)) ow.push_back(r.pick<std::string>({"--no-such-option", "-sw", "-si", "-bogus", "-t", "-del"}));
  bool gb = std::find(ow.begin(), ow.end(), "-gb") != ow.end();
  int cls = all ? r.pick<int>({0, 0, 1}) : r.pick<int>({0, 1, 1, 2, 2, 3}); if (gb && cls > 2) cls = 2; if (deep && !gb && !all && r.chance(0.2)) cls = 3;
  FormulaSpec f = gen_formula(r, cls);
  if (r.chance(0.4) && f.cls.size() > 6) f.cls.resize(f.cls.size() * (size_t) r.range(30, 100) / 100);
  if (gb && f.nv > 14) p.head.push_back({"slow_ok", "1"});
  std::vector<int> older;
  if (r.chance(0.2)) { gen_file(p, r, 0, f.nv, {}, {}, 0, ""); p.head.pop_back(); while (!p.body.empty()) p.body.pop_back(); }
  gen_file(p, r, 0, f.nv, f.cls, older, r.chance(0.4) ? 0 : 0.7, "");
  Words a{"args"};
  if (all) a.push_back("--all-models");
  if (!all && r.chance(0.02)) { a.push_back(r.pick<std::string>({"-h", "-v", "--help", "--version"})); }
  if (!r.chance(0.02)) a.push_back(r.chance(0.02) ? "/simdisk/missing.cnf" : "FILE");
  if (a.size() > 1) a.insert(a.end(), ow.begin(), ow.end());
  p.head.push_back(a);
  if (r.chance(0.15)) p.body.push_back({"fault", "alloc", std::to_string(r.logu(6000))});
  int k = (int) r.below(3);
  for (int i = 0; i < k; i++) { i64 d = (i64) r.logu(4000000000000000ull); if (r.chance(0.5)) d = -d; p.body.push_back({"clock", std::to_string(r.logu(200)), std::to_string(d)}); }
  return p;
}
}
