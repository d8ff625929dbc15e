// Simulator driver: generate / run / batch / minimise / replay.
#include "core.hpp"
#include "SAT-options.hpp"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#ifndef SIM_FLAVOR
#define SIM_FLAVOR "dbg"
#endif
using namespace sim;

namespace sim {
static std::string g_scratch;
std::string scratch_dir() { return g_scratch; }
static std::string g_repo = "/repo";
std::string repo_dir() { return g_repo; }
}

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long cpu_limit = 20;   // seconds of user time; ordinary runs need milliseconds
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

static Shared* map_shared() {
  return (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static void run_plan_here(const Plan& p) {
  install_handlers();
  itimerval tv{}; const long limit = cpu_limit * (p.num("account", 0) ? 3 : 1);   // the workload is run up to three times
  tv.it_value.tv_sec = p.num("slow_ok", 0) ? std::min(limit, 4L) : limit; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  rlimit rl{}; rl.rlim_cur = rl.rlim_max = (rlim_t) limit * 3; setrlimit(RLIMIT_CPU, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  rl.rlim_cur = rl.rlim_max = (rlim_t) 5 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (!getenv("SIM_LOUD")) silence_output();
  try {
    if (p.world == "solver") world_solver(p);
    else if (p.world == "ingest") world_ingest(p);
    else if (p.world == "cont") world_cont(p);
    else if (p.world == "proof") world_proof(p);
    else if (p.world == "cli") world_cli(p);
    else if (p.world == "opts") world_opts(p);
    else violation("bad-plan", "unknown world " + p.world);
  } catch (const std::exception& e) { violation("exception", std::string("uncaught exception: ") + e.what()); }
  finish_ok();
}

// Run a plan in a fresh child process. Result is in *out.
static void run_plan(const Plan& p) {
  memset((void*) out, 0, sizeof(Shared));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_plan_here(p); _exit(0); }
  int st = 0; waitpid(pid, &st, 0);
  if (out->status == RS_NONE) {
    snprintf(out->sig, sizeof out->sig, "%s", WIFSIGNALED(st) ? (std::string("crash:signal-") + std::to_string(WTERMSIG(st))).c_str() : (std::string("exit:") + std::to_string(WEXITSTATUS(st))).c_str());
    snprintf(out->msg, sizeof out->msg, "the run's process ended abnormally (%s)", out->sig);
    out->status = RS_VIOLATION;
  }
}

static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}

// ------------------------------------------------------------------ minimise
static bool same(const Plan& p, const std::string& sig) { run_plan(p); return out->status == RS_VIOLATION && sig == out->sig; }
static Plan minimise(Plan p, const std::string& sig, double seconds) {
  double end = wall() + seconds;
  bool progress = true;
  while (progress && wall() < end) {
    progress = false;
    // ddmin over body lines
    for (size_t chunk = std::max<size_t>(1, p.body.size() / 2); chunk >= 1 && wall() < end; chunk /= 2) {
      for (size_t i = 0; i < p.body.size() && wall() < end;) {
        Plan q = p; size_t e = std::min(q.body.size(), i + chunk);
        q.body.erase(q.body.begin() + (long) i, q.body.begin() + (long) e);
        if (same(q, sig)) { p = q; progress = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    // shorten lines: drop trailing/inner numeric words from clause-like ops
    for (size_t i = 0; i < p.body.size() && wall() < end; i++) {
      if (p.body[i][0] != "op" || p.body[i].size() < 5) continue;
      for (size_t k = p.body[i].size(); k-- > 3 && wall() < end;) { if (p.body[i].size() <= 4) break; Plan q = p; q.body[i].erase(q.body[i].begin() + (long) k); if (same(q, sig)) { p = q; progress = true; } }
    }
    // drop options
    for (size_t i = 0; i < p.head.size() && wall() < end; i++) {
      if (p.head[i][0] != "client") continue;
      for (size_t k = p.head[i].size(); k-- > 2 && wall() < end;) {
        Plan q = p; bool has_arg = k + 1 < q.head[i].size() && q.head[i][k + 1][0] != '-';
        if (q.head[i][k][0] != '-') continue;
        q.head[i].erase(q.head[i].begin() + (long) k, q.head[i].begin() + (long) k + 1 + has_arg);
        if (same(q, sig)) { p = q; progress = true; }
      }
    }
  }
  return p;
}

int main(int argc, char** argv) {
  // fixed address layout: one seed is one exactly repeatable execution
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  out = map_shared(); register_all_stats();
  std::vector<std::string> a(argv + 1, argv + argc);
  std::map<std::string, std::string> kv; std::vector<std::string> pos;
  for (auto& x : a) { size_t e; if (x.rfind("--", 0) == 0 && (e = x.find('=')) != std::string::npos) kv[x.substr(2, e - 2)] = x.substr(e + 1); else pos.push_back(x); }
  auto get = [&](const char* k, const char* d) { return kv.count(k) ? kv[k] : std::string(d); };
  std::string tier = get("tier", "quick");
  sim::g_repo = get("repo", "/repo");
  if (kv.count("cpu")) cpu_limit = atol(kv["cpu"].c_str());
  {
    char tmpl[] = "/tmp/napsim.XXXXXX"; const char* base = getenv("SIM_SCRATCH");
    if (base) g_scratch = base; else { if (!mkdtemp(tmpl)) return 2; g_scratch = tmpl; chmod(tmpl, 0755); }
  }
  napsat::env::set_invariant_configuration_folder(g_repo + "/invariant-configurations/");
  napsat::env::set_suppress_warning(true); napsat::env::set_suppress_info(true);
  auto cleanup = [&]() { if (!getenv("SIM_SCRATCH")) { std::string c = "rm -rf -- '" + g_scratch + "'"; if (g_scratch.rfind("/tmp/napsim.", 0) == 0) { int rc = system(c.c_str()); (void) rc; } } };
  if (pos.empty()) { fprintf(stderr, "usage: sim gen|run|batch|min ...\n"); return 2; }

  if (pos[0] == "gen" && pos.size() >= 3) {
    Plan p = generate(pos[1], strtoull(pos[2].c_str(), nullptr, 10), tier); p.flavor = SIM_FLAVOR;
    fputs(p.text().c_str(), stdout); cleanup(); return 0;
  }
  if (pos[0] == "run" && pos.size() >= 2) {
    Plan p; std::string err; if (!Plan::parse(slurp(pos[1]), p, err)) { fprintf(stderr, "%s\n", err.c_str()); cleanup(); return 2; }
    run_plan(p);
    printf("status=%s hash=%016llx steps=%llu sig=%s\n%s\n", out->status == RS_VIOLATION ? "VIOLATION" : "OK", (unsigned long long) out->hash, (unsigned long long) out->steps, out->sig, out->msg);
    cleanup(); return out->status == RS_VIOLATION ? 1 : 0;
  }
  if (pos[0] == "exec" && pos.size() >= 2) {   // in-process, for a debugger
    Plan p; std::string err; if (!Plan::parse(slurp(pos[1]), p, err)) return 2;
    run_plan_here(p);
  }
  if (pos[0] == "min" && pos.size() >= 3) {
    Plan p; std::string err; if (!Plan::parse(slurp(pos[1]), p, err)) { cleanup(); return 2; }
    run_plan(p); if (out->status != RS_VIOLATION) { printf("not reproduced\n"); cleanup(); return 3; }
    std::string sig = out->sig; long full = cpu_limit; double secs = atof(get("seconds", "60").c_str());
    if (sig == "hang") { cpu_limit = 2; secs *= 4; }   // a shorter patience while looking for a smaller plan
    p = minimise(p, sig, secs); cpu_limit = full;
    run_plan(p); std::string h1 = std::to_string(out->hash); bool v1 = out->status == RS_VIOLATION && sig == out->sig; std::string msg = out->msg;
    run_plan(p); bool same_hash = h1 == std::to_string(out->hash) && v1;
    std::ofstream o(pos[2]); o << p.text() << "# sig " << sig << "\n# msg " << msg << "\n# hash " << h1 << "\n"; o.close();
    printf("minimised lines=%zu deterministic=%d sig=%s\n%s\n", p.body.size(), (int) same_hash, sig.c_str(), msg.c_str());
    cleanup(); return 0;
  }
  if (pos[0] == "batch" && pos.size() >= 2) {
    std::string prop = pos[1];
    u64 start = strtoull(get("start", "1").c_str(), nullptr, 10), count = strtoull(get("count", "1000000000").c_str(), nullptr, 10);
    double secs = atof(get("seconds", "10").c_str()); int workers = atoi(get("workers", "8").c_str());
    std::string dir = get("out", "/tmp/napsim-out"); mkdir(dir.c_str(), 0755);
    int max_viol = atoi(get("maxviol", "40").c_str());
    bool stop_first = get("stop", "0") == "1";
    volatile int* stopflag = (volatile int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = wall();
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; w++) {
      pid_t pid = fork();
      if (pid) { kids.push_back(pid); continue; }
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      out = map_shared();
      if (!getenv("SIM_SCRATCH")) { g_scratch += "/w" + std::to_string(w); mkdir(g_scratch.c_str(), 0777); chmod(g_scratch.c_str(), 0777); }
      std::vector<u64> tot(N_STATS, 0); u64 runs = 0, nontriv = 0, steps = 0, simns = 0, recheck = 0, nondet = 0, inconcl = 0; std::unordered_set<u64> hashes, states; std::map<std::string, int> viol; u64 faultruns = 0;
      std::map<std::string, u64> fault_combo;
      std::ofstream vf(dir + "/viol." + std::to_string(w));
      for (u64 k = (u64) w; k < count; k += (u64) workers) {
        if (wall() - t0 > secs || *stopflag) break;
        Plan p = generate(prop, start + k, tier); p.flavor = SIM_FLAVOR;
        run_plan(p);
        runs++; nontriv += (u64) (out->nontrivial != 0); steps += out->steps; simns += out->sim_ns;
        for (int i = 0; i < N_STATS; i++) tot[(size_t) i] += out->counters[i];
        bool f = false; for (size_t i = 0; i < stat_names().size(); i++) if (stat_names()[i].rfind("fault_", 0) == 0 && stat_names()[i] != "fault_heap_garbage" && out->counters[i]) f = true; faultruns += f;
        if (hashes.size() < 2000000 && out->nontrivial) hashes.insert(out->hash);
        if (states.size() < 2000000) states.insert(out->states);
        if (out->status == RS_VIOLATION) {
          std::string sig = out->sig, msg = out->msg; u64 h = out->hash;
          int n = viol[sig]++; bool reproduced = false;
          if (n < 2 && (int) viol.size() <= max_viol) {
            // must reproduce exactly in a fresh process
            run_plan(p); bool rep = out->status == RS_VIOLATION && sig == out->sig && (h == out->hash || sig == "hang"); reproduced = rep;
            std::string f2 = dir + "/plan." + std::to_string(start + k) + ".txt";
            std::ofstream o(f2); o << p.text();
            vf << (start + k) << "\t" << sig << "\t" << (rep ? "repro" : "flaky") << "\t" << f2 << "\t" << msg.substr(0, 400) << std::endl;
          }
          if (stop_first && reproduced) { *stopflag = 1; break; }
        } else if (out->status == RS_SKIP) { inconcl++;
        } else if (runs % 64 == 1) {
          u64 h = out->hash; run_plan(p); recheck++; if (out->hash != h || out->status == RS_VIOLATION) { nondet++; vf << (start + k) << "\tnondeterminism\tflaky\t-\tsame plan, two processes, different execution" << std::endl; }
        }
      }
      std::ofstream j(dir + "/stat." + std::to_string(w));
      j << runs << " " << nontriv << " " << steps << " " << simns << " " << recheck << " " << nondet << " " << faultruns << " " << inconcl << "\n";
      for (int i = 0; i < N_STATS; i++) j << tot[(size_t) i] << " "; j << "\n";
      for (auto& [s, n] : viol) j << "V\t" << n << "\t" << s << "\n";
      std::ofstream hf(dir + "/hash." + std::to_string(w), std::ios::binary);
      for (u64 h : hashes) hf.write((const char*) &h, 8); hf.close();
      std::ofstream sf(dir + "/state." + std::to_string(w), std::ios::binary);
      for (u64 h : states) sf.write((const char*) &h, 8); sf.close();
      j.close(); vf.close();
      _exit(0);
    }
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); }
    // merge
    std::vector<u64> tot(N_STATS, 0); u64 v[8] = {0}; std::unordered_set<u64> hashes, states; std::map<std::string, u64> viol;
    for (int w = 0; w < workers; w++) {
      std::ifstream j(dir + "/stat." + std::to_string(w)); std::string line;
      if (!std::getline(j, line)) continue;
      { std::istringstream s(line); for (auto& x : v) { u64 t; if (s >> t) x += t; } }
      if (std::getline(j, line)) { std::istringstream s(line); for (auto& x : tot) { u64 t; if (s >> t) x += t; } }
      while (std::getline(j, line)) if (line[0] == 'V') { size_t t1 = line.find('\t'), t2 = line.find('\t', t1 + 1); viol[line.substr(t2 + 1)] += strtoull(line.c_str() + t1 + 1, nullptr, 10); }
      for (auto* nm : {"hash", "state"}) { std::ifstream f(dir + "/" + nm + "." + std::to_string(w), std::ios::binary); u64 h; while (f.read((char*) &h, 8)) (nm[0] == 'h' ? hashes : states).insert(h); }
    }
    double el = wall() - t0;
    std::ostringstream o;
    o << "{\"prop\":\"" << prop << "\",\"flavor\":\"" SIM_FLAVOR "\",\"start\":" << start << ",\"runs\":" << v[0] << ",\"nontrivial\":" << v[1] << ",\"steps\":" << v[2] << ",\"sim_ns\":" << v[3] << ",\"rechecks\":" << v[4] << ",\"nondeterministic\":" << v[5] << ",\"fault_runs\":" << v[6] << ",\"inconclusive\":" << v[7] << ",\"distinct\":" << hashes.size() << ",\"states\":" << states.size() << ",\"wall\":" << el << ",\"counters\":{";
    bool first = true; for (size_t i = 0; i < stat_names().size(); i++) if (tot[i]) { o << (first ? "" : ",") << "\"" << stat_names()[i] << "\":" << tot[i]; first = false; }
    o << "},\"violations\":{"; first = true; for (auto& [s, n] : viol) { o << (first ? "" : ",") << "\"" << jesc(s) << "\":" << n; first = false; }
    o << "}}\n";
    std::ofstream sum(dir + "/summary.json"); sum << o.str(); sum.close();
    fputs(o.str().c_str(), stdout);
    cleanup(); return 0;
  }
  cleanup();
  return 2;
}
