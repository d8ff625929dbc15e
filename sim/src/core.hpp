// Simulation kernel: seeded randomness, plans, seams (scheduler, clock,
// allocator), failure reporting. Everything a run does is a function of its plan.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int) below((u64) (hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // log-uniform integer in [1, hi]
  u64 logu(u64 hi) {
    int bits = 0; while ((hi >> bits) > 1) bits++;
    u64 b = below(bits + 1);
    u64 v = (1ull << b) + below(1ull << b);
    return v > hi ? hi : v;
  }
};

// ---------------------------------------------------------------------- plan
// A plan is plain text. Header lines fix the world; body lines (op/switch/fault)
// are what the minimiser may drop.
using Words = std::vector<std::string>;
Words split(const std::string& s);
std::string join(const Words& w, size_t from = 0);

struct Plan {
  std::string prop, flavor, world;
  u64 seed = 0;
  std::vector<Words> head;  // e.g. {"client","0","-gb"}
  std::vector<Words> body;
  std::string text() const;
  static bool parse(const std::string& text, Plan& out, std::string& err);
  const Words* find(const std::string& key) const { for (auto& h : head) if (h[0] == key) return &h; return nullptr; }
  long num(const std::string& key, long dflt) const { auto* w = find(key); return w && w->size() > 1 ? std::atol((*w)[1].c_str()) : dflt; }
};

// ------------------------------------------------------------------- results
enum RunStatus : int { RS_NONE = 0, RS_OK = 1, RS_VIOLATION = 2, RS_SKIP = 3 };
constexpr int N_STATS = 116;
struct Shared {          // lives in a MAP_SHARED page: survives the run's process
  volatile int status;
  char sig[200];
  char msg[1600];
  u64 hash;              // hash of everything observed
  u64 steps;             // seam crossings
  u64 sim_ns;            // virtual time advanced
  u64 states;            // state fingerprint (coarse)
  u64 counters[N_STATS];
  int nontrivial;        // the run exercised the property
};
extern Shared* out;

// named counters (fault kinds, op kinds, probes). Registered by name, stable order.
int stat_id(const char* name);
const std::vector<std::string>& stat_names();
#define SIM_COUNT(name) do { static const int _sid = ::sim::stat_id(name); ::sim::out->counters[_sid]++; } while (0)
#define SIM_COUNTN(name, n) do { static const int _sid = ::sim::stat_id(name); ::sim::out->counters[_sid] += (n); } while (0)
void register_all_stats();

// Record the violation and end the run's process.
[[noreturn]] void violation(const std::string& sig, const std::string& msg);
[[noreturn]] void finish_ok();
[[noreturn]] void inconclusive();   // the run took too long to judge (only where slow_ok)
extern bool slow_ok;
[[noreturn]] void run_exit();
void mix(u64 v);              // fold into the run's hash
void mix(const std::string& s);
u64 hash_str(const std::string& s);
void fingerprint(u64 v);      // coarse state coverage

struct StopRun {};            // thrown by nobody; reserved

// ------------------------------------------------------------- seams / world
extern thread_local bool in_code;     // true while code under test is running
struct Code {                          // scope guard: code under test runs
  bool saved;
  Code() : saved(in_code) { in_code = true; }
  ~Code() { in_code = saved; }
};
struct Harness {                       // scope guard: harness runs inside a callback
  bool saved;
  Harness() : saved(in_code) { in_code = false; }
  ~Harness() { in_code = saved; }
};

// Scheduler: clients are fibers, one runs at a time.
struct Sched {
  struct SwitchPoint { u64 at; int to; };
  void add(std::function<void()> body);
  void run();                                  // until all finished
  int current() const { return cur; }
  std::vector<std::vector<SwitchPoint>> points; // per client, sorted by at
  std::vector<u64> crossings;
  u64 switches = 0;
  // implementation
  struct Fiber;
  std::vector<Fiber*> fibers;
  int cur = -1;
  bool active = false;
  int hold = 0;               // process-wide stdout is being captured: no switch
  void yield_to(int next);
  ~Sched();
};
extern Sched* sched;
// a point where the simulator may take control (called from seams)
enum Seam { SEAM_NOTIFY, SEAM_ALLOC, SEAM_CLOCK, SEAM_OP, SEAM_IO };
void crossing(Seam s);

// Virtual clock
struct Clock {
  i64 skew_ns = 0;            // accumulated wall clock jumps
  u64 reads = 0;
  std::map<u64, i64> jumps;   // at n-th read, jump by delta
  std::map<u64, i64> stalls;  // at n-th read, the whole process stalls (both clocks move on)
  i64 tick = 1000;            // ns per read
  i64 elapsed_ns = 0;         // monotonic time
  u64 stalled_ns = 0;
  static constexpr i64 step_ns = 20;   // simulated cost of one seam crossing
  void advance(i64 d);
  void on_read();
};
extern Clock vclock;

// Allocation faults: per client, fail the k-th allocation made by code under test
struct AllocCtl {
  u64 count = 0;
  u64 fail_at = 0;    // 0 = never
  u64 failed = 0;
  unsigned char junk = 0xA5;
  long live = 0;
};
extern AllocCtl alloc_ctl;
struct Held { u64 size, seq; void* by; };
u64 mem_mark();                           // memory taken by the code under test from here on ...
std::vector<Held> mem_held(u64 mark);     // ... and not given back (none under asan, which has no arena)
// Runs the workload until what it holds at its end can only be a leak: first with
// no failing allocation (what the code keeps in static storage is taken then),
// then as planned, and once more if blocks are left over. Growth is a violation.
void account(const std::function<void()>& workload);
size_t disk_handles();   // files and decompression streams the code under test holds open
extern bool may_exhaust;   // the current operation names absurdly many variables: running out of memory ends the run, it is no finding
extern bool exhausted;

extern u64 step_budget;

void install_handlers();
void silence_output();     // stdout/stderr of the code under test -> /dev/null
void world_solver(const Plan& p);
void world_ingest(const Plan& p);
void world_cont(const Plan& p);
void world_proof(const Plan& p);
void world_cli(const Plan& p);
void world_opts(const Plan& p);

// generators: (property profile, seed, tier) -> plan
Plan generate(const std::string& prop, u64 seed, const std::string& tier);
std::vector<std::string> profile_flavors(const std::string& prop);
}
