#include "core.hpp"
#include <cxxabi.h>
#include <chrono>
#include <exception>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals { void* caught; unsigned int uncaught; }; }

namespace sim {
Shared* out = nullptr;
thread_local bool in_code = false;
Sched* sched = nullptr;
Clock vclock;
AllocCtl alloc_ctl;
u64 step_budget = 40000000;

Words split(const std::string& s) {
  Words w; std::istringstream ss(s); std::string t;
  while (ss >> t) w.push_back(t);
  return w;
}
std::string join(const Words& w, size_t from) {
  std::string s;
  for (size_t i = from; i < w.size(); i++) { if (i > from) s += ' '; s += w[i]; }
  return s;
}
std::string Plan::text() const {
  std::string s = "napsat-sim-plan 1\n";
  s += "prop " + prop + "\nflavor " + flavor + "\nworld " + world + "\nseed " + std::to_string(seed) + "\n";
  for (auto& h : head) s += "head " + join(h) + "\n";
  for (auto& b : body) s += join(b) + "\n";
  return s;
}
bool Plan::parse(const std::string& text, Plan& o, std::string& err) {
  std::istringstream ss(text); std::string line; bool first = true;
  o = Plan();
  while (std::getline(ss, line)) {
    if (line.empty() || line[0] == '#') continue;
    Words w = split(line);
    if (w.empty()) continue;
    if (first) { if (w[0] != "napsat-sim-plan") { err = "not a plan"; return false; } first = false; continue; }
    if (w[0] == "prop" && w.size() > 1) o.prop = w[1];
    else if (w[0] == "flavor" && w.size() > 1) o.flavor = w[1];
    else if (w[0] == "world" && w.size() > 1) o.world = w[1];
    else if (w[0] == "seed" && w.size() > 1) o.seed = strtoull(w[1].c_str(), nullptr, 10);
    else if (w[0] == "head" && w.size() > 1) o.head.emplace_back(w.begin() + 1, w.end());
    else o.body.push_back(w);
  }
  if (first) { err = "empty plan"; return false; }
  return true;
}

// ------------------------------------------------------------------ counters
static std::vector<std::string>& names() { static std::vector<std::string> v; return v; }
int stat_id(const char* name) {
  auto& v = names();
  for (size_t i = 0; i < v.size(); i++) if (v[i] == name) return (int) i;
  if (v.size() >= N_STATS) return N_STATS - 1;
  Harness h;
  v.push_back(name);
  return (int) v.size() - 1;
}
const std::vector<std::string>& stat_names() { return names(); }
void register_all_stats() {
  // fixed order so that parent and children agree
  static const char* all[] = {
    "op_add","op_addp","op_newvar","op_solve","op_limit","op_propagate","op_decide","op_assume","op_forget",
    "op_sync","op_suggest","op_weight","op_block","op_parse","op_core","op_ccore","op_proof","op_recreate","op_stats",
    "answer_sat","answer_unsat","answer_unknown","limit_interrupted","assume_ok","assume_refused",
    "conflict_learned","clause_deleted","clause_shrunk","restart_like","checkpoints","commands","command_invalid","command_delete","notifications",
    "quiescent_checks","entailment_checks","proof_checked","core_checked","root_checked",
    "fault_switch","fault_clock_jump","fault_alloc_fail","fault_conflict_limit","fault_heap_garbage","fault_command",
    "fault_short_read","fault_eintr","fault_io_error","fault_open_error","fault_truncate","fault_bitflip","fault_torn","fault_lost_tail",
    "fault_concat","fault_abandon","fault_writer_crash",
    "io_parse_ok","io_parse_refused","io_parse_exception","io_plain","io_xz","io_bz2",
    "cont_ops","cont_cross_word","cont_resize","heap_ops","avl_ops","luby_ops","dep_ops","bitset_ops",
    "fault_stall","fault_oom_fatal","cli_runs","models_enumerated","chunk_growth","second_flavor","cont_iter","proof_steps","op_trail_check",
    "strategy_ncb","strategy_cb","strategy_lscb","strategy_gb","strategy_gb_lcm","strategy_gb_ecm","clients","watch_checks",
    "options_read","options_refused","fault_command_line",
    "accounts_balanced","stats_judged","suggestions_followed","founded_checks","propagation_checks"
  };
  for (auto* n : all) stat_id(n);
}

void mix(u64 v) { out->hash = (out->hash ^ v) * 0x100000001B3ull; out->hash ^= out->hash >> 29; }
u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001B3ull; } return h; }
void mix(const std::string& s) { mix(hash_str(s)); }
void fingerprint(u64 v) { out->states = (out->states * 0x9E3779B97F4A7C15ull) ^ (v + (out->states >> 31)); }

void run_exit() { _exit(0); }
static bool reporting = false;
void violation(const std::string& sig, const std::string& msg) {
  in_code = false;
  if (!reporting) {
    reporting = true;
    snprintf(out->sig, sizeof out->sig, "%s", sig.c_str());
    snprintf(out->msg, sizeof out->msg, "%s", msg.c_str());
    out->status = RS_VIOLATION;
  }
  run_exit();
}
bool slow_ok = false;
void inconclusive() { in_code = false; if (!reporting) { reporting = true; out->status = RS_SKIP; } run_exit(); }
void finish_ok() { in_code = false; if (out->status == RS_NONE) out->status = RS_OK; run_exit(); }

// ----------------------------------------------------------------- scheduler
struct Sched::Fiber {
  ucontext_t ctx;
  void* stack = nullptr; size_t size = 0;
  std::function<void()> body;
  bool done = false;
  bool in_code_saved = false;
  __cxxabiv1::__cxa_eh_globals eh{nullptr, 0};
  void* fake = nullptr;
};
static ucontext_t main_ctx;
[[maybe_unused]] static void* main_fake = nullptr;
#if SIM_ASAN
static const void* main_bottom = nullptr; static size_t main_size = 0;
#endif

static void fiber_entry() {
  Sched* s = sched;
#if SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, s->fibers[s->cur]->fake ? nullptr : &main_bottom, s->fibers[s->cur]->fake ? nullptr : &main_size);
#endif
  s->fibers[s->cur]->body();
  s->fibers[s->cur]->done = true;
  // pick another unfinished fiber, or return to main
  int n = (int) s->fibers.size(), next = -1;
  for (int k = 1; k <= n; k++) { int j = (s->cur + k) % n; if (!s->fibers[j]->done) { next = j; break; } }
  s->yield_to(next);
  abort();
}

void Sched::add(std::function<void()> body) {
  auto* f = new Fiber();
  f->body = std::move(body);
  f->size = 8u << 20;
  f->stack = mmap(nullptr, f->size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = f->size;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)()) fiber_entry, 0);
  fibers.push_back(f);
  points.emplace_back();
  crossings.push_back(0);
}
Sched::~Sched() { for (auto* f : fibers) { munmap(f->stack, f->size); delete f; } }

void Sched::yield_to(int next) {
  auto* g = (__cxxabiv1::__cxa_eh_globals*) __cxxabiv1::__cxa_get_globals();
  int prev = cur;
  ucontext_t* from = prev >= 0 ? &fibers[prev]->ctx : &main_ctx;
  ucontext_t* to = next >= 0 ? &fibers[next]->ctx : &main_ctx;
  if (prev >= 0) { fibers[prev]->in_code_saved = in_code; fibers[prev]->eh = *g; }
  if (next >= 0) { in_code = fibers[next]->in_code_saved; *g = fibers[next]->eh; }
  else in_code = false;
  cur = next;
#if SIM_ASAN
  void** save = prev >= 0 ? &fibers[prev]->fake : &main_fake;
  bool dying = prev >= 0 && fibers[prev]->done;
  const void* bottom = next >= 0 ? fibers[next]->stack : main_bottom;
  size_t sz = next >= 0 ? fibers[next]->size : main_size;
  __sanitizer_start_switch_fiber(dying ? nullptr : save, bottom, sz);
#endif
  swapcontext(from, to);
#if SIM_ASAN
  __sanitizer_finish_switch_fiber(prev >= 0 ? fibers[prev]->fake : main_fake, nullptr, nullptr);
#endif
}

void Sched::run() {
  if (fibers.empty()) return;
  active = true;
  yield_to(0);
  active = false;
}

void crossing(Seam) {
  out->steps++;
  vclock.advance(Clock::step_ns);
  if (out->steps > step_budget) {
    in_code = false;
    if (slow_ok || may_exhaust) inconclusive();
    violation("no-progress", "no verdict within " + std::to_string(step_budget) + " simulated steps");
  }
  if (!sched || !sched->active || sched->cur < 0) return;
  int me = sched->cur;
  u64 n = ++sched->crossings[me];
  auto& pts = sched->points[me];
  if (sched->hold) return;
  while (!pts.empty() && pts.front().at <= n) {
    int to = pts.front().to;
    pts.erase(pts.begin());
    if (to == me || to < 0 || to >= (int) sched->fibers.size() || sched->fibers[to]->done) continue;
    SIM_COUNT("fault_switch");
    sched->switches++;
    mix(0x5157ull + (u64) to * 131 + n);
    sched->yield_to(to);
    break;
  }
}

// ------------------------------------------------------------------ handlers
bool may_exhaust = false, exhausted = false;
static volatile int terminating = 0; static int fatal_oom_stat = 0;
static void on_signal(int sig, siginfo_t*, void*) {
  // containers with non-throwing operations stop the process when memory runs out: that is fail-stop, not a wrong answer
  if (sig == SIGABRT && terminating && alloc_ctl.failed && !reporting) { reporting = true; out->counters[fatal_oom_stat]++; out->status = RS_OK; _exit(0); }
  if (sig == SIGABRT && terminating && may_exhaust && exhausted && !reporting) { reporting = true; out->status = RS_SKIP; _exit(0); }
  if ((slow_ok || may_exhaust) && (sig == SIGVTALRM || sig == SIGALRM) && !reporting) { out->status = RS_SKIP; _exit(0); }
  // async-signal context: only touch the shared page
  const char* n = sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGBUS ? "crash:SIGBUS" : sig == SIGFPE ? "crash:SIGFPE"
    : sig == SIGILL ? "crash:SIGILL" : sig == SIGABRT ? "crash:SIGABRT"
    : (sig == SIGVTALRM || sig == SIGALRM || sig == SIGXCPU) ? "hang" : "crash:signal";
  if (!reporting) {
    reporting = true;
    strncpy(out->sig, n, sizeof out->sig - 1);
    strncpy(out->msg, n, sizeof out->msg - 1);
    out->status = RS_VIOLATION;
  }
  _exit(0);
}
static void on_terminate() { terminating = 1; abort(); }
void install_handlers() {
  fatal_oom_stat = stat_id("fault_oom_fatal");
  std::set_terminate(on_terminate);
  static char* alt = nullptr;
  if (!alt) alt = (char*) mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
#if SIM_ASAN
  int sigs[] = {SIGABRT, SIGVTALRM, SIGALRM};
#else
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM};
#endif
  for (int s : sigs) sigaction(s, &sa, nullptr);
}
static int devnull = -1;
void silence_output() {
  if (getenv("SIM_VERBOSE")) return;
  devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
#if !SIM_ASAN
  dup2(devnull, 2);
#else
  if (!getenv("SIM_ASAN_STDERR")) dup2(devnull, 2);
#endif
}
} // namespace sim

// ------------------------------------------------- interposed library symbols
extern "C" [[noreturn]] void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) noexcept {
  const char* base = strrchr(file, '/'); base = base ? base + 1 : file;
  // keep the signature stable under line shifts
  std::string sig = std::string("assert:") + base + ":" + std::string(expr).substr(0, 110);
  if (!sim::out) { fprintf(stderr, "%s\n", sig.c_str()); _exit(3); }
  sim::violation(sig, std::string("assertion failed: ") + expr + " (" + base + ":" + std::to_string(line) + ", " + std::string(func).substr(0, 120) + ")");
}
#if SIM_ASAN
extern "C" void __asan_on_error() {
  if (sim::out && !sim::out->status) {
    strncpy(sim::out->sig, "asan", sizeof sim::out->sig - 1);
    strncpy(sim::out->msg, "AddressSanitizer error in code under test", sizeof sim::out->msg - 1);
    sim::out->status = sim::RS_VIOLATION;
  }
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_odr_violation=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
#endif

namespace std { namespace chrono { inline namespace _V2 {
  // The solver reads time only through std::chrono clocks; these definitions take
  // precedence over libstdc++'s: virtual time. The wall clock may jump either way,
  // the steady clock only moves forward; a stall moves both.
  system_clock::time_point system_clock::now() noexcept {
    using namespace sim;
    if (in_code) {
      vclock.on_read();
      auto it = vclock.jumps.find(vclock.reads);
      if (it != vclock.jumps.end()) { vclock.skew_ns += it->second; SIM_COUNT("fault_clock_jump"); }
      crossing(SEAM_CLOCK);
    }
    return time_point(duration(1700000000000000000ll + vclock.elapsed_ns + vclock.skew_ns));
  }
  steady_clock::time_point steady_clock::now() noexcept {
    using namespace sim;
    if (in_code) { vclock.on_read(); crossing(SEAM_CLOCK); }
    return time_point(duration(1000000000ll + vclock.elapsed_ns));
  }
}}}
namespace sim {
void Clock::advance(i64 d) { elapsed_ns += d; if (out) out->sim_ns += (u64) d; }
void Clock::on_read() {
  reads++; advance(tick);
  auto it = stalls.find(reads);
  if (it != stalls.end()) { advance(it->second); stalled_ns += (u64) it->second; SIM_COUNT("fault_stall"); }
}
}

// Memory of the code under test comes from an arena of its own, at a fixed
// address: what it gets depends on its own history only, never on the harness's.
// Blocks carry guards; released blocks are overwritten and reused last.
namespace sim {
#if !SIM_ASAN
struct Block { u64 size; u64 seq; void* by; u64 magic; };   // by: who asked for it
static constexpr u64 M_LIVE = 0x5A11CE5A11CE5A11ull, M_FREE = 0xDEADDEADDEADDEADull, M_TAIL = 0xC0DEC0DEC0DEC0DEull;
static constexpr size_t ARENA = size_t(5) << 29;
static char* const arena_base = (char*) 0x100000000000ull;
static char* arena_top = nullptr;
struct FreeNode { FreeNode* next; };
static FreeNode *fl_head[128], *fl_tail[128];
static int size_class(size_t n, size_t& rounded) {
  if (n < 16) n = 16;
  int b = 63 - __builtin_clzll(n); size_t p = size_t(1) << b;
  if (n == p) { rounded = p; return 2 * b; }
  if (n <= p + p / 2) { rounded = p + p / 2; return 2 * b + 1; }
  rounded = 2 * p; return 2 * b + 2;
}
static bool in_arena(void* p) { return (char*) p >= arena_base && (char*) p < arena_base + ARENA; }
static u64 arena_seq = 0;
static void* arena_alloc(size_t n, void* by) {
  if (!arena_top) {
    void* m = mmap(arena_base, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != arena_base) return nullptr;
    arena_top = arena_base;
  }
  size_t r; int c = size_class(n, r); r = (r + 15) & ~size_t(15);
  Block* b;
  // keep a few released blocks of each size out of circulation
  if (fl_head[c] && fl_head[c]->next) { FreeNode* f = fl_head[c]; fl_head[c] = f->next; b = (Block*) ((char*) f - sizeof(Block)); }
  else {
    if (arena_top + sizeof(Block) + r + 16 > arena_base + ARENA) return nullptr;
    b = (Block*) arena_top; arena_top += sizeof(Block) + r + 16;
  }
  b->size = n; b->magic = M_LIVE; b->seq = ++arena_seq; b->by = by; alloc_ctl.live++;
  char* p = (char*) (b + 1);
  u64 t = M_TAIL; memcpy(p + n, &t, 8);
  return p;
}
static void arena_free(void* q) {
  Block* b = (Block*) q - 1; char* p = (char*) q;
  if (b->magic == M_FREE) violation("heap:double-free", "a block of memory was released twice");
  u64 t;
  if (b->magic != M_LIVE) violation("heap:invalid-free", "memory was released that was not allocated, or the memory before a block was overwritten");
  memcpy(&t, p + b->size, 8);
  if (t != M_TAIL) violation("heap:overflow", "a block of " + std::to_string(b->size) + " bytes was written past its end");
  size_t r; int c = size_class(b->size, r);
  memset(p, 0xDD, b->size < 4096 ? b->size : 4096);
  b->magic = M_FREE; alloc_ctl.live--;
  FreeNode* f = (FreeNode*) p; f->next = nullptr;
  if (fl_tail[c] && fl_head[c]) fl_tail[c]->next = f; else fl_head[c] = f;
  fl_tail[c] = f;
}
u64 mem_mark() { return arena_seq; }
// blocks taken after the mark and still not given back
std::vector<Held> mem_held(u64 mark) {
  std::vector<Held> h;
  if (arena_top) for (char* a = arena_base; a < arena_top; ) {
    Block* b = (Block*) a; size_t r; size_class(b->size, r); r = (r + 15) & ~size_t(15);
    if (b->magic == M_LIVE && b->seq > mark) h.push_back({b->size, b->seq, b->by});
    a += sizeof(Block) + r + 16;
  }
  return h;
}
#else
u64 mem_mark() { return 0; }
std::vector<Held> mem_held(u64) { return {}; }
#endif
}
namespace sim {
void account(const std::function<void()>& workload) {
  u64 fail_at = alloc_ctl.fail_at, failed = 0; Clock start = vclock; long live[3] = {}; u64 mark = 0;
  for (int pass = 0; pass < 3; pass++) {
    vclock.skew_ns = start.skew_ns; vclock.reads = 0;
    alloc_ctl.count = 0; alloc_ctl.fail_at = pass ? fail_at : 0; mark = mem_mark();
    workload();
    in_code = false; live[pass] = alloc_ctl.live; failed = alloc_ctl.failed;
    if (size_t n = disk_handles()) violation("resources:files", std::to_string(n) + " files or decompression streams are still open after everything was deleted");
    if (pass && live[pass] <= live[pass - 1]) break;
    if (pass == 2) {
      auto h = mem_held(mark); u64 bytes = 0; for (auto& x : h) bytes += x.size;
      violation("resources:memory", "every object was deleted, but " + std::to_string(live[2] - live[1]) + " blocks of memory (of " + std::to_string(bytes) + " bytes taken and kept) were not given back" + (failed ? ", after an allocation failed" : ""));
    }
  }
  out->nontrivial = 1; SIM_COUNT("accounts_balanced");
}
}
static void* sim_alloc(size_t n, void* by) {
  (void) by;
  using namespace sim;
  if (in_code) {
    alloc_ctl.count++;
    if (alloc_ctl.fail_at && alloc_ctl.count == alloc_ctl.fail_at) {
      alloc_ctl.failed++;
      if (out) SIM_COUNT("fault_alloc_fail");
      throw std::bad_alloc();
    }
    if (n > (size_t(1) << 31)) { exhausted = true; throw std::bad_alloc(); }
#if SIM_ASAN
    void* p = malloc(n ? n : 1);
#else
    void* p = arena_alloc(n ? n : 1, by);
#endif
    if (!p) { exhausted = true; throw std::bad_alloc(); }
    memset(p, alloc_ctl.junk, n < (1u << 20) ? n : (1u << 20));
    if (out) crossing(SEAM_ALLOC);
    return p;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void sim_free(void* p) noexcept {
  if (!p) return;
#if !SIM_ASAN
  if (sim::in_arena(p)) { sim::arena_free(p); return; }
#endif
  free(p);
}
void* operator new(size_t n) { return sim_alloc(n, __builtin_return_address(0)); }
void* operator new[](size_t n) { return sim_alloc(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
