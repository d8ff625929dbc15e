#include "gen_solver.hpp"
#include <algorithm>
#include <set>
namespace sim {
std::string lits_str(const Clause& c) { std::string s; for (int l : c) s += " " + std::to_string(l); return s; }

Clause rand_clause(Rng& r, int nv, int maxlen, bool weird) {
  int n = r.range(1, maxlen); if (r.chance(0.6)) n = std::max(n, std::min(maxlen, 3));
  n = std::min(n, nv);
  Clause c;
  while ((int) c.size() < n) {
    int v = r.range(1, nv), l = r.chance(0.5) ? v : -v;
    if (!weird) { bool dup = false; for (int x : c) dup |= std::abs(x) == v; if (dup) continue; }
    c.push_back(l);
  }
  if (weird && r.chance(0.3) && !c.empty()) c.push_back(c[r.below(c.size())]);
  if (weird && r.chance(0.15) && !c.empty()) c.push_back(-c[r.below(c.size())]);
  return c;
}

static void shuffle(Rng& r, std::vector<Clause>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); for (auto& c : v) for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below(i)]); }

FormulaSpec gen_formula(Rng& r, int sc) {
  FormulaSpec f;
  if (sc == 4) {   // a small formula spread over thousands of variables: more decisions than chunks allocated at first
    f = gen_formula(r, r.pick<int>({0, 1, 1}));
    int n = r.range(4040, 4200), late = r.chance(0.6) ? n - 3 * f.nv : 1; std::set<int> used; std::vector<int> to(f.nv + 1);
    for (int v = 1; v <= f.nv; v++) { int x; do x = r.range(r.chance(0.7) ? late : 1, n); while (!used.insert(x).second); to[v] = x; }
    for (auto& c : f.cls) for (int& l : c) l = l > 0 ? to[l] : -to[-l];
    f.nv = n; f.family += "-wide"; return f;
  }
  int kind = (int) r.below(sc == 0 ? 4 : 8);
  auto ksat = [&](int nv, int k, double ratio) {
    f.nv = nv; int m = (int) (nv * ratio);
    for (int i = 0; i < m; i++) { Clause c; while ((int) c.size() < std::min(k, nv)) { int v = r.range(1, nv); bool d = false; for (int x : c) d |= std::abs(x) == v; if (!d) c.push_back(r.chance(0.5) ? v : -v); } f.cls.push_back(c); }
  };
  int lo = sc == 0 ? 2 : sc == 1 ? 6 : sc == 2 ? 15 : 40, hi = sc == 0 ? 9 : sc == 1 ? 14 : sc == 2 ? 40 : 90;
  int nv = r.range(lo, hi);
  switch (kind) {
    case 0: f.family = "3sat"; ksat(nv, 3, 3.2 + r.below(200) / 100.0); break;
    case 1: { f.family = "mixed"; f.nv = nv; int m = (int) (nv * (1.5 + r.below(300) / 100.0)); for (int i = 0; i < m; i++) f.cls.push_back(rand_clause(r, nv, r.chance(0.3) ? 5 : 3, r.chance(0.1))); break; }
    case 2: f.family = "2sat+"; ksat(nv, 2, 0.7 + r.below(80) / 100.0); for (int i = 0; i < nv; i++) f.cls.push_back(rand_clause(r, nv, 4, false)); break;
    case 3: { f.family = "planted"; f.nv = nv; std::vector<char> m(nv + 1); for (auto& x : m) x = r.chance(0.5); int k = (int) (nv * (3.5 + r.below(300) / 100.0)); for (int i = 0; i < k; i++) { Clause c = rand_clause(r, nv, 4, false); bool s = false; for (int l : c) s |= m[std::abs(l)] == (l > 0); if (!s) c[0] = -c[0]; f.cls.push_back(c); } break; }
    case 4: { // pigeonhole (possibly one clause dropped -> satisfiable)
      f.family = "php"; int holes = sc == 1 ? 3 : sc == 2 ? r.range(3, 5) : r.range(4, 6); int pig = holes + 1; if (sc == 1) { holes = 3; pig = 4; }
      f.nv = pig * holes; auto V = [&](int p, int h) { return p * holes + h + 1; };
      for (int p = 0; p < pig; p++) { Clause c; for (int h = 0; h < holes; h++) c.push_back(V(p, h)); f.cls.push_back(c); }
      for (int h = 0; h < holes; h++) for (int p = 0; p < pig; p++) for (int q = p + 1; q < pig; q++) f.cls.push_back({-V(p, h), -V(q, h)});
      if (r.chance(0.4)) f.cls.erase(f.cls.begin() + r.below(f.cls.size()));
      break; }
    case 5: { // parity chains
      f.family = "parity"; f.nv = nv; int eqs = r.range(nv / 3, nv);
      for (int e = 0; e < eqs; e++) { int a = r.range(1, nv), b = r.range(1, nv), c = r.range(1, nv); if (a == b || b == c || a == c) continue; int rhs = (int) r.below(2);
        for (int m = 0; m < 8; m++) if ((__builtin_popcount(m) & 1) != rhs) f.cls.push_back({m & 1 ? -a : a, m & 2 ? -b : b, m & 4 ? -c : c}); }
      break; }
    case 6: { // implication chains with equivalences, many units at root over time
      f.family = "chains"; f.nv = nv;
      for (int i = 1; i < nv; i++) { f.cls.push_back({r.chance(0.5) ? i : -i, r.chance(0.5) ? i + 1 : -(i + 1)}); if (r.chance(0.5)) f.cls.push_back(rand_clause(r, nv, 4, false)); }
      int u = r.range(0, 3); for (int i = 0; i < u; i++) f.cls.push_back(rand_clause(r, nv, 1, false));
      break; }
    default: { // graph colouring
      f.family = "colour"; int k = 3, n = std::max(3, nv / k); f.nv = n * k; auto V = [&](int a, int c) { return a * k + c + 1; };
      for (int a = 0; a < n; a++) { Clause c; for (int j = 0; j < k; j++) c.push_back(V(a, j)); f.cls.push_back(c); for (int j = 0; j < k; j++) for (int l = j + 1; l < k; l++) if (r.chance(0.8)) f.cls.push_back({-V(a, j), -V(a, l)}); }
      int e = (int) (n * (1.6 + r.below(120) / 100.0)); for (int i = 0; i < e; i++) { int a = (int) r.below(n), b = (int) r.below(n); if (a == b) continue; for (int j = 0; j < k; j++) f.cls.push_back({-V(a, j), -V(b, j)}); }
      break; }
  }
  if (sc <= 1 && f.nv > 14) { // keep exact-model-set reference
    std::vector<Clause> c2; for (auto& c : f.cls) { bool ok = true; for (int l : c) ok &= std::abs(l) <= 14; if (ok) c2.push_back(c); } f.cls = c2; f.nv = 14;
  }
  // rename variables, flip phases, shuffle
  std::vector<int> perm(f.nv + 1); for (int i = 0; i <= f.nv; i++) perm[i] = i;
  for (int i = f.nv; i > 1; i--) std::swap(perm[i], perm[1 + r.below(i)]);
  std::vector<char> flip(f.nv + 1); for (auto& x : flip) x = r.chance(0.5);
  for (auto& c : f.cls) for (int& l : c) { int v = std::abs(l); int w = perm[v]; l = (l > 0) != (bool) flip[v] ? w : -w; }
  shuffle(r, f.cls);
  return f;
}

Words gen_options(Rng& r, const OptSpec& o) {
  Words w;
  int strat = (int) r.below(10); // 0-1 ncb 2-3 cb 4-5 lscb 6-9 gb
  if (o.force_gb) strat = 6 + (int) r.below(4);
  if (strat <= 1) { if (r.chance(0.08)) w.push_back(r.pick<std::string>({"-lcm", "-ecm", "-bl", "-bsc", "-bfc", "-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost"})); }   // ignored without -gb
  else if (strat <= 3) w.push_back("-cb");
  else if (strat <= 5) w.push_back("-lscb");
  else {
    if (r.chance(0.06)) w.push_back(r.chance(0.6) ? "-lscb" : "-cb");   // subsumed by -gb
    w.push_back("-gb");
    int cm = (int) r.below(3); if (cm == 1) w.push_back("-lcm"); else if (cm == 2) w.push_back("-ecm");
    if (r.chance(0.03)) { w.push_back(cm == 1 ? "-ecm" : "-lcm"); if (!cm) w.push_back("-ecm"); }
    int b = (int) r.below(4); if (b == 1) w.push_back("-bsc"); else if (b == 2) w.push_back("-bfc");
    if (r.chance(0.3)) w.push_back("-bl");
    int cost = (int) r.below(6); if (cost == 1) w.push_back("-max-approx-cost"); else if (cost == 2) w.push_back("-sum-approx-cost"); else if (cost == 3) w.push_back("-vsids-approx-cost");
    if (r.chance(0.3)) { w.push_back("--chunk-level-penalty"); w.push_back(r.pick<std::string>({"0", "1", "10"})); }
    if (r.chance(0.3)) { w.push_back("--backtrack-possibilities-limit"); w.push_back(r.pick<std::string>({"1", "2", "5", "50"})); }
    if (r.chance(0.2)) { w.push_back("--sync-weight"); w.push_back(r.pick<std::string>({"0", "1", "100"})); }
  }
  if (r.chance(0.3)) { w.push_back("-del"); w.push_back(r.chance(0.5) ? "off" : "on"); }
  if (r.chance(0.3)) { w.push_back("--restarts"); w.push_back(r.chance(0.7) ? "off" : "on"); }
  if (r.chance(0.2)) { w.push_back("--var-activity-decay"); w.push_back(r.pick<std::string>({"0.5", "0.8", "0.99"})); }
  if (r.chance(0.2)) { w.push_back("--clause-elimination-multiplier"); w.push_back(r.pick<std::string>({"1.01", "1.1", "1.5"})); }
  if (r.chance(0.2)) { w.push_back("--clause-activity-multiplier"); w.push_back(r.pick<std::string>({"1.1", "2", "10"})); }
  if (r.chance(0.2)) { w.push_back("--clause-activity-threshold-decay"); w.push_back(r.pick<std::string>({"0.1", "0.5", "0.99"})); }
  if (r.chance(0.08)) {   // legal values at the edge; an option given twice counts once
    static const std::vector<std::vector<std::string>> edge = {{"--var-activity-decay", "1e-300", "0.001", "0.999999"}, {"--clause-elimination-multiplier", "1.000001", "1e9"}, {"--clause-activity-multiplier", "1.000001", "1e6"},
      {"--clause-activity-threshold-decay", "1e-9", "0.999999"}, {"--chunk-level-penalty", "10000", "0.001"}, {"--backtrack-possibilities-limit", "0", "1e9"}, {"--sync-weight", "10000"}};
    auto& e = r.pick(edge); w.push_back(e[0]); w.push_back(e[1 + r.below(e.size() - 1)]);
  }
  if (o.iuv && r.chance(o.iuv_p)) w.push_back("-iuv");
  if (o.limits) { int k = (int) r.below(3); if (k != 1) { w.push_back("-t"); w.push_back(r.pick<std::string>({"0", "0.001", "0.01", "0.1", "1", "20"})); } if (k != 0) { w.push_back("-cl"); w.push_back(std::to_string(r.logu(40))); } }
  if (o.stats && r.chance(o.stats_p)) w.push_back(r.chance(0.6) ? "-stat" : "-live-stat");
  if (o.proof) w.push_back("-bp");
  if (o.deps) w.push_back("--record-dependencies");
  if (o.interactive) w.push_back("-i");
  else if (o.attach && r.chance(o.attach_p)) w.push_back(r.chance(o.stats_p > 0.5 ? 0.1 : 0.7) ? "-c" : "-o");
  w.push_back("-ssi"); w.push_back("off");
  return w;
}
}
