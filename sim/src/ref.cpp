#include "ref.hpp"
#include <algorithm>
namespace sim {

bool RefCdcl::solve(int nv, const std::vector<Clause>& cls, const Clause& assumps, std::vector<char>* model) {
  // Plain CDCL with two watched literals, first-UIP learning, activity order, no deletion.
  for (auto& c : cls) for (int l : c) nv = std::max(nv, std::abs(l));
  for (int l : assumps) nv = std::max(nv, std::abs(l));
  auto ix = [](int l) { return 2 * std::abs(l) + (l < 0); };
  std::vector<Clause> db;
  std::vector<std::vector<int>> watch(2 * nv + 2);
  std::vector<signed char> val(nv + 1, 0);
  std::vector<int> level(nv + 1, 0), reason(nv + 1, -1), trail, lims;
  std::vector<double> act(nv + 1, 0.0); double inc = 1;
  std::vector<char> seen(nv + 1, 0), phase(nv + 1, 0);
  size_t qh = 0;
  auto value = [&](int l) { return l > 0 ? val[l] : -val[-l]; };
  auto enqueue = [&](int l, int r) { int v = std::abs(l); val[v] = l > 0 ? 1 : -1; level[v] = (int) lims.size(); reason[v] = r; trail.push_back(l); };
  auto addc = [&](Clause c) -> bool {
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return true;
    Clause d; for (int l : c) { if (value(l) > 0) return true; if (value(l) == 0) d.push_back(l); }
    if (d.empty()) return false;
    if (d.size() == 1) { enqueue(d[0], -1); return true; }
    db.push_back(d); int id = (int) db.size() - 1;
    watch[ix(d[0])].push_back(id); watch[ix(d[1])].push_back(id);
    return true;
  };
  for (auto& c : cls) if (!addc(c)) return false;
  for (int l : assumps) { Clause c{l}; if (!addc(c)) return false; }
  auto propagate = [&]() -> int {
    while (qh < trail.size()) {
      int p = trail[qh++]; auto& ws = watch[ix(-p)];
      size_t i = 0, j = 0; int confl = -1;
      for (; i < ws.size(); i++) {
        int id = ws[i]; Clause& c = db[id];
        if (c[0] == -p) std::swap(c[0], c[1]);
        if (value(c[0]) > 0) { ws[j++] = id; continue; }
        bool moved = false;
        for (size_t k = 2; k < c.size(); k++) if (value(c[k]) >= 0) { std::swap(c[1], c[k]); watch[ix(c[1])].push_back(id); moved = true; break; }
        if (moved) continue;
        ws[j++] = id;
        if (value(c[0]) < 0) { confl = id; i++; break; }
        enqueue(c[0], id);
      }
      for (; i < ws.size(); i++) ws[j++] = ws[i];
      ws.resize(j);
      if (confl >= 0) return confl;
    }
    return -1;
  };
  auto cancel = [&](int lvl) {
    while ((int) lims.size() > lvl) {
      while ((int) trail.size() > lims.back()) { int v = std::abs(trail.back()); phase[v] = val[v] > 0; val[v] = 0; trail.pop_back(); }
      lims.pop_back();
    }
    qh = std::min(qh, trail.size());
  };
  u64 conflicts = 0, restart_at = 100;
  for (;;) {
    int confl = propagate();
    if (confl >= 0) {
      if (lims.empty()) return false;
      conflicts++;
      Clause learnt{0}; int cnt = 0; size_t t = trail.size(); int p = 0; int cl = confl;
      do {
        for (int l : db[cl]) {
          if (l == p) continue;
          int v = std::abs(l);
          if (!seen[v] && level[v] > 0) {
            seen[v] = 1; act[v] += inc;
            if (level[v] == (int) lims.size()) cnt++; else learnt.push_back(l);
          }
        }
        do { t--; } while (!seen[std::abs(trail[t])]);
        p = trail[t]; cl = reason[std::abs(p)]; seen[std::abs(p)] = 0; cnt--;
      } while (cnt > 0);
      learnt[0] = -p;
      for (int l : learnt) seen[std::abs(l)] = 0;
      int bt = 0; size_t mi = 1;
      for (size_t i = 1; i < learnt.size(); i++) if (level[std::abs(learnt[i])] > bt) { bt = level[std::abs(learnt[i])]; mi = i; }
      inc *= 1.05; if (inc > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; }
      cancel(bt);
      if (learnt.size() == 1) enqueue(learnt[0], -1);
      else {
        std::swap(learnt[1], learnt[mi]); db.push_back(learnt); int id = (int) db.size() - 1;
        watch[ix(learnt[0])].push_back(id); watch[ix(learnt[1])].push_back(id); enqueue(learnt[0], id);
      }
      if (conflicts >= restart_at) { restart_at = conflicts + 100 + conflicts / 4; cancel(0); }
    } else {
      int best = 0; for (int v = 1; v <= nv; v++) if (!val[v] && (!best || act[v] > act[best])) best = v;
      if (!best) { if (model) { model->assign(nv + 1, 2); for (int v = 1; v <= nv; v++) (*model)[v] = val[v] > 0; } return true; }
      lims.push_back((int) trail.size());
      enqueue(phase[best] ? best : -best, -1);
    }
  }
}

static const u64 lowmask[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
static inline u64 word(int v, size_t w) { // v >= 1 : truth-table column, word w
  int b = v - 1;
  if (b < 6) return lowmask[b];
  return (w >> (b - 6)) & 1 ? ~0ull : 0;
}
void Formula::init(int maxvar) {
  nv = maxvar; tt = nv <= 14; clauses.clear(); implied.clear(); known_unsat = false; witness.clear();
  if (tt) table.assign(nv <= 6 ? 1 : (size_t) 1 << (nv - 6), nv >= 6 ? ~0ull : ((1ull << (1 << nv)) - 1));
  if (tt && nv < 6) table[0] = (nv == 0) ? 1 : ((1ull << (1u << nv)) - 1);
}
void Formula::add(const Clause& c) {
  clauses.push_back(c);
  if (tt) {
    for (size_t w = 0; w < table.size(); w++) {
      u64 m = 0; for (int l : c) m |= l > 0 ? word(l, w) : ~word(-l, w);
      table[w] &= m;
    }
  }
}
bool Formula::sat() const { return sat({}); }
bool Formula::sat(const Clause& a) const {
  if (tt) {
    for (size_t w = 0; w < table.size(); w++) {
      u64 m = table[w]; for (int l : a) m &= l > 0 ? word(l, w) : ~word(-l, w);
      if (m) return true;
    }
    return false;
  }
  if (known_unsat) return false;
  if (!witness.empty()) {
    bool ok = true;
    for (auto& c : clauses) { bool s = false; for (int l : c) if (witness[std::abs(l)] == (l > 0)) { s = true; break; } if (!s) { ok = false; break; } }
    for (int l : a) ok &= witness[std::abs(l)] == (l > 0);
    if (ok) return true;
  }
  std::vector<char> m; bool r;
  if (nv > 150) {   // most of the variables are free
    std::vector<int> to((size_t) nv + 1, 0), from{0}; auto map = [&](int l) { int v = std::abs(l); if (!to[v]) { to[v] = (int) from.size(); from.push_back(v); } return l > 0 ? to[v] : -to[v]; };
    std::vector<Clause> cs; for (auto& c : clauses) { Clause d; for (int l : c) d.push_back(map(l)); cs.push_back(d); }
    Clause as; for (int l : a) as.push_back(map(l));
    std::vector<char> k; r = RefCdcl::solve((int) from.size() - 1, cs, as, &k);
    if (r) { m.assign((size_t) nv + 1, 0); for (size_t i = 1; i < from.size(); i++) m[from[i]] = k[i]; }
  } else r = RefCdcl::solve(nv, clauses, a, &m);
  if (r) witness = m; else if (a.empty()) const_cast<Formula*>(this)->known_unsat = true;
  return r;
}
bool Formula::entails(const Clause& c) const {
  if (c.size() == 1 && implied.count(c[0])) return true;   // clauses are only ever added
  Clause n; for (int l : c) n.push_back(-l); if (sat(n)) return false;
  if (c.size() == 1) implied.insert(c[0]);
  return true;
}
bool Formula::satisfied_by(const std::vector<char>& val, int* bad) const {
  auto taut = [](const Clause& c) { for (int l : c) for (int k : c) if (l == -k) return true; return false; };
  for (size_t i = 0; i < clauses.size(); i++) {
    bool s = false;
    for (int l : clauses[i]) if ((size_t) std::abs(l) < val.size() && val[std::abs(l)] == (l > 0)) { s = true; break; }
    if (!s && !taut(clauses[i])) { if (bad) *bad = (int) i; return false; }
  }
  return true;
}
u64 Formula::count_models() const { u64 n = 0; for (u64 w : table) n += __builtin_popcountll(w); return n; }
}
