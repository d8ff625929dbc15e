// Plans with files: C15 (reading DIMACS) and C22 (command line program).
#include "disk.hpp"
#include "gen_solver.hpp"
#include <algorithm>
namespace sim {
static Words W(std::initializer_list<std::string> l) { return Words(l); }

// Text of a clause list in one of many legal layouts. Returns the pieces (lines, mostly).
static std::vector<std::string> layout(Rng& r, int nv, const std::vector<Clause>& cls, bool malformed) {
  std::vector<std::string> out; std::string line;
  auto sp = [&]() { return r.chance(0.85) ? std::string(" ") : r.pick<std::string>({"\t", "  ", " \t ", "\v", "\f"}); };
  auto eol = [&]() { return r.chance(0.9) ? std::string("\n") : r.pick<std::string>({"\r\n", "\n\n", " \n", "\n \t\n"}); };
  auto comment = [&]() {
    switch (r.below(9)) {
      case 0: return std::string("c") + eol();
      case 1: return std::string("c 1 2 0") + eol();
      case 2: return std::string("  c indented") + eol();
      case 3: return std::string("cw ") + std::to_string(r.range(1, nv)) + " " + r.pick<std::string>({"1", "2.5", "7", "1e3", "abc", "1 2", "", "0x10"}) + eol();
      case 4: return std::string("cw ") + r.pick<std::string>({"0 1", "-2 1", "x 1", "1.5 2", "99999999999 1", ""}) + eol();
      case 5: return std::string("co ") + std::to_string(r.range(1, nv)) + " " + r.pick<std::string>({"x", "alpha_1", "~y", "a b", ""}) + eol();
      case 6: return std::string("co ") + r.pick<std::string>({"0 z", "-1 z", "q z", "12345678901 z"}) + eol();
      case 7: return std::string("c ") + std::string((size_t) r.logu(3000), 'x') + eol();
      default: return std::string("c p cnf 3 2") + eol();
    }
  };
  int style = (int) r.below(4);   // 0 one clause per line, 1 free, 2 all on one line, 3 mixed
  double pc = r.chance(0.5) ? 0.08 : 0;
  while (r.chance(0.3)) out.push_back(comment());
  if (r.chance(0.85)) {
    long n = nv, m = (long) cls.size();
    if (r.chance(0.15)) n = r.range(0, nv); if (r.chance(0.15)) m = (long) r.below(1000); if (r.chance(0.1)) n = nv + r.range(0, 2);
    out.push_back("p cnf " + std::to_string(n) + " " + std::to_string(m) + eol());
  }
  size_t bad = malformed && !cls.empty() ? r.below(cls.size()) : ~size_t(0);
  for (size_t i = 0; i < cls.size(); i++) {
    if (r.chance(pc)) { if (!line.empty()) { out.push_back(line + "\n"); line.clear(); } out.push_back(comment()); }
    if (i == bad) { line += r.pick<std::string>({"x", "1-2", "3.5", "--4", "0x3", "99999999999999999999", "-2147483648", "p", "1a", "+", "-", "2147483648", "n", "1,2"}) + sp(); }
    for (int l : cls[i]) {
      line += (l > 0 && r.chance(0.02) ? "+" : "") + std::string(r.chance(0.01) ? (l < 0 ? "-00" : "00") : (l < 0 ? "-" : "")) + std::to_string(std::abs(l));
      if ((style == 1 || style == 3) && r.chance(0.1)) { out.push_back(line + eol()); line.clear(); if (r.chance(pc)) out.push_back(comment()); } else line += sp();
    }
    line += r.chance(0.02) ? "-0" : "0";
    if (style == 0 || (style != 2 && r.chance(0.5))) { out.push_back(line + eol()); line.clear(); if (r.chance(0.02)) out.push_back("p cnf 500 3\n"); } else line += sp();
  }
  if (!line.empty()) out.push_back(line + (r.chance(0.5) ? eol() : std::string()));
  if (r.chance(0.06)) out.push_back("%\n0\nthis is not read\n");
  else if (r.chance(0.08) && !out.empty()) { // no zero, no newline at the end of the file
    std::string& l = out.back(); while (!l.empty() && (l.back() == '\n' || l.back() == '\r' || l.back() == ' ' || l.back() == '\t')) l.pop_back();
    if (l.size() > 2 && l.back() == '0' && (l[l.size() - 2] == ' ')) l.resize(l.size() - 2); }
  return out;
}

void gen_file(Plan& p, Rng& r, int k, int nv, const std::vector<Clause>& cls, const std::vector<int>& older, double p_fault, const std::string& force_fmt) {
  std::string fmt = force_fmt.empty() ? r.pick<std::string>({"plain", "plain", "bare", "xz", "xz", "bz2", "bz2"}) : force_fmt;
  Words h = W({"file", std::to_string(k), fmt});
  if (r.chance(0.02)) h.push_back(r.pick<std::string>({"plain", "xz", "bz2"}));
  p.head.push_back(h);
  auto text = layout(r, nv, cls, r.chance(0.06));
  size_t total = 0;
  double split = (fmt == "xz" || fmt == "bz2") && r.chance(0.35) ? 0.1 : 0;
  for (auto& t : text) { total += t.size(); if (t.empty()) continue; p.body.push_back(W({"data", std::to_string(k), escape(t)})); if (r.chance(split)) p.body.push_back(W({"data", std::to_string(k), "|"})); }
  if (!r.chance(p_fault)) return;
  int n = 1 + (int) r.logu(3);
  size_t span = total + 40;
  for (int i = 0; i < n; i++) {
    std::string K = std::to_string(k);
    switch (r.below(14)) {
      case 0: p.body.push_back(W({"disk", K, "truncate", std::to_string(r.below(span))})); break;
      case 1: p.body.push_back(W({"disk", K, "bitflip", std::to_string(r.below(span)), std::to_string(r.below(8))})); break;
      case 2: p.body.push_back(W({"disk", K, "torn", std::to_string(r.below(span)), r.pick<std::string>({"0", "32", "255"})})); break;
      case 3: p.body.push_back(W({"disk", K, "lost_tail", std::to_string(r.below(span))})); break;
      case 4: if (!older.empty()) p.body.push_back(W({"disk", K, "stale", std::to_string(r.below(span)), std::to_string(r.pick(older))})); break;
      case 5: if (r.chance(0.3)) p.body.push_back(W({"disk", K, "garbage", std::to_string(r.range(1, 300)), std::to_string(r.below(256))})); else p.body.push_back(W({"disk", K, "dup", std::to_string(r.below(span))})); break;
      case 6: case 7: case 8: p.body.push_back(W({"rd", K, "short", std::to_string(r.logu(30)), std::to_string(r.logu(200))})); break;
      case 9: case 10: p.body.push_back(W({"rd", K, "eintr", std::to_string(r.logu(20))})); break;
      case 11: p.body.push_back(W({"rd", K, "eio", std::to_string(r.logu(20))})); break;
      case 12: p.body.push_back(W({"rd", K, "stall", std::to_string(r.logu(20)), std::to_string(r.logu(10000000000ull))})); break;
      case 13: p.body.push_back(W({"openfail", K, r.pick<std::string>({"2", "13", "24", "12"}), std::to_string(r.range(1, 2))})); break;
    }
  }
}

static Plan gen_parse_plan(const std::string& prop, u64 seed, bool deep) {
  Plan p; p.prop = prop; p.seed = seed; p.world = "solver";
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str(prop));
  int n = r.chance(0.35) ? r.range(2, 3) : 1, mv = 0, nf = 0; bool slow_ok = false;
  p.head.push_back(W({"junk", std::to_string(r.below(256))}));
  double pf = r.chance(0.35) ? 0 : 0.8;
  for (int c = 0; c < n; c++) {
    OptSpec o; o.iuv = false; o.proof = r.chance(0.1);
    Words cl = W({"client", std::to_string(c)}); Words ow = gen_options(r, o); cl.insert(cl.end(), ow.begin(), ow.end()); p.head.push_back(cl);
    bool gb = std::find(ow.begin(), ow.end(), "-gb") != ow.end();
    int cls = r.pick<int>({0, 0, 1, 1, 1, 2}); if (deep && r.chance(0.2)) cls = gb ? 2 : 3;
    FormulaSpec f = gen_formula(r, cls); mv = std::max(mv, f.nv); slow_ok |= gb && f.nv > 14;
    if (r.chance(0.5) && f.cls.size() > 6) f.cls.resize(f.cls.size() * (size_t) r.range(30, 100) / 100);
    if (r.chance(0.3)) for (int i = 0; i < 3; i++) f.cls.insert(f.cls.begin() + (long) r.below(f.cls.size() + 1), rand_clause(r, f.nv, 4, true));
    if (r.chance(0.01)) f.cls.push_back({});
    int files = r.range(1, 3); size_t pos = 0; std::vector<int> older;
    auto op = [&](const std::string& t) { Words w{"op", std::to_string(c)}; Words x = split(t); w.insert(w.end(), x.begin(), x.end()); p.body.push_back(w); };
    for (int i = 0; i < files; i++) {
      size_t end = i == files - 1 ? f.cls.size() : pos + r.below(f.cls.size() - pos + 1);
      if (r.chance(0.3)) { size_t k = r.below(3); for (; k && pos < end; k--, pos++) op("add" + lits_str(f.cls[pos])); }
      std::vector<Clause> part(f.cls.begin() + (long) pos, f.cls.begin() + (long) end); pos = end;
      gen_file(p, r, nf, f.nv, part, older, pf, "");
      op("parse " + std::to_string(nf)); older.push_back(nf); nf++;
      if (r.chance(0.5)) op("solve");
      if (r.chance(0.2)) op("newvar");
      if (r.chance(0.2)) op("decide 0");
      if (r.chance(0.1)) op("parse " + std::to_string(nf - 1));   // the same file again
    }
    op("solve"); op("enum"); if (o.proof) op("proof");
  }
  p.head.push_back(W({"maxvar", std::to_string(mv)}));
  if (slow_ok) p.head.push_back(W({"slow_ok", "1"}));
  if (n > 1) for (int c = 0; c < n; c++) {
    int k = (int) r.logu(32); u64 span = r.pick<u64>({20, 200, 3000});
    for (int i = 0; i < k; i++) { int to = (int) r.below((u64) n - 1); if (to >= c) to++; p.body.push_back(W({"switch", std::to_string(c), std::to_string(1 + r.below(span)), std::to_string(to)})); }
  }
  if (r.chance(0.1)) p.body.push_back(W({"fault", "alloc", std::to_string(r.logu(4000))}));
  return p;
}
Plan gen_cont_plan(const std::string& prop, u64 seed, bool deep);
Plan gen_cli_plan(const std::string& prop, u64 seed, bool deep);
Plan gen_opts_plan(const std::string& prop, u64 seed, bool deep);
Plan generate_other(const std::string& prop, u64 seed, bool deep) {
  if (prop == "C15") return gen_parse_plan(prop, seed, deep);
  if (prop == "C22") return gen_cli_plan(prop, seed, deep);
  if (prop == "C26") return gen_opts_plan(prop, seed, deep);
  return gen_cont_plan(prop, seed, deep);
}
}
