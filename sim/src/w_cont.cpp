// World "cont": histories over the data structures the solver stands on (sets
// of chunks, decision heap, allocation tree, dependency tracker, proof object),
// several instances at a time, with failing allocations, each operation judged
// against a small reference model.
#include "core.hpp"
#include "ref.hpp"
#include "utils/bitset.hpp"
#include "utils/heap.hpp"
#include "utils/partition.hpp"
#include "proof/dependency_tracker.hpp"
#include "proof/proof.hpp"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
namespace sim {
using napsat::Tvar; using napsat::Tlit; using napsat::Tclause;
namespace {
struct Sink : std::streambuf {
  std::string text;
  int overflow(int c) override { Harness h; if (c != EOF) text += (char) c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { Harness h; text.append(p, (size_t) n); return n; }
};
struct Capture {
  Sink sink; std::streambuf* old;
  Capture() { old = std::cout.rdbuf(&sink); }
  ~Capture() { std::cout.rdbuf(old); std::cout.clear(); }
};
i64 arg(const Words& w, size_t i) { return i < w.size() ? atoll(w[i].c_str()) : 0; }
std::string S(u64 v) { return std::to_string(v); }

struct World {
  virtual ~World() {}
  virtual void op(const Words& w) = 0;      // may throw bad_alloc
  virtual void failed(const Words& w) = 0;  // the operation ran out of memory
  virtual void finish() = 0;
};

// ------------------------------------------------------------------- bitset
struct BitsetWorld : World {
  struct Obj { std::unique_ptr<bitset> b; std::set<unsigned> m; size_t size = 0; size_t cap = 0; };
  std::vector<Obj> o;
  static size_t capOf(size_t n) { return n ? (n + 4031) / 4032 * 4032 : 4032; }
  BitsetWorld(const Plan& p) {
    o.resize((size_t) std::max(1L, p.num("objs", 3)));
    size_t n = (size_t) p.num("size", 100);
    for (auto& x : o) make(x, n);
  }
  void make(Obj& x, size_t n) { bitset* q; { Code c; q = n == 4032 ? new bitset() : new bitset(n); } x.b.reset(q); x.size = n; x.m.clear(); x.cap = capOf(n); }
  void check(size_t i, const char* what) {
    Obj& x = o[i];
    auto bad = [&](const std::string& sig, const std::string& m) { violation(sig, std::string("after ") + what + ": " + m); };
    size_t cnt, cap; bool em; std::vector<unsigned> it;
    { Code c; cnt = x.b->count(); em = x.b->empty(); cap = x.b->capacity(); }
    if (cap < x.size) bad("bitset:capacity", "capacity " + S(cap) + " for " + S(x.size) + " bits");
    if (cnt != x.m.size()) bad("bitset:count", "count() is " + S(cnt) + " but " + S(x.m.size()) + " bits are set");
    if (em != x.m.empty()) bad("bitset:empty", em ? "empty() although bits are set" : "not empty() although no bit is set");
    { Code c; auto e = x.b->cend(); for (auto j = x.b->cbegin(); j != e; ++j) { Harness h; it.push_back(*j); if (it.size() > x.m.size() + 2) break; } }
    if (!std::equal(it.begin(), it.end(), x.m.begin(), x.m.end())) bad("bitset:iteration", "the iterators do not visit the bits that are set, in order");
    auto probe = [&](unsigned k) { if (k >= x.size) return; bool g; { Code c; g = (*x.b)[k]; } if (g != (x.m.count(k) > 0)) bad("bitset:get", "bit " + S(k) + " is " + (g ? "set" : "clear")); };
    int n = 0; for (unsigned k : x.m) { probe(k); probe(k + 1); if (k) probe(k - 1); probe(k + 64); if (++n > 40) break; }
    probe(0); probe((unsigned) x.size - 1); mix(cnt);
  }
  bool same(size_t a, size_t b) { return o[a].cap == o[b].cap && o[a].b->capacity() == o[b].b->capacity(); }
  static std::set<unsigned> alg(const std::string& k, const std::set<unsigned>& a, const std::set<unsigned>& b) {
    std::set<unsigned> r;
    for (unsigned x : a) { bool q = b.count(x); if ((k == "and" && q) || k == "or" || ((k == "xor" || k == "sub") && !q)) r.insert(x); }
    if (k == "or" || k == "xor") for (unsigned x : b) if (k == "or" || !a.count(x)) r.insert(x);
    return r;
  }
  void op(const Words& w) override {
    const std::string& k = w[0]; size_t i = (size_t) arg(w, 1) % o.size(), j = (size_t) arg(w, 2) % o.size(), l = (size_t) arg(w, 3) % o.size();
    Obj& x = o[i];
    if (k == "set") { if (!x.size) return; unsigned n = (unsigned) ((size_t) arg(w, 2) % x.size); bool v = arg(w, 3); { Code c; x.b->set(n, v); } if (v) x.m.insert(n); else x.m.erase(n); check(i, "set"); }
    else if (k == "fill") { if (!x.size) return; Rng r((u64) arg(w, 3)); size_t at = (size_t) arg(w, 2) % x.size; for (int q = 0; q < 80; q++) { unsigned n = (unsigned) std::min(x.size - 1, at + r.below(130)); bool v = r.chance(0.7); { Code c; x.b->set(n, v); } if (v) x.m.insert(n); else x.m.erase(n); } check(i, "a sequence of set"); }
    else if (k == "clear") { { Code c; x.b->clear(); } x.m.clear(); check(i, "clear"); }
    else if (k == "resize") { size_t n = (size_t) arg(w, 2); { Code c; x.b->resize(n); } x.size = std::max(x.size, n); x.cap = std::max(x.cap, capOf(n)); check(i, "resize"); }
    else if (k == "new") { make(x, (size_t) arg(w, 2)); check(i, "construction"); }
    else if (k == "copy") { { Code c; *x.b = *o[j].b; } x.m = o[j].m; x.size = o[j].size; x.cap = o[j].cap; check(i, "assignment"); }
    else if (k == "move") { if (i == j) return; { Code c; bitset t(std::move(*o[j].b)); *x.b = std::move(t); } x.m = o[j].m; x.size = o[j].size; x.cap = o[j].cap; make(o[j], o[j].size); check(i, "move"); }
    else if (k == "and" || k == "or" || k == "xor" || k == "sub") {
      if (!same(j, l)) return;
      std::set<unsigned> r = alg(k, o[j].m, o[l].m); size_t n = std::max(o[j].size, o[l].size), cp = o[j].cap;
      { Code c; bitset t = k == "and" ? *o[j].b & *o[l].b : k == "or" ? *o[j].b | *o[l].b : k == "xor" ? *o[j].b ^ *o[l].b : *o[j].b - *o[l].b; *x.b = std::move(t); }
      x.m = r; x.size = n; x.cap = cp; check(i, k.c_str());
    }
    else if (k == "and=" || k == "or=" || k == "xor=" || k == "sub=") {
      if (!same(i, j)) return;
      std::string a = k.substr(0, k.size() - 1); std::set<unsigned> r = alg(a, x.m, o[j].m);
      { Code c; if (a == "and") *x.b &= *o[j].b; else if (a == "or") *x.b |= *o[j].b; else if (a == "xor") *x.b ^= *o[j].b; else *x.b -= *o[j].b; }
      x.m = r; x.size = std::max(x.size, o[j].size); check(i, k.c_str()); if (i != j) check(j, "being an operand");
    }
    else if (k == "cmp") {
      if (!same(i, j)) return;
      const auto &a = x.m, &b = o[j].m; bool sub = std::includes(b.begin(), b.end(), a.begin(), a.end()), sup = std::includes(a.begin(), a.end(), b.begin(), b.end()), eq = a == b;
      bool inter = !alg("and", a, b).empty(), diff = !alg("sub", a, b).empty(); bool g[8];
      { Code c; const bitset &p = *x.b, &q = *o[j].b; g[0] = p == q; g[1] = p != q; g[2] = p <= q; g[3] = p >= q; g[4] = p < q; g[5] = p > q; g[6] = p.has_intersection(q); g[7] = p.has_difference(q); }
      bool e[8] = {eq, !eq, sub, sup, sub && !eq, sup && !eq, inter, diff}; static const char* n[8] = {"==", "!=", "<=", ">=", "<", ">", "has_intersection", "has_difference"};
      for (int q = 0; q < 8; q++) { mix(g[q]); if (g[q] != e[q]) violation(std::string("bitset:") + n[q], std::string(n[q]) + " answers " + (g[q] ? "true" : "false") + " for sets of " + S(a.size()) + " and " + S(b.size()) + " bits where the answer is " + (e[q] ? "true" : "false")); }
    }
    else if (k == "str") {
      std::string s, e = "["; { Code c; s = x.b->to_string(); } if (x.m.size() > 900) return;
      for (unsigned v : x.m) e += (e.size() > 1 ? ", " : "") + S(v);
      if (std::string(s.c_str()) != e + "]") violation("bitset:string", "prints " + std::string(s.c_str()).substr(0, 200));
    }
    out->nontrivial = 1; fingerprint(hash_str(k) ^ (x.m.size() < 3 ? x.m.size() : 3));
  }
  void failed(const Words& w) override { // the target is given up, the others must be untouched
    size_t i = (size_t) arg(w, 1) % o.size(); alloc_ctl.fail_at = 0; make(o[i], o[i].size);
    for (size_t k = 0; k < o.size(); k++) if (w[0] != "move") check(k, "a failed operation on another set"); else make(o[k], o[k].size);
  }
  void finish() override { for (size_t i = 0; i < o.size(); i++) check(i, "all operations"); Code c; for (auto& x : o) x.b.reset(); }
};

// --------------------------------------------------------------------- heap
struct HeapWorld : World {
  struct Obj { std::unique_ptr<napsat::utils::heap> h; std::map<unsigned, double> m; };
  std::vector<Obj> o; unsigned keys;
  HeapWorld(const Plan& p) { keys = (unsigned) std::max(1L, p.num("keys", 20)); o.resize((size_t) std::max(1L, p.num("objs", 1))); for (auto& x : o) make(x); }
  void make(Obj& x) { napsat::utils::heap* h; { Code c; h = new napsat::utils::heap(); } x.h.reset(h); x.m.clear(); }
  static double act(const Words& w, size_t i) { return i < w.size() ? strtod(w[i].c_str(), nullptr) : 0; }
  static double best(const Obj& x) { double b = -INFINITY; for (auto& e : x.m) b = std::max(b, e.second); return b; }
  void check(Obj& x, const char* what) {
    unsigned n; bool em; { Code c; n = x.h->size(); em = x.h->empty(); }
    if (n != x.m.size()) violation("heap:size", std::string("after ") + what + ": size " + S(n) + " with " + S(x.m.size()) + " keys");
    if (em != x.m.empty()) violation("heap:empty", std::string("after ") + what + ": empty() is wrong");
    for (unsigned k = 0; k < keys + 2; k++) { bool g; { Code c; g = x.h->contains(Tvar(k)); } if (g != (x.m.count(k) > 0)) violation("heap:contains", std::string("after ") + what + ": contains(" + S(k) + ") is " + (g ? "true" : "false")); }
    if (!x.m.empty()) { Tvar t; { Code c; t = x.h->top(); } top(x, t, what); mix(t.value); }
  }
  void top(Obj& x, Tvar t, const char* what) {
    auto it = x.m.find(t.value);
    if (it == x.m.end()) violation("heap:top", std::string("after ") + what + ": the top is " + S(t.value) + ", which is not in the heap");
    if (it->second != best(x)) violation("heap:top", std::string("after ") + what + ": the top has activity " + std::to_string(it->second) + ", the maximum is " + std::to_string(best(x)));
  }
  void drain(Obj& x) {
    napsat::utils::heap* d; { Code c; d = new napsat::utils::heap(*x.h); }
    std::unique_ptr<napsat::utils::heap> own(d); Obj y; y.m = x.m;
    while (!y.m.empty()) { Tvar t; { Code c; t = d->pop(); } top(y, t, "a series of pop"); y.m.erase(t.value); mix(t.value); }
    bool em; { Code c; em = d->empty(); } if (!em) violation("heap:drain", "keys are left after as many pops as there were keys");
    Code c; own.reset();
  }
  void op(const Words& w) override {
    const std::string& k = w[0]; Obj& x = o[(size_t) arg(w, 1) % o.size()]; unsigned key = (unsigned) arg(w, 2) % keys; double a = act(w, 3);
    bool has = x.m.count(key);
    if (k == "insert") { if (has) return; { Code c; x.h->insert(Tvar(key), a); } x.m[key] = a; }
    else if (k == "remove") { if (!has) return; { Code c; x.h->remove(Tvar(key)); } x.m.erase(key); }
    else if (k == "increase") { if (!has) return; double v = x.m[key] + std::fabs(a); { Code c; x.h->increase_activity(Tvar(key), v); } x.m[key] = v; }
    else if (k == "update") { if (!has) return; { Code c; x.h->update(Tvar(key), a); } x.m[key] = a; }
    else if (k == "normalize") { double f = act(w, 2); { Code c; x.h->normalize(f); } for (auto& e : x.m) e.second *= f; }
    else if (k == "pop") { if (x.m.empty()) return; Tvar t; { Code c; t = x.h->pop(); } top(x, t, "pop"); x.m.erase(t.value); }
    else if (k == "copy") { Obj& y = o[(size_t) arg(w, 2) % o.size()]; { Code c; *x.h = *y.h; } x.m = y.m; }
    else if (k == "drain") { drain(x); }
    check(x, k.c_str()); out->nontrivial = 1; fingerprint(hash_str(k) ^ std::min<u64>(x.m.size(), 8));
  }
  void failed(const Words& w) override { size_t i = (size_t) arg(w, 1) % o.size(); alloc_ctl.fail_at = 0; if (w[0] == "copy") make(o[i]); for (auto& x : o) { check(x, "a failed operation on another heap"); drain(x); } }
  void finish() override { for (auto& x : o) drain(x); Code c; for (auto& x : o) x.h.reset(); }
};

// ---------------------------------------------------------------------- avl
struct AvlWorld : World {
  struct Obj { std::unique_ptr<utils::AVLTree> t; std::set<std::pair<unsigned, u64>> m; };
  std::vector<Obj> o;
  AvlWorld(const Plan& p) { o.resize((size_t) std::max(1L, p.num("objs", 1))); for (auto& x : o) { utils::AVLTree* t; { Code c; t = new utils::AVLTree(); } x.t.reset(t); } }
  void check(Obj& x, const char* what) {
    bool b, s; { Code c; b = x.t->is_balanced(); s = x.t->is_bst(); }
    if (!b) violation("avl:balance", std::string("after ") + what + ": the tree says it is not balanced");
    if (!s) violation("avl:order", std::string("after ") + what + ": the tree says it is not a search tree");
    Capture cap; { Code c; x.t->print(); }
    std::istringstream in(cap.sink.text); std::string l; std::vector<unsigned> ks; size_t depth = 0;
    while (std::getline(in, l)) {
      if (l == "Empty tree") break;
      size_t d = 0, at = 0; while (l.compare(at, 4, " -- ") == 0) { d++; at += 4; }
      ks.push_back((unsigned) strtoul(l.c_str() + at, nullptr, 10)); depth = std::max(depth, d + 1);
    }
    std::vector<unsigned> e; for (auto& q : x.m) e.push_back(q.first);
    if (ks != e) violation("avl:content", std::string("after ") + what + ": the tree holds " + S(ks.size()) + " keys where " + S(e.size()) + " were expected, or other ones");
    if ((double) depth > 1.4405 * std::log2((double) e.size() + 2) + 0.01) violation("avl:depth", std::string("after ") + what + ": depth " + S(depth) + " for " + S(e.size()) + " nodes");
  }
  void op(const Words& w) override {
    const std::string& k = w[0]; Obj& x = o[(size_t) arg(w, 1) % o.size()]; unsigned key = (unsigned) arg(w, 2); u64 d = (u64) arg(w, 3); void* data = (void*) d;
    if (k == "insert") { bool r, e = !x.m.count({key, d}); { Code c; r = x.t->insert(key, data); } if (r != e) violation("avl:insert", std::string("insert answers ") + (r ? "true" : "false")); x.m.insert({key, d}); }
    else if (k == "remove") { bool r, e = x.m.count({key, d}); { Code c; r = x.t->remove(key, data); } if (r != e) violation("avl:remove", std::string("remove answers ") + (r ? "true" : "false")); x.m.erase({key, d}); }
    else if (k == "take") { // remove an existing element, chosen by rank
      if (x.m.empty()) return; auto it = x.m.begin(); std::advance(it, (long) ((u64) key % x.m.size())); auto e = *it; bool r; { Code c; r = x.t->remove(e.first, (void*) e.second); }
      if (!r) violation("avl:remove", "an element cannot be found for removal"); x.m.erase(e); }
    else if (k == "find") {
      void* r; { Code c; r = x.t->find_best_fit(key); } auto it = x.m.lower_bound({key, 0});
      if (it == x.m.end() ? r != nullptr : !x.m.count({it->first, (u64) r})) violation("avl:best-fit", "best fit for " + S(key) + " is not data of the smallest key that is large enough");
    }
    check(x, k.c_str()); mix(x.m.size()); out->nontrivial = 1; fingerprint(hash_str(k) ^ std::min<u64>(x.m.size(), 16));
  }
  void failed(const Words&) override { alloc_ctl.fail_at = 0; for (auto& x : o) check(x, "a failed insertion"); }
  void finish() override { for (auto& x : o) check(x, "all operations"); Code c; for (auto& x : o) x.t.reset(); }
};

// --------------------------------------------------------------------- deps
struct DepsWorld : World {
  struct Cl { bool use = false, input = false; std::set<unsigned> deps; };
  struct Obj { std::unique_ptr<napsat::proof::dependency_tracker> t; std::vector<Cl> m; std::set<unsigned> cur; };
  std::vector<Obj> o; unsigned n;
  DepsWorld(const Plan& p) { n = (unsigned) std::max(2L, p.num("ids", 12)); o.resize((size_t) std::max(1L, p.num("objs", 1))); for (auto& x : o) make(x); }
  void make(Obj& x) { napsat::proof::dependency_tracker* t; { Code c; t = new napsat::proof::dependency_tracker(); } x.t.reset(t); x.m.assign(n, Cl()); x.cur.clear(); }
  void check(Obj& x, const char* what) {
    for (unsigned i = 0; i < n; i++) if (x.m[i].use) {
      const std::set<Tclause>* d; { Code c; d = &x.t->get_dependencies(Tclause(i)); }
      std::set<unsigned> g; for (auto c : *d) g.insert(c.value);
      if (g != x.m[i].deps) violation("deps:wrong", std::string("after ") + what + ": clause " + S(i) + " depends on " + S(g.size()) + " clauses, " + S(x.m[i].deps.size()) + " were expected, or on other ones");
    }
  }
  void op(const Words& w) override {
    const std::string& k = w[0]; Obj& x = o[(size_t) arg(w, 1) % o.size()]; unsigned a = (unsigned) arg(w, 2) % n, b = (unsigned) arg(w, 3) % n; Cl& A = x.m[a];
    if (k == "input") { if (A.use) return; { Code c; x.t->add_input(Tclause(a)); } A = Cl(); A.use = A.input = true; A.deps.insert(a); }
    else if (k == "learned") { if (A.use) return; { Code c; x.t->add_learned(Tclause(a)); } A = Cl(); A.use = true; }
    else if (k == "link") { if (!A.use || !x.m[b].use) return; { Code c; x.t->link_dependencies(Tclause(a), Tclause(b)); } std::set<unsigned> d = x.m[b].deps; A.deps.insert(d.begin(), d.end()); }
    else if (k == "track" || k == "drop") {   // a whole analysis: start, dependencies, then the clause (or nothing)
      { Code c; x.t->start_tracking(); }
      std::set<unsigned> got;
      for (size_t i = 3; i < w.size(); i++) { unsigned q = (unsigned) arg(w, i) % n; if (q == a || !x.m[q].use) continue; { Code c; x.t->track_dependency(Tclause(q)); } got.insert(x.m[q].deps.begin(), x.m[q].deps.end()); }
      if (k == "drop" || A.use) { Code c; x.t->cancel_tracking(); }
      else { { Code c; x.t->add_learned(Tclause(a)); x.t->finalize_tracking(Tclause(a)); } A = Cl(); A.use = true; A.deps = got; for (unsigned q : got) A.deps.insert(x.m[q].deps.begin(), x.m[q].deps.end()); }
    }
    else if (k == "del") { if (!A.use || A.input) return; { Code c; x.t->delete_clause(Tclause(a)); } A = Cl(); }
    check(x, k.c_str()); mix(a); for (unsigned q : x.m[a].deps) mix(q); out->nontrivial = 1; fingerprint(hash_str(k) ^ std::min<u64>(x.m[a].deps.size(), 8));
  }
  void failed(const Words& w) override { size_t i = (size_t) arg(w, 1) % o.size(); alloc_ctl.fail_at = 0; make(o[i]); for (auto& x : o) check(x, "a failed operation on another tracker"); }
  void finish() override { for (auto& x : o) check(x, "all operations"); Code c; for (auto& x : o) x.t.reset(); }
};

// -------------------------------------------------------------------- proof
struct ProofWorld : World {
  using Set = std::set<int>;
  std::unique_ptr<napsat::proof::resolution_proof> t; unsigned n; int nv;
  struct Step { Set lits; bool ok = true; std::vector<size_t> from; };
  std::vector<Step> steps;             // everything ever recorded
  std::vector<long> at;                // id -> step, -1 if free
  std::set<Set> inputs; long empty = -1;
  std::vector<int> rlit; std::set<unsigned> rreason; std::vector<unsigned> rid;
  ProofWorld(const Plan& p) { n = (unsigned) std::max(2L, p.num("ids", 12)); nv = (int) std::max(1L, p.num("maxvar", 5)); make(); }
  void make() { napsat::proof::resolution_proof* q; { Code c; q = new napsat::proof::resolution_proof(); } t.reset(q); steps.clear(); at.assign(n, -1); inputs.clear(); empty = -1; rlit.clear(); rreason.clear(); rid.clear(); }
  static Tlit L(int l) { return Tlit(Tvar((unsigned) std::abs(l)), l > 0); }
  static bool taut(const Set& s) { for (int l : s) if (l > 0 && s.count(-l)) return true; return false; }
  std::vector<Tlit> vec(const Set& s, u64 seed) { Rng r(seed); std::vector<int> v(s.begin(), s.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); if (!v.empty() && r.chance(0.2)) v.push_back(v[r.below(v.size())]); std::vector<Tlit> o; for (int l : v) o.push_back(L(l)); return o; }
  void record(unsigned id, const Set& s, bool ok, const std::vector<size_t>& from) { at[id] = (long) steps.size(); Step st; st.lits = s; st.ok = ok; st.from = from; steps.push_back(st); if (s.empty()) empty = at[id]; }
  // one resolution step, strictly
  static bool resolve(Set& base, const Set& c, int pivot) { if (!base.count(pivot) || !c.count(-pivot)) return false; base.erase(pivot); for (int l : c) if (l != -pivot) base.insert(l); return true; }
  void op(const Words& w) override {
    const std::string& k = w[0]; unsigned id = (unsigned) arg(w, 1) % n;
    if (k == "input") {
      if (at[id] >= 0) return;
      Set s; for (size_t i = 2; i < w.size(); i++) { int l = (int) arg(w, i); if (l) s.insert(l); } if (taut(s)) return;
      auto v = vec(s, hash_str(join(w))); { Code c; t->input_clause(Tclause(id), v.data(), (unsigned) v.size()); }
      record(id, s, true, {}); inputs.insert(s);
    }
    else if (k == "derive" || k == "forge") {   // id, length, seed, kind: a chain over active clauses
      Rng r((u64) arg(w, 3)); int len = (int) arg(w, 2); int kind = (int) arg(w, 4);
      std::vector<unsigned> act; for (unsigned i = 0; i < n; i++) if (at[i] >= 0) act.push_back(i);
      if (act.empty()) return;
      // a chosen target may be replaced in place (deactivated first), as when a clause is strengthened
      bool replace = at[id] >= 0;
      if (replace && rreason.count(id)) return;
      std::vector<std::pair<int, unsigned>> chain; unsigned first = act[r.below(act.size())]; if (replace) first = id;
      Set base = steps[(size_t) at[first]].lits; chain.push_back({0, first});
      for (int i = 0; i < len; i++) {
        std::vector<std::pair<int, unsigned>> opt;
        for (unsigned a : act) { const Set& q = steps[(size_t) at[a]].lits; int clash = 0, nc = 0; for (int l : q) if (base.count(-l)) { clash = -l; nc++; } if (nc == 1) opt.push_back({clash, a}); }
        if (opt.empty()) break;
        // prefer short results, so that the empty clause is reached
        std::pair<int, unsigned> best = opt[r.below(opt.size())];
        if (r.chance(0.6)) for (auto& q : opt) if (steps[(size_t) at[q.second]].lits.size() < steps[(size_t) at[best.second]].lits.size()) best = q;
        resolve(base, steps[(size_t) at[best.second]].lits, best.first); chain.push_back(best);
      }
      if (chain.size() < 2) return;
      bool ok = true; Set result = base;
      if (k == "forge") {
        if (kind == 0 && !result.empty()) { auto it = result.begin(); std::advance(it, (long) r.below(result.size())); result.erase(it); }
        else if (kind == 1) { int l = r.range(1, nv); if (r.chance(0.5)) l = -l; if (!result.count(-l)) result.insert(l); }
        else if (kind == 2) { size_t q = 1 + r.below(chain.size() - 1); chain[q].first = -chain[q].first; }
        else if (kind == 3 && chain.size() > 2) { size_t q = 1 + r.below(chain.size() - 1); chain.erase(chain.begin() + (long) q); }
        else if (kind == 4 && chain.size() > 2) { size_t q = 1 + r.below(chain.size() - 2); std::swap(chain[q], chain[q + 1]); }
        else if (kind == 5) { size_t q = 1 + r.below(chain.size() - 1); chain[q].second = act[r.below(act.size())]; }
        else if (kind == 6 && !result.empty()) { auto it = result.begin(); std::advance(it, (long) r.below(result.size())); int l = *it; result.erase(it); result.insert(-l); }
        else if (kind == 7) { size_t q = 1 + r.below(chain.size() - 1); int l = r.range(1, nv); chain[q].first = r.chance(0.5) ? l : -l; }
        if (taut(result)) return;
        Set b = steps[(size_t) at[chain[0].second]].lits; for (size_t i = 1; i < chain.size() && ok; i++) ok = resolve(b, steps[(size_t) at[chain[i].second]].lits, chain[i].first);
        ok = ok && b == result;
        if (!ok && std::string(SIM_FLAVOR) != "rel") return;   // refused by an assertion in these builds
        if (!ok) SIM_COUNT("fault_forged_step");
      }
      std::vector<size_t> from; for (auto& q : chain) from.push_back((size_t) at[q.second]);
      size_t upto = arg(w, 5) && r.chance(0.7) ? (size_t) r.below(chain.size() + 1) : chain.size();   // a chain can be given up anywhere
      { Code c; t->start_resolution_chain(); for (size_t q = 0; q < upto; q++) t->link_resolution(chain[q].first ? L(chain[q].first) : napsat::LIT_UNDEF, Tclause(chain[q].second)); }
      if (arg(w, 5)) { Code c; t->cancel_resolution_chain(); return; }
      if (replace) { { Code c; t->deactivate_clause(Tclause(id)); } at[id] = -1; }
      auto v = vec(result, (u64) arg(w, 3) + 1);
      { Code c; t->finalize_resolution(Tclause(id), v.data(), (unsigned) v.size()); }
      record(id, result, ok, from);
    }
    else if (k == "deact") { if (at[id] < 0 || rreason.count(id)) return; { Code c; t->deactivate_clause(Tclause(id)); } at[id] = -1; }
    else if (k == "root") {
      if (at[id] < 0 || rreason.count(id)) return; int open = 0, cnt = 0;
      for (int l : steps[(size_t) at[id]].lits) { bool f = std::count(rlit.begin(), rlit.end(), -l), tr = std::count(rlit.begin(), rlit.end(), l); if (tr) return; if (!f) { open = l; cnt++; } }
      if (cnt != 1) return;
      { Code c; t->root_assign(L(open), Tclause(id)); } rlit.push_back(open); rreason.insert(id); rid.push_back(id);
    }
    else if (k == "strip") {
      if (at[id] < 0) return; Set s = steps[(size_t) at[id]].lits; if (rreason.count(id)) return;
      std::vector<size_t> from{(size_t) at[id]}; bool any = false;
      Set r = s; for (size_t i = rlit.size(); i-- > 0;) if (r.count(-rlit[i])) { resolve(r, steps[(size_t) at[rid[i]]].lits, -rlit[i]); from.push_back((size_t) at[rid[i]]); any = true; }
      if (!any || taut(r)) return;
      { Code c; t->remove_root_literals(Tclause(id)); }
      at[id] = -1; record(id, r, true, from);
    }
    else if (k == "check") { judge(); }
    mix(hash_str(k)); mix(steps.size()); fingerprint(hash_str(k) ^ std::min<u64>(steps.size(), 32));
  }
  void judge() {
    if (empty < 0) return;
    out->nontrivial = 1; SIM_COUNT("proof_checked");
    std::vector<size_t> todo{(size_t) empty}; std::set<size_t> seen; bool ok = true;
    while (!todo.empty()) { size_t q = todo.back(); todo.pop_back(); if (!seen.insert(q).second) continue; ok = ok && steps[q].ok; for (size_t f : steps[q].from) todo.push_back(f); }
    bool g; { Code c; g = t->check_proof(); }
    if (g && !ok) violation("proof:accepted", "check_proof() accepts a proof with a step that is not a resolution");
    if (!g && ok) violation("proof:rejected", "check_proof() rejects a valid proof");
    SIM_COUNT(ok ? "proof_valid" : "proof_invalid");
    if (!ok) return;
    u64 f = alloc_ctl.failed; std::string text;
    { Capture cap; { Code c; t->print_proof(); } text = cap.sink.text; }
    if (alloc_ctl.failed != f) return;
    std::string err = check_printed_proof(text, inputs); if (!err.empty()) violation(err.substr(0, err.find(' ')), err.substr(err.find(' ') + 1));
  }
  void failed(const Words&) override { alloc_ctl.fail_at = 0; make(); }
  void finish() override { judge(); Code c; t.reset(); }
};
}

void world_cont(const Plan& p) {
  alloc_ctl.junk = (unsigned char) p.num("junk", 0xA5); SIM_COUNT("fault_heap_garbage");
  step_budget = (u64) p.num("budget", 60000000);
  for (auto& b : p.body) if (b[0] == "fault" && b.size() > 2 && b[1] == "alloc") alloc_ctl.fail_at = strtoull(b[2].c_str(), nullptr, 10);
  auto all = [&] {
  std::unique_ptr<World> w; auto* k = p.find("kind"); std::string kind = k && k->size() > 1 ? (*k)[1] : "";
  try {
    if (kind == "bitset") w.reset(new BitsetWorld(p)); else if (kind == "heap") w.reset(new HeapWorld(p)); else if (kind == "avl") w.reset(new AvlWorld(p));
    else if (kind == "deps") w.reset(new DepsWorld(p)); else if (kind == "proof") w.reset(new ProofWorld(p)); else violation("bad-plan", "unknown kind");
    for (auto& b : p.body) if (b[0] == "op" && b.size() > 1) {
      Words o(b.begin() + 1, b.end()); crossing(SEAM_OP); SIM_COUNT("container_ops");
      try { w->op(o); }
      catch (const std::bad_alloc&) { in_code = false; if (!alloc_ctl.failed) violation("crash:bad_alloc", "unexpected out-of-memory"); SIM_COUNT("fault_abandon"); w->failed(o); }
    }
    try { w->finish(); } catch (const std::bad_alloc&) { in_code = false; if (!alloc_ctl.failed) throw; }
  } catch (const std::bad_alloc&) { in_code = false; if (!alloc_ctl.failed) violation("crash:bad_alloc", "unexpected out-of-memory"); }
  };
  if (p.num("account", 0)) account(all); else all();
}

// --------------------------------------------------------------- generation
Plan gen_cont_plan(const std::string& prop, u64 seed, bool deep) {
  Plan p; p.prop = prop; p.seed = seed; p.world = "cont";
  Rng r(seed * 0x9E3779B97F4A7C15ull ^ hash_str(prop));
  auto op = [&](const std::string& t) { Words w{"op"}; Words x = split(t); w.insert(w.end(), x.begin(), x.end()); p.body.push_back(w); };
  p.head.push_back({"junk", std::to_string(r.below(256))});
  int n = (int) r.logu(deep ? 600 : 250) + 2;
  int objs = r.range(1, 4); p.head.push_back({"objs", std::to_string(objs)});
  auto O = [&] { return S(r.below((u64) objs)); };
  if (prop == "C18") {
    p.head.push_back({"kind", "bitset"});
    size_t size = r.pick<size_t>({0, 1, 63, 64, 65, 128, 1000, 4031, 4032, 4033, 8064, 8065, 12096, 20000}); if (r.chance(0.5)) size = 1 + r.logu(30000);
    p.head.push_back({"size", S(size)});
    size_t hot = r.below(size + 1); u64 span = r.pick<u64>({2, 10, 70, 130, 5000, 30000}); double pset = r.pick<double>({0.3, 0.5, 0.8});
    auto idx = [&] { u64 q = r.chance(0.15) ? r.pick<u64>({0, 63, 64, 4031, 4032, 8063, 8064}) : hot + r.below(span); return S(q); };
    double mut = r.pick<double>({0.3, 0.6, 0.9});
    for (int i = 0; i < n; i++) {
      if (r.chance(mut)) { if (r.chance(0.05)) op("fill " + O() + " " + idx() + " " + S(r.below(1000))); else op("set " + O() + " " + idx() + " " + (r.chance(pset) ? "1" : "0")); continue; }
      switch (r.below(14)) {
        case 0: op("clear " + O()); break;
        case 1: if (r.chance(0.4)) { u64 z = r.chance(0.5) ? r.logu(20000) : size + r.below(9000); for (int q = 0; q < objs; q++) if (r.chance(0.8)) op("resize " + S((u64) q) + " " + S(z)); } break;
        case 2: if (r.chance(0.3)) op("new " + O() + " " + S(r.chance(0.7) ? size : r.logu(20000))); break;
        case 3: op((r.chance(0.7) ? "copy " : "move ") + O() + " " + O()); break;
        case 4: case 5: case 6: op(r.pick<std::string>({"and ", "or ", "xor ", "sub "}) + O() + " " + O() + " " + O()); break;
        case 7: case 8: case 9: case 10: op(r.pick<std::string>({"and= ", "or= ", "xor= ", "sub= "}) + O() + " " + O()); break;
        case 11: op("str " + O()); break;
        default: op("cmp " + O() + " " + O());
      }
    }
  } else if (prop == "C19") {
    p.head.push_back({"kind", "heap"});
    u64 keys = r.pick<u64>({3, 8, 15, 30, 60, 200}); p.head.push_back({"keys", S(keys)});
    int mode = (int) r.below(3); double scale = std::pow(10.0, r.range(-3, 6));
    auto a = [&] { char b[40]; double v = mode == 0 ? (double) r.below(5) : mode == 1 ? (double) r.below(1000000) / 1000 * scale : std::pow(10.0, r.range(-320, 300)); snprintf(b, sizeof b, "%.17g", v); return std::string(b); };
    double ins = r.pick<double>({0.3, 0.5, 0.7}); std::string norm = r.pick<std::string>({"1e-100", "0.5", "1e-10", "1e-300"});
    for (int i = 0; i < n; i++) {
      if (r.chance(ins)) { op("insert " + O() + " " + S(r.below(keys)) + " " + a()); continue; }
      switch (r.below(12)) {
        case 0: case 1: op("pop " + O()); break;
        case 2: case 3: case 4: op("remove " + O() + " " + S(r.below(keys))); break;
        case 5: case 6: case 7: op("increase " + O() + " " + S(r.below(keys)) + " " + a()); break;
        case 8: case 9: op("update " + O() + " " + S(r.below(keys)) + " " + a()); break;
        case 10: if (r.chance(0.3)) op("normalize " + O() + " " + norm); break;
        default: if (r.chance(0.5)) op("drain " + O()); else op("copy " + O() + " " + O());
      }
    }
  } else if (prop == "C20") {
    p.head.push_back({"kind", "avl"});
    u64 keys = r.pick<u64>({3, 10, 50, 1000}); u64 datas = r.pick<u64>({1, 2, 5, 50}); int pat = (int) r.below(3); u64 seq = 0; double ins = r.pick<double>({0.35, 0.5, 0.7});
    for (int i = 0; i < n; i++) {
      std::string kd = O() + " " + S(pat == 1 ? seq++ % 4000 : pat == 2 ? 4000 - (seq++ % 4000) : r.below(keys)) + " " + S(1 + r.below(datas));
      if (r.chance(ins)) op("insert " + kd); else switch (r.below(6)) {
        case 0: op("remove " + O() + " " + S(r.below(keys)) + " " + S(1 + r.below(datas))); break;
        case 1: op("find " + O() + " " + S(r.below(keys + 2))); break;
        default: op("take " + O() + " " + S(r.below(1000)));
      }
    }
  } else if (prop == "C21") {
    p.head.push_back({"kind", "proof"});
    u64 ids = r.pick<u64>({6, 10, 20, 40}); int nv = r.range(1, 8); p.head.push_back({"ids", S(ids)}); p.head.push_back({"maxvar", S((u64) nv)});
    double forge = r.pick<double>({0, 0, 0.05, 0.3}); double rep = r.pick<double>({0.1, 0.4});
    (void) rep;
    auto id = [&] { return S(r.below(ids)); };
    int in = (int) (ids * (u64) r.range(3, 9) / 10) + 1;
    for (int i = 0; i < n + in; i++) {
      if (i < in || r.chance(0.08)) { std::string t = "input " + id(); int l = r.range(1, 3); for (int q = 0; q < l; q++) { int x = r.range(1, nv); t += " " + std::to_string(r.chance(0.5) ? x : -x); } op(t); continue; }
      double z = r.below(1000) / 1000.0;
      if (z < 0.6) { bool f = r.chance(forge); op(std::string(f ? "forge " : "derive ") + id() + " " + S(r.logu(8)) + " " + S(r.below(1000000)) + " " + S(r.below(8)) + (r.chance(0.05) ? " 1" : " 0")); }
      else if (z < 0.75) op("deact " + id());
      else if (z < 0.85) op("root " + id());
      else if (z < 0.95) op("strip " + id());
      else op("check");
    }
  } else if (prop == "C25") {
    p.head.push_back({"kind", "deps"});
    u64 ids = r.pick<u64>({4, 8, 16, 40}); p.head.push_back({"ids", S(ids)}); auto id = [&] { return S(r.below(ids)); };
    for (int i = 0; i < n; i++) switch (r.below(10)) {
      case 0: case 1: op("input " + O() + " " + id()); break;
      case 2: op("learned " + O() + " " + id()); break;
      case 3: op("link " + O() + " " + id() + " " + id()); break;
      case 4: case 5: op("del " + O() + " " + id()); break;
      default: { std::string t = (r.chance(0.15) ? "drop " : "track ") + O() + " " + id(); u64 k = 1 + r.below(6); for (u64 q = 0; q < k; q++) t += " " + id(); op(t); }
    }
  }
  if (r.chance(0.2)) p.body.push_back({"fault", "alloc", std::to_string(r.logu((u64) n * 6))});
  return p;
}
}
