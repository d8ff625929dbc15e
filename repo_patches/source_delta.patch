From baee83c6bc254577343856cc08bf8dccfa11eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 01/72] fix: do not re-imply a literal already implied at a
 level the new clause cannot lower

Adding a clause that is satisfied by a literal at the same (or a lower) level
than its highest falsified literal reached imply_literal() for an assigned
literal in NCB and CB: the literal was pushed twice on the trail.
---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From f8a9bd2a5501130c68da7bb96db7510b3aafc779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 02/72] fix: accept a learned clause satisfied at root level
 while repairing several conflicts

With graph backtracking a pending conflict may be repaired together with a unit
clause. The learned clause can then contain the literal just implied at root
level; internal_add_clause() already drops it, but asserted first.
---
 src/solver/NapSAT-clauses.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..ee5732d 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,8 +127,9 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
+      // the solver should not introduce redundant literals, so a learned clause can only be satisfied at level 0
+      // (by a unit clause that was added while repairing the same set of conflicts)
+      ASSERT(external || lit_true(l),
         "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
       // The solver should not generate redundant literals and clauses
       satisfied_at_root |= lit_true(l);
-- 
2.43.0


From cafb802fa050c6d94b4a4259f14f9d34f6c1ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 03/72] fix: forget lazy reimplications that involve a decision
 implied at root level

reimply_literal_root() frees the chunk of the decision but kept its lazy reason
and its chunk in the missed implications of other decisions (-gb -lcm).
---
 src/solver/NapSAT-imply.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..6f64e01 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -161,6 +161,15 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].decision = Tvar();
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
+    // the chunk disappears: the missed implications that depend on it do not hold on it anymore
+    for (TSchunk& chunk : _chunks) {
+      if (!chunk.missed_implication.get(ck))
+        continue;
+      _vars[chunk.decision].missed_lower_implication = CLAUSE_UNDEF;
+      chunk.missed_implication.clear();
+      chunk.is_reimplied = false;
+    }
     _decision_index.resize(_decision_index.size() - 1);
   }
 
-- 
2.43.0


From ecf8e8d2ac35bec577ce99e5af56d1ce587729d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 04/72] fix: stop solve() when the conflict limit is reached

propagate() stops at the limit with a pending conflict, but solve() went on:
an assertion failure in debug builds, an ignored limit in release builds.
---
 src/solver/NapSAT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..8bf0bb3 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -413,6 +413,10 @@ status NapSAT::solve()
         }
         break;
       }
+      if (_status == status::UNKNOWN) {
+        // the conflict limit is reached
+        break;
+      }
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From 20bb6551d13d7ff8ec580ed43ae861ae9e1b2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 05/72] fix: do not repair conflicts once the clause set is
 unsatisfiable

Adding clauses after a root level contradiction started a conflict analysis on
an inconsistent set of conflicts.
---
 src/solver/NapSAT-conflict.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..265873c 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -919,6 +919,10 @@ void NapSAT::repair_conflicts()
    *    δ(c₁) = δ(C)
    */
   ASSERT(!_conflicts.empty());
+  if (_status == status::UNSAT) {
+    // there is nothing to repair, unless the assumptions are forgotten
+    return;
+  }
   ASSERT(_conflicts.size() == 1
       || any_of(_conflicts.begin(), _conflicts.end(), [this](Tclause c){
     return _clauses[c].external;
-- 
2.43.0


From 63313c09950dab2424a711430a1708144864ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 06/72] fix: register learned clauses in the dependency tracker

With --record-dependencies the first learned clause failed an assertion (or
accessed the tracker out of bounds in release builds).
---
 src/solver/NapSAT-conflict.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 265873c..a631345 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1226,8 +1226,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
-- 
2.43.0


From 40779967bdfb5b3a0c0539158c16c0c0b2f65df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 07/72] fix: compute the approximate backtrack costs from the
 chunks of each literal

The cached chunk set could belong to another literal, and literals in all the
chunks were not counted: the sum (resp. max) approximation was not an upper
(resp. lower) bound of the cost and failed its assertion in debug builds.
---
 src/solver/NapSAT-conflict.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index a631345..293d4f2 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -522,7 +522,6 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
   bitset lit_chunks_set(_n_allocated_chunks);
   const bitset* last_chunks = &lit_chunks_set;
   size_t count = 0;
-  size_t counted_chunk_size = counted_chunks.count();
 
   for (size_t i = start_point; i < _trail.size(); i++) {
     Tlit lit = _trail[i];
@@ -538,11 +537,10 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       lit_chunks_set = lit_chunks(lit);
       lit_chunks_set &= counted_chunks;
       count = lit_chunks_set.count();
-    } else {
       last_chunks = &lit_chunks(lit);
     }
-    // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
-    if (count == 0 || count == counted_chunk_size)
+    // if the literal belongs to none of the counted chunks, we can skip it because it will not change the weights
+    if (count == 0)
       continue;
 
     double lit_cost = literal_cost(lit);
-- 
2.43.0


From 70b056835b60c9f537e4fc2b31a1f29b4bab822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 08/72] fix: make the order on backtrack weights irreflexive

std::sort may compare an element with itself: operator< then failed an
assertion in debug builds.
---
 src/solver/NapSAT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..3b98506 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1957,7 +1957,8 @@ public:
               ++it1;
               ++it2;
             }
-            assert(false); // should never happen
+            // std::sort may compare an element with itself
+            return it2 != other.chunks.cend();
           }
           return total_weight < other.total_weight;
         }
-- 
2.43.0


From d12a9ec07c53d22c3d345e0648a68f7ff4a36a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 09/72] fix: keep combinations that already undo the missed
 implication of a chunk

---
 src/solver/NapSAT-conflict.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 293d4f2..9a3d4b8 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -102,12 +102,17 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
       merged_chunks -= _locked_chunks;
     }
 
+    if (current.has_intersection(merged_chunks)) {
+      // the missed implication of c is already undone by the current combination
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
+      if (combinations.size() > _options.backtrack_possibilities_limit) {
+        return;
+      }
+      continue;
+    }
+
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
       Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
       next_current.set(c2, true);
       compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-- 
2.43.0


From 5774825e05b15be67ce85f7b841500e0fcb16852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 10/72] fix: stop the analysis at the UIP when its missed
 implication is not backtracked

---
 src/solver/NapSAT-conflict.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 9a3d4b8..08307ef 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1164,6 +1164,11 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       if (!implication_active_after_backtrack(lazy_reason, bt)) {
         break;
       }
+      if (_options.graph_backtracking) {
+        // no other literal of the clause is in the backtracked chunks: the analysis is finished.
+        // The lazy reason will imply the literal again when its propagation is replayed.
+        break;
+      }
 
       // we need to continue the analysis with the missed implication
       // fill in the literal buffer
-- 
2.43.0


From 6aa89668057f797c89bb900cebf1ec9bda939490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 11/72] fix: account for every reimplied decision when checking
 that a conflict has a UIP

---
 src/solver/NapSAT-conflict.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 08307ef..a5dbc2e 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -999,7 +999,8 @@ bool NapSAT::conflict_can_generate_learned_clause(Tclause conflict, const bitset
     for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
       Tchunk chunk = *it;
       const bitset& reimplied_chunks = _chunks[chunk].missed_implication;
-      if (conflict_chunks.has_intersection(reimplied_chunks)) {
+      // the conflict analysis resolves any reimplied decision of the backtracked chunks
+      if (_chunks[chunk].is_reimplied) {
         conflict_chunks |= reimplied_chunks;
         conflict_chunks.set(chunk, false);
 
-- 
2.43.0


From dc45535bf39f8d68e2cb874fa60aef7759793ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 12/72] fix: compute the level of a lazy reimplication from all
 its literals in graph backtracking

---
 src/solver/NapSAT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 3b98506..9cc4c18 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1421,6 +1421,10 @@ public:
       ASSERT(lit_level(lit) > LEVEL_ROOT);
       ASSERT(check_clause_implying(l_reason));
       ASSERT(clause_size(l_reason) > 1);
+      if (_options.graph_backtracking) {
+        // in graph backtracking the second literal is not necessarily at the highest level
+        return implication_level(l_reason);
+      }
       ASSERT(lit_is_max_literal(lits[1], lits + 1, clause_size(l_reason) - 1));
       return lit_level(lits[1]);
     }
-- 
2.43.0


From e0297d978b7733db0eb4377134eb787071be36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 13/72] fix: process the reimplied chunks of a combination in a
 single order

---
 src/solver/NapSAT-conflict.cpp | 44 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index a5dbc2e..170f201 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -92,33 +92,27 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
     return;
   }
 
-  for (auto i = diff.cbegin(); i != diff.cend(); ++i) {
-    Tchunk c = *i;
-    bitset next_process = processed;
-    next_process.set(c, true);
-    bitset merged_chunks = _chunks[c].missed_implication;
-    if (_n_assumptions > 0) {
-      // the assumptions cannot be backtracked, and are removed from the possibilities
-      merged_chunks -= _locked_chunks;
-    }
+  // each chunk of the difference has to be processed, hence they can be processed in any order
+  Tchunk c = *diff.cbegin();
+  processed.set(c, true);
+  bitset merged_chunks = _chunks[c].missed_implication;
+  if (_n_assumptions > 0) {
+    // the assumptions cannot be backtracked, and are removed from the possibilities
+    merged_chunks -= _locked_chunks;
+  }
 
-    if (current.has_intersection(merged_chunks)) {
-      // the missed implication of c is already undone by the current combination
-      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
-      if (combinations.size() > _options.backtrack_possibilities_limit) {
-        return;
-      }
-      continue;
-    }
+  if (current.has_intersection(merged_chunks)) {
+    // the missed implication of c is already undone by the current combination
+    compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, processed);
+    return;
+  }
 
-    for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
-      Tchunk c2 = *j;
-      bitset next_current = current;
-      next_current.set(c2, true);
-      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-      if (combinations.size() > _options.backtrack_possibilities_limit) {
-        return;
-      }
+  for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
+    bitset next_current = current;
+    next_current.set(*j, true);
+    compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, processed);
+    if (combinations.size() > _options.backtrack_possibilities_limit) {
+      return;
     }
   }
 }
-- 
2.43.0


From 99fda9418c9c540c1175ee8e811152659bc982b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 14/72] fix: do not link subsumed learned clauses that are
 deleted right away, nor share buffers between nested repairs

---
 src/solver/NapSAT-conflict.cpp | 46 ++++++++++++----------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 170f201..1c0d794 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1047,28 +1047,17 @@ bool NapSAT::implication_active_after_backtrack(Tclause reason, const bitset& ch
 
 void NapSAT::add_and_delete_clause(Tclause cl, const vector<Tlit>& clause)
 {
-  Tclause new_id = internal_add_clause(clause.data(), clause.size(), true, false, cl);
-    if (new_id == CLAUSE_UNDEF) {
-      // the clause was not added because it was satisfied at level 0
-      return;
-    }
-    // the clause should be at the back of the watch lists
-    // we need to remove it from the watch lists
-    Tlit* lits = clause_lits(new_id);
-    ASSERT(clause.size() > 1);
-    if (clause.size() == 2) {
-      ASSERT(_binary_watches[lits[0]].back().cl == new_id);
-      _binary_watches[lits[0]].pop_back();
-      ASSERT(_binary_watches[lits[1]].back().cl == new_id);
-      _binary_watches[lits[1]].pop_back();
-    } else {
-      ASSERT(_watches[lits[0]].back().cl == new_id);
-      _watches[lits[0]].pop_back();
-      ASSERT(_watches[lits[1]].back().cl == new_id);
-      _watches[lits[1]].pop_back();
-    }
-    ASSERT(!is_protected(new_id));
-    delete_clause(new_id);
+  // The clause must not interact with the trail nor the watch lists. Otherwise, it could become a
+  // conflict or the reason of a literal, and would still be referenced after its deletion.
+  ASSERT(_clauses[cl].deleted);
+  ASSERT(!_clauses[cl].watched);
+  NOTIFY(add_clause, cl, clause.data(), clause.size(), false);
+  NOTIFY(delete_clause, cl);
+  if (_proof)
+    _proof->deactivate_clause(cl);
+  if (_dependency_tracker)
+    _dependency_tracker->delete_clause(cl);
+  _deleted_clauses.push_back(cl);
 }
 
 void NapSAT::compute_subsumed_clauses(const vector<pair<Tclause, vector<Tlit>>>& clauses, vector<bool>& subsumed)
@@ -1251,8 +1240,8 @@ void NapSAT::try_and_learn(Tlevel level, vector<pair<Tclause, vector<Tlit>>>& le
 
 void NapSAT::graph_repair()
 {
-  static vector<bitset> possibilities;
-  possibilities.clear();
+  // those buffers are local because repairing a conflict can require another repair
+  vector<bitset> possibilities;
   _conflicts_chunks.clear();
   _conflicts_chunks.reserve(_conflicts.size());
   for (Tclause conflict : _conflicts) {
@@ -1276,18 +1265,15 @@ void NapSAT::graph_repair()
   }
 
   // Calculate the highest chunk involved in conflicts
-  static vector<Tweight> weights;
-  weights.clear();
+  vector<Tweight> weights;
   weights.reserve(possibilities.size());
 
   Tlevel highest_level = LEVEL_ROOT;
 
   setup_weights(possibilities, highest_level, weights);
 
-  static vector<Tclause> implying_conflicts;
-  static vector<pair<Tclause, vector<Tlit>>> learned_clauses;
-  implying_conflicts.clear();
-  learned_clauses.clear();
+  vector<Tclause> implying_conflicts;
+  vector<pair<Tclause, vector<Tlit>>> learned_clauses;
 
   Tweight best;
   Tweight analyzed;
-- 
2.43.0


From 459913b783adb37a40cb7a4bedf105ea1c188efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 15/72] fix: allow several learned clauses to be repaired
 together in graph backtracking

---
 src/solver/NapSAT-conflict.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 1c0d794..d863928 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -920,7 +920,8 @@ void NapSAT::repair_conflicts()
     // there is nothing to repair, unless the assumptions are forgotten
     return;
   }
-  ASSERT(_conflicts.size() == 1
+  ASSERT(_options.graph_backtracking
+      || _conflicts.size() == 1
       || any_of(_conflicts.begin(), _conflicts.end(), [this](Tclause c){
     return _clauses[c].external;
   }));
-- 
2.43.0


From 7665a32f0f055c7852421f97669edffc230ca6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 16/72] fix: accept that a clause learned interactively makes
 the clause set unsatisfiable

---
 src/solver/NapSAT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 8bf0bb3..ff94761 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -452,7 +452,8 @@ status NapSAT::solve()
     else
 #endif
       decide();
-    ASSERT(_status != status::UNSAT);
+    // a clause learned at the checkpoint can make the clause set unsatisfiable
+    ASSERT(_options.interactive || _status != status::UNSAT);
     if (_status == status::SAT)
       break;
   }
-- 
2.43.0


From 5bf9c25c221ff8b040a4d23ecb6fc7ce3bbe74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 17/72] fix: pad numbers with a maximum of zero

---
 src/utils/printer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..d6fd9b4 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -57,6 +57,7 @@ static inline unsigned log10(int n)
 string pad(unsigned n, unsigned max_int)
 {
   n = max(n, 1u);
+  max_int = max(max_int, 1u);
   int max_digits = log10(max_int);
   int digits = log10(n);
   string s = "";
-- 
2.43.0


From 12c85a11bd9c3ac2767a09abf042b37d1de232ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 18/72] fix: keep track of the constrained variables when the
 unused variables are ignored

---
 src/solver/NapSAT-backtrack.cpp | 2 +-
 src/solver/NapSAT-clauses.cpp   | 5 ++++-
 src/solver/NapSAT.cpp           | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index fbe9ffa..1559290 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -30,7 +30,7 @@ void NapSAT::var_unassign(Tvar var)
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
-  if (!_variable_heap.contains(var))
+  if (var_constrained(var) && !_variable_heap.contains(var))
     _variable_heap.insert(var, v.activity);
 
   if (_options.graph_backtracking) {
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index ee5732d..1a403c5 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -255,8 +255,11 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (external && _options.ignore_unused_variables) {
     // mark all the variables in the clause as constrained
-    for (unsigned i = 0; i < clause.size; i++)
+    for (unsigned i = 0; i < clause.size; i++) {
+      if (_status == status::SAT && !var_constrained(lits[i].var()))
+        _status = status::UNKNOWN;
       var_mark_constrained(lits[i].var());
+    }
   }
 
   if (clause.size == 1) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index ff94761..89925ed 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -398,7 +398,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
-- 
2.43.0


From 58dacdb664fe28bb279b7abdd34c384e531bfacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 19/72] fix: allocate valid chunk ids when more chunks are
 required

---
 src/solver/NapSAT-utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..f871cbf 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -355,8 +355,9 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  const size_t n_old_chunks = _n_allocated_chunks;
+  for (size_t i = 1; i <= n_chunks - n_old_chunks; i++) {
+    _free_chunks.push_back(n_chunks - i);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -366,9 +367,10 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _n_allocated_chunks; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
+  _locked_chunks.resize(_n_allocated_chunks);
 }
 
 unsigned NapSAT::utility_heuristic(Tlit lit)
-- 
2.43.0


From 03122e769b9ea41c0d0210277f70a511af09efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 20/72] fix: look at all the metadata blocks to check that a
 bitset is empty

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From c824243b465e0138aaf5155e5fb68afe2e7001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 21/72] fix: restore the heap order upward when a key is
 removed

---
 src/utils/heap.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..6260746 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,11 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
-    heapify_down(i);
+  if (i < _heap.size()) {
+    Tvar moved = _heap[i];
+    heapify_up(i);
+    heapify_down(_index[moved]);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 83e240a36c6dffd7350249edbb1a2dfed555f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 22/72] fix: keep the cross chunks of an eagerly reimplied
 decision up to date

---
 src/solver/NapSAT-imply.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 6f64e01..730ae00 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -411,6 +411,10 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   // update the decision level and bitset
   lit_level(decision) = implication_level(reason);
   lit_chunks(decision) = reason_chunks;
+  if (lit_propagated(decision)) {
+    lit_cross_chunks(decision).set(decision_chunk, false);
+    lit_cross_chunks(decision) |= reason_chunks;
+  }
 
   // update the cross chunk
   if (clause_size(reason) >= 2) {
-- 
2.43.0


From 90c652fe82b49190fc2f2931966c2004b4aaff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 23/72] fix: visit each proof clause once when printing a proof

---
 src/proof/proof.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..cf7c669 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -369,9 +369,12 @@ void resolution_proof::print_proof(void)
     unsigned index = clauses_to_check.back();
     clauses_to_check.pop_back();
     clause &c = clauses[index];
+    if (c.marked)
+      continue;
     c.marked = true;
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      clauses_to_check.push_back(link.second);
+      if (!clauses[link.second].marked)
+        clauses_to_check.push_back(link.second);
   }
 
   for (unsigned index = 0; index < clauses.size(); index++) {
-- 
2.43.0


From 14c58be337370eb43a54a45cabffd047cbde8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 24/72] fix: record the root literals removed from an input
 clause in the proof, also when it becomes empty

---
 src/solver/NapSAT-clauses.cpp | 50 ++++++++++++++++++++++-------------
 src/solver/NapSAT.hpp         |  9 +++++++
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 1a403c5..161d686 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -102,6 +102,34 @@ Tclause napsat::NapSAT::next_clause_id(size_t size)
   return cl;
 }
 
+void napsat::NapSAT::record_input_clause(Tclause id, const Tlit* lits_input, unsigned input_size)
+{
+  const TSclause& clause = _clauses[id];
+  if (_proof) {
+    _proof->input_clause(id, lits_input, input_size);
+    // Remove the literals falsified at level 0 in the proof
+    vector<Tlit> removed;
+    for (unsigned i = 0; i < input_size; i++)
+      if (lit_level(lits_input[i]) == LEVEL_ROOT)
+        removed.push_back(lits_input[i]);
+    if (!removed.empty()) {
+      _proof->start_resolution_chain();
+      _proof->link_resolution(LIT_UNDEF, id);
+      prove_root_literal_removal(removed.data(), removed.size());
+      // we need to deactivate the clause to be able to replace it
+      _proof->deactivate_clause(id);
+      _proof->finalize_resolution(id, clause.lits, clause.size);
+    }
+  }
+  if (_dependency_tracker) {
+    _dependency_tracker->add_input(id);
+    // Remove the literals falsified at level 0 in the dependencies
+    for (unsigned i = 0; i < input_size; i++)
+      if (lit_level(lits_input[i]) == LEVEL_ROOT)
+        _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
+  }
+}
+
 Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             const unsigned input_size,
                                             bool learned,
@@ -191,6 +219,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
 
   if (clause_size == 0) {
+    if (external)
+      record_input_clause(id, lits_input, input_size);
     _status = status::UNSAT;
     return id;
   }
@@ -225,24 +255,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = new_size;
   }
 
-  if (_proof && external) {
-    _proof->input_clause(id, lits_input, input_size);
-    // Remove the literals falsified at level 0 in the proof
-    if (n_removed > 0) {
-      _proof->remove_root_literals(id);
-    }
-  }
-  if (_dependency_tracker && external) {
-    _dependency_tracker->add_input(id);
-    // Remove the literals falsified at level 0 in the dependencies
-    if (n_removed > 0) {
-      for (unsigned i = 0; i < input_size; i++) {
-        if (lit_level(lits_input[i]) == LEVEL_ROOT) {
-          _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
-        }
-      }
-    }
-  }
+  if (external)
+    record_input_clause(id, lits_input, input_size);
   // sort the literals
   sort(lits, lits + clause.size);
   // print the clause
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 9cc4c18..44a5811 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1567,6 +1567,15 @@ public:
      */
     Tclause next_clause_id(size_t size);
 
+    /**
+     * @brief Records an input clause in the proof and in the dependency tracker, together with the
+     * removal of its literals falsified at root level.
+     * @param id The clause id. The literals kept in the clause must already be in place.
+     * @param lits The literals of the clause as given by the user.
+     * @param n_lits The number of literals given by the user.
+     */
+    void record_input_clause(Tclause id, const Tlit* lits, unsigned n_lits);
+
     /**
      * @brief allocates a new chunk of memory for a clause, and adds to the
      * clause set. The clause is added to the watch lists if needed (size >= 2).
-- 
2.43.0


From 45019f025e36421640924e61a7c10d79e6aa632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 25/72] fix: release the clause id borrowed for the empty
 clause of a proof

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index d863928..68fa7be 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -434,6 +434,8 @@ bool NapSAT::root_level_conflict()
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        // the id was only borrowed, the next clause will use it
+        _proof->deactivate_clause(_clauses.size());
       }
       return true;
     }
-- 
2.43.0


From a345643f88470591cdf62c7c1c47fa6dd2806c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 26/72] fix: derive the empty clause when lazy chunk merging
 leaves no way to repair the conflicts

---
 src/solver/NapSAT-conflict.cpp | 51 ++++++++++++++++++++++++++++++++--
 src/solver/NapSAT.hpp          |  4 +--
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 68fa7be..14b70e1 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -445,7 +445,53 @@ bool NapSAT::root_level_conflict()
 
 void NapSAT::prove_root_conflict_with_lazy_merging()
 {
-  ASSERT(false);
+  ASSERT(_proof);
+  ASSERT(_options.lazy_chunk_merging);
+  auto implying_clause = [this](Tlit lit) {
+    return lit_reason(lit) != CLAUSE_UNDEF ? lit_reason(lit) : lit_lazy_reason(lit);
+  };
+
+  for (Tclause conflict : _conflicts) {
+    // Depth first traversal of the implications of the conflict. The reasons are pushed in "order" before the literals they imply.
+    vector<Tlit> order;
+    vector<pair<Tlit, bool>> stack;
+    vector<bool> visited(_vars.size().value, false);
+    bool closed = true;
+    for (unsigned i = 0; i < clause_size(conflict); i++)
+      stack.push_back({~clause_lits(conflict)[i], false});
+    while (closed && !stack.empty()) {
+      auto [lit, expanded] = stack.back();
+      stack.pop_back();
+      if (expanded) {
+        order.push_back(lit);
+        continue;
+      }
+      if (visited[lit.var().value])
+        continue;
+      visited[lit.var().value] = true;
+      Tclause reason = implying_clause(lit);
+      if (reason == CLAUSE_UNDEF) {
+        // The conflict depends on a decision that is not reimplied
+        closed = false;
+        break;
+      }
+      stack.push_back({lit, true});
+      for (unsigned i = 1; i < clause_size(reason); i++)
+        stack.push_back({~clause_lits(reason)[i], false});
+    }
+    if (!closed)
+      continue;
+
+    _proof->start_resolution_chain();
+    _proof->link_resolution(LIT_UNDEF, conflict);
+    for (size_t i = order.size(); i-- > 0;)
+      _proof->link_resolution(~order[i], implying_clause(order[i]));
+    _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+    // the id was only borrowed, the next clause will use it
+    _proof->deactivate_clause(_clauses.size());
+    return;
+  }
+  ASSERT(false, "The conflicts should follow from the clauses only");
 }
 
 void NapSAT::calculate_bitset_weights(vector<Tweight>& weights)
@@ -1262,7 +1308,8 @@ void NapSAT::graph_repair()
 
   if (possibilities.empty()) {
     // we cannot repair the conflicts
-    // TODO: We still need to generate the empty clause for the proof
+    if (_proof && _n_assumptions == 0)
+      prove_root_conflict_with_lazy_merging();
     _status = status::UNSAT;
     return;
   }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 44a5811..7ce9875 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1914,8 +1914,8 @@ public:
 
     /**
      * @brief In Lazy Chunk Merging (see -lcm option), a conflict an be detected as root level even if its literals are not all at root level. This is the case because the conflict is caused by chunks that are all lazily merged with the empty set of chunks. We can then conclude UNSAT. This function deduces the empty clause for the proof.
-     * @pre The literals of the conflict are in the _lit_buffer and its size in _lit_buffer_size.
-     * @post The empty clause is added to the proof and the status is set to UNSAT.
+     * @pre No backtrack possibility repairs the conflicts, and there are no assumptions.
+     * @post The empty clause is added to the proof.
      */
     void prove_root_conflict_with_lazy_merging();
 
-- 
2.43.0


From 246b5bc628991afee3a074ddaa31f0c6442b569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 27/72] fix: honour the timeout option

---
 src/solver/NapSAT.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 89925ed..adcad49 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -397,6 +397,7 @@ bool NapSAT::propagate()
 status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
+  const auto timeout_start = _options.timeout >= 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point();
   if (_status != status::UNKNOWN) {
     ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
@@ -456,6 +457,10 @@ status NapSAT::solve()
     ASSERT(_options.interactive || _status != status::UNSAT);
     if (_status == status::SAT)
       break;
+    // the clock is only read if it is needed; it must not be affected by adjustments of the system time
+    if (_options.timeout >= 0
+      && std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - timeout_start).count() >= _options.timeout)
+      break;
   }
   if (_status == status::SAT)
     NOTIFY(check_invariants);
-- 
2.43.0


From 17da283fabb422fe26010923d44fd6c485becd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 28/72] fix: refuse truncated xz files and read concatenated
 compressed streams

---
 src/utils/decoder.cpp | 91 ++++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..85cdc05 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -20,6 +20,7 @@
 #include <fstream>
 #include <lzma.h>
 #include <bzlib.h>
+#include <cstring>
 #include <string>
 #include <sstream>
 
@@ -100,7 +101,8 @@ static string byte_size_to_string(uint64_t n_bytes) {
 bool decompress_xz(const char* filename, ostringstream& output)
 {
   lzma_stream strm = LZMA_STREAM_INIT;
-  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, 0);
+  // a file may be the concatenation of several streams
+  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, LZMA_CONCATENATED);
   if (ret != LZMA_OK) {
     LOG_ERROR("failed to initialize the decompression stream");
     return false;
@@ -108,29 +110,40 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
   char buffer_in[buff_size];
   char buffer_out[buff_size];
+  lzma_action action = LZMA_RUN;
 
   do {
-    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
-    if (strm.avail_in == 0)
-      break;
-    strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
-    do {
-      strm.avail_out = sizeof(buffer_out);
-      strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
-      ret = lzma_code(&strm, LZMA_RUN);
-      if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
-        print_error_message(ret);
+    if (strm.avail_in == 0 && action == LZMA_RUN) {
+      file.read(buffer_in, sizeof(buffer_in));
+      if (file.bad()) {
+        LOG_ERROR("could not read file " << filename);
+        lzma_end(&strm);
         return false;
       }
-      output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
-    } while (strm.avail_out == 0);
+      strm.avail_in = file.gcount();
+      strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
+      // once everything is read, the decoder reports an error if the stream is not complete
+      if (file.eof())
+        action = LZMA_FINISH;
+    }
+    strm.avail_out = sizeof(buffer_out);
+    strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
+    ret = lzma_code(&strm, action);
+    if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
+      print_error_message(ret);
+      lzma_end(&strm);
+      return false;
+    }
+    output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
@@ -145,24 +158,48 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
         return false;
     }
 
-    BZFILE* bzFile = nullptr;
-    int bzError;
-    bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, nullptr, 0);
-    if (bzError != BZ_OK) {
-        fclose(file);
-        return false;
-    }
+    // a file may be the concatenation of several streams
+    char unused[BZ_MAX_UNUSED];
+    int nUnused = 0;
+    bool success = false;
+    bool more = true;
+    while (more) {
+        int bzError;
+        BZFILE* bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, unused, nUnused);
+        if (bzError != BZ_OK) {
+            fclose(file);
+            return false;
+        }
 
-    while (bzError == BZ_OK) {
-        int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
-        if (bytesRead > 0) {
-            output.write(buffer, bytesRead);
+        while (bzError == BZ_OK) {
+            int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
+            if (bytesRead > 0) {
+                output.write(buffer, bytesRead);
+            }
         }
-    }
 
-    bool success = (bzError == BZ_STREAM_END);
+        success = (bzError == BZ_STREAM_END);
+        if (success) {
+            // the bytes read ahead belong to the next stream
+            void* next = nullptr;
+            BZ2_bzReadGetUnused(&bzError, bzFile, &next, &nUnused);
+            memcpy(unused, next, nUnused);
+        }
+        BZ2_bzReadClose(&bzError, bzFile);
+
+        more = false;
+        if (success && nUnused > 0) {
+            more = true;
+        } else if (success) {
+            int c = fgetc(file);
+            more = (c != EOF);
+            if (more)
+                ungetc(c, file);
+            else
+                success = !ferror(file);
+        }
+    }
 
-    BZ2_bzReadClose(&bzError, bzFile);
     fclose(file);
 
     return success;
-- 
2.43.0


From e81696d42dbdaf6f9a2473b6e0758d5c0717a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 29/72] fix: accept file names shorter than the compressed
 extensions

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f871cbf..9cecf90 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -51,7 +51,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +60,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From d0280f538c2df55ed8c5d55a21bae90b399d8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 30/72] fix: reject the annotations of variables that do not
 exist

---
 src/solver/NapSAT-utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 9cecf90..51c2647 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -102,9 +102,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           if (var >= _vars.size())
             var_allocate(var + 1);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
@@ -139,9 +140,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
-- 
2.43.0


From 54f0f24f4aa04c5a06116be54f537768dab3e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 31/72] fix: read DIMACS clauses up to their terminating zero

---
 src/solver/NapSAT-utils.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 51c2647..068eb4b 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -81,6 +81,8 @@ bool NapSAT::parse_dimacs(const char* filename)
 
   string line;
   bool first_line = true;
+  vector<Tlit> clause;
+  clause.reserve(1);
   while (getline(stream, line)) {
     ltrim(line);
     if (line.empty())
@@ -170,7 +172,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
+        unsigned n_var = 0, n_clauses = 0;
         sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
         if (n_var > _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
@@ -183,12 +185,10 @@ bool NapSAT::parse_dimacs(const char* filename)
     }
     first_line = false;
 
+    // a clause ends with a zero, not with the line
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while(ss >> token) {
       int lit;
       try {
         size_t pos;
@@ -200,14 +200,19 @@ bool NapSAT::parse_dimacs(const char* filename)
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (lit != 0) {
+        clause.push_back(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      add_clause(clause.data(), clause.size());
+      clause.clear();
+      if (_status == status::UNSAT)
+        return true;
     }
-    finalize_clause();
-    if (_status != status::UNKNOWN)
-      return true;
   }
+  // tolerate a missing zero at the end of the file
+  if (!clause.empty())
+    add_clause(clause.data(), clause.size());
   return true;
 }
 
-- 
2.43.0


From 016d5b8a07edc7e5e40021ab03b50a03dbbc2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 32/72] fix: do not collect a literal twice when the analysis
 continues past a missed implication

---
 src/solver/NapSAT-conflict.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 14b70e1..aa5791e 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1212,7 +1212,9 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
 
       const Tlit* reason_lits = clause_lits(lazy_reason);
       for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
-        _lit_buffer[_lit_buffer_size++] = reason_lits[j];
+        // the buffer can hold each literal only once
+        if (find(_lit_buffer, _lit_buffer + _lit_buffer_size, reason_lits[j]) == _lit_buffer + _lit_buffer_size)
+          _lit_buffer[_lit_buffer_size++] = reason_lits[j];
       }
       if (_lit_buffer_size == 1) {
         _lit_buffer_size = 0;
-- 
2.43.0


From 74ad0193ab574ada4ee2362e83a2a963fb0f8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 33/72] fix: resolve reimplied decisions in trail order when
 checking that a conflict has a UIP

---
 src/solver/NapSAT-conflict.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index aa5791e..e05372b 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1039,19 +1039,20 @@ bool NapSAT::conflict_can_generate_learned_clause(Tclause conflict, const bitset
   bool changed = true;
   while (changed && chunk_count > 1) {
     changed = false;
+    // the conflict analysis resolves the reimplied decisions of the backtracked chunks, from the end of the trail
+    Tchunk highest = CHUNK_UNDEF;
     for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
-      Tchunk chunk = *it;
-      const bitset& reimplied_chunks = _chunks[chunk].missed_implication;
-      // the conflict analysis resolves any reimplied decision of the backtracked chunks
-      if (_chunks[chunk].is_reimplied) {
-        conflict_chunks |= reimplied_chunks;
-        conflict_chunks.set(chunk, false);
-
-        conflict_chunks &= bt;
-        chunk_count = conflict_chunks.count();
-        changed = true;
-        break;
-      }
+      if (_chunks[*it].is_reimplied
+        && (highest == CHUNK_UNDEF || chunk_level(*it) > chunk_level(highest)))
+        highest = *it;
+    }
+    if (highest != CHUNK_UNDEF) {
+      conflict_chunks |= _chunks[highest].missed_implication;
+      conflict_chunks.set(highest, false);
+
+      conflict_chunks &= bt;
+      chunk_count = conflict_chunks.count();
+      changed = true;
     }
   }
   return chunk_count == 1;
-- 
2.43.0


From 6e12b383a54d435764843c552099c60bf41a8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 34/72] fix: keep a recycled clause's memory valid when its
 reallocation fails

---
 src/solver/NapSAT-clauses.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 161d686..5190b90 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -86,8 +86,10 @@ Tclause napsat::NapSAT::next_clause_id(size_t size)
   ASSERT(clause.deleted);
   ASSERT(!clause.watched);
   if (_clauses_sizes[cl] < size) {
+    // allocate first: if it fails, the clause must not keep a pointer to released memory
+    Tlit* lits = new Tlit[size];
     delete[] clause.lits;
-    clause.lits = new Tlit[size];
+    clause.lits = lits;
     _clauses_sizes[cl] = size;
   }
   clause.deleted = true;
-- 
2.43.0


From ffa80f2952304f12abdb062b43446fc36746a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 35/72] fix: allocate only the variables that DIMACS
 annotations name

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 068eb4b..ced9a5f 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -109,7 +109,7 @@ bool NapSAT::parse_dimacs(const char* filename)
             throw invalid_argument(var_string);
           Tvar var = number;
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -150,7 +150,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
-- 
2.43.0


From 292a71d10c812df52df2a3c8241c617e62ad7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 36/72] fix: refuse DIMACS literals that have no opposite

---
 src/solver/NapSAT-utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index ced9a5f..9c4a366 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -21,6 +21,7 @@
 #include <fstream>
 #include <iomanip>
 #include <algorithm>
+#include <limits>
 
 #define ORANGE "\033[0;33m"
 #define GREEN "\033[0;32m"
@@ -193,7 +194,8 @@ bool NapSAT::parse_dimacs(const char* filename)
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        // the smallest integer has no opposite
+        if (pos != token.size() || lit == numeric_limits<int>::min())
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
-- 
2.43.0


From de3165aaa0fc63740ca8cf8a610e2b295c5b42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 37/72] fix: allocate the last variable announced by a DIMACS
 header

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 9c4a366..4bb1ede 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -175,7 +175,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (first_line) {
         unsigned n_var = 0, n_clauses = 0;
         sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var > _vars.size().value) {
+        if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
-- 
2.43.0


From 80940875dbbaca7091d213efbf6b1fa519940b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 38/72] fix: do not take a lack of memory for the end of a
 DIMACS file

---
 src/solver/NapSAT-utils.cpp | 6 ++++++
 src/utils/decoder.cpp       | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4bb1ede..39ae24d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -80,6 +80,9 @@ bool NapSAT::parse_dimacs(const char* filename)
     stream = istringstream(string((istreambuf_iterator<char>(file)), istreambuf_iterator<char>()));
   }
 
+  // running out of memory must not look like the end of the input
+  stream.exceptions(ios::badbit);
+
   string line;
   bool first_line = true;
   vector<Tlit> clause;
@@ -94,6 +97,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       // the comment should be of the form:
       // >co <var> <alias>
       istringstream ss(line);
+      ss.exceptions(ios::badbit);
       string alias, var_string, rest;
 
       // does not work with `=` anymore
@@ -133,6 +137,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       // the comment should be of the form:
       // >cw <var> <weight>
       istringstream ss(line);
+      ss.exceptions(ios::badbit);
       string weight_string, var_string, rest;
 
       ss.ignore(2);
@@ -189,6 +194,7 @@ bool NapSAT::parse_dimacs(const char* filename)
     // a clause ends with a zero, not with the line
     string token;
     istringstream ss(line);
+    ss.exceptions(ios::badbit);
     while(ss >> token) {
       int lit;
       try {
diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index 85cdc05..dc1eb88 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -141,6 +141,11 @@ bool decompress_xz(const char* filename, ostringstream& output)
       return false;
     }
     output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
+    if (!output) {
+      LOG_ERROR("could not store the decompressed data");
+      lzma_end(&strm);
+      return false;
+    }
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
   lzma_end(&strm);
@@ -202,5 +207,5 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
 
     fclose(file);
 
-    return success;
+    return success && output.good();
 }
-- 
2.43.0


From 88a7fd28d6ec276afcb5ba674f99b7b4478636d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 39/72] fix: do not continue with half-allocated variables
 after a DIMACS annotation

---
 src/solver/NapSAT-utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 39ae24d..c6b3584 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -119,6 +119,9 @@ bool NapSAT::parse_dimacs(const char* filename)
           // done, next line
           continue;
         }
+        catch (const bad_alloc &e) {
+          throw;
+        }
         catch (const exception &e) {
           // fall through printing the warning
         }
@@ -161,6 +164,9 @@ bool NapSAT::parse_dimacs(const char* filename)
           // done, next line
           continue;
         }
+        catch (const bad_alloc &e) {
+          throw;
+        }
         catch (const exception &e) {
           // fall through printing the warning
         }
-- 
2.43.0


From b58f8295ca7095b1e439f5032c5bd24ed7400ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 40/72] fix: create only the variables that were asked for

---
 src/solver/NapSAT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index adcad49..7330bb8 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -259,7 +259,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   // TODO replace this with an std::vector
   _lit_buffer = new Tlit[2*n_var+1];
   _lit_buffer_size = 0;
-  var_allocate(n_var + 1);
+  var_allocate(n_var);
 
   if (options.build_proof)
     _proof = new napsat::proof::resolution_proof();
@@ -275,7 +275,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
-- 
2.43.0


From 48a7bb726e4d6c85697753af3a7e2184d7e22453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 41/72] fix: reject --all-models without a file and never pass
 a null clause

---
 main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.cpp b/main.cpp
index ea4c76a..c930fbd 100644
--- a/main.cpp
+++ b/main.cpp
@@ -46,6 +46,10 @@ int main(int argc, char** argv)
       argv[i] = argv[i + 1];
     }
     argc--;
+    if (argc < 2) {
+      cout << "Usage: " << argv[0] << " --all-models <input_file> [options]" << endl;
+      return 1;
+    }
   }
 
   vector<string> tokens(argv + 2, argv + argc);
@@ -71,6 +75,8 @@ int main(int argc, char** argv)
       cout << "Model found: " << n_models << "\r " << std::flush;
       vector<Tlit> blocking_clause;
       const vector<Tlit>& trail = get_partial_assignment(solver);
+      // an empty vector may have no data, but add_clause needs a valid pointer
+      blocking_clause.reserve(trail.size() + 1);
       for (Tlit lit : trail) {
         blocking_clause.push_back(~lit);
       }
-- 
2.43.0


From 04e9773d7f897dd9096125cf1cc53df4f2f32c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 42/72] fix: repair the conflict that reaches the conflict
 limit before returning

---
 src/solver/NapSAT.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 7330bb8..a97f4fc 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -369,15 +369,17 @@ bool NapSAT::propagate()
 
     if (!_conflicts.empty()) {
       _conflict_count++;
-      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
-        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
-        return false;
-      }
+      // the conflicts are repaired even if the limit is reached. Otherwise, they may not be conflicting
+      // anymore when the search is resumed, because adding a clause can backtrack.
       repair_conflicts();
 
       if (_status == status::UNSAT) {
         return false;
       }
+      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
+        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        return false;
+      }
       if (_options.delete_clauses && _n_learned_clauses >= _next_clause_elimination){
         simplify_clause_set();
       }
-- 
2.43.0


From 62a92614af59b475a4b77450adc2427580b5f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 43/72] fix: check the pivots of the resolution chains in all
 builds

---
 src/proof/proof.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index cf7c669..d45a397 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -163,28 +163,30 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     return true;
   }
   tmp_lits.clear();
+  bool first_link = true;
   for (pair<Tlit, unsigned> link : c.resolution_chain) {
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
 
-    if (pivot == LIT_UNDEF)
-      continue;
-
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+    // the first clause of the chain is not resolved with anything
+    if (first_link != (pivot == LIT_UNDEF)) {
+      LOG_ERROR("The resolution chain is malformed: only its first link must have no pivot");
+      return false;
+    }
+    if (!first_link) {
+      // the pivot must be in the current clause, and its negation in the clause to resolve with
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size() || binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+        LOG_ERROR("The clauses cannot be resolved on the pivot " + pivot.to_string());
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
+    for (unsigned i = 0; i < cl.size; i++)
+      if (first_link || cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
+    first_link = false;
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From a9765ee7b9fad1a414a996d7b284467705ea0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 44/72] fix: remove the root literals that come from the
 reasons as well

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index d45a397..f1d6956 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -259,7 +259,8 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
 
   unsigned i = root_lit.size();
   while (i > 0) {
-    while (i > 0 && find(c.lits, end, ~root_lit[i-1]) == end) // TODO can use binary search if too slow
+    // the reasons can bring other literals falsified at root level in the clause
+    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
       i--;
     if (i == 0)
       break;
-- 
2.43.0


From 8c8c2937a7934fe8a9d2bbc8523bb9180c36f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 45/72] fix: accept bitsets of size zero

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3ed90ad..e6feafa 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -78,7 +78,7 @@ bitset::bitset() noexcept : _bits(1) {
   assert(_bits[0] == 0);
 }
 
-bitset::bitset(size_t size) noexcept : _bits(MP(size-1) + 1, M_NEXT_MSK) {
+bitset::bitset(size_t size) noexcept : _bits(size ? MP(size-1) + 1 : 1, M_NEXT_MSK) {
   // clear the last entry
   _bits.back() = 0;
 }
-- 
2.43.0


From 2b4a84a8f4b465b782b9b777460e9a61850f207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 46/72] fix: clear the marks of the proof clauses when a check
 fails

---
 src/proof/proof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index f1d6956..e971784 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -287,12 +287,12 @@ bool resolution_proof::check_proof(void)
   assert(empty_clause_id != 0xFFFFFFFF);
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  bool valid = true;
+  while(valid && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
     clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    valid = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
       if (!clauses[link.second].marked)
@@ -300,7 +300,7 @@ bool resolution_proof::check_proof(void)
   }
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return valid;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From c67b44846d9cd7f72176ab88732e9842133c8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 47/72] fix: refuse malformed checkpoint commands and repair
 the watch lists after a deletion

---
 src/solver/NapSAT-utils.cpp | 60 ++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index c6b3584..334a74d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -977,6 +977,21 @@ void NapSAT::print_watch_lists(Tlit lit) const
   }
 }
 
+/** Reads an integer that makes up the whole token. Returns false if the token is not one. */
+static bool parse_integer(const std::string& token, int& number)
+{
+  try {
+    size_t pos;
+    number = stoi(token, &pos);
+    // the smallest integer has no opposite
+    return pos == token.size() && number != numeric_limits<int>::min();
+  } catch (const invalid_argument&) {
+    return false;
+  } catch (const out_of_range&) {
+    return false;
+  }
+}
+
 bool NapSAT::parse_command(std::string input)
 {
   if (input == "") {
@@ -1013,7 +1028,11 @@ bool NapSAT::parse_command(std::string input)
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
-      int lit_int = stoi(tokens[1]);
+      int lit_int;
+      if (!parse_integer(tokens[1], lit_int) || lit_int == 0 || (unsigned) abs(lit_int) >= _vars.size().value) {
+        LOG_WARNING("\"" << tokens[1] << "\" is not a literal of the problem. This command is ignored.");
+        return false;
+      }
       Tlit lit = Tlit(abs(lit_int), lit_int > 0);
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
@@ -1031,7 +1050,11 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
+    int lit_int;
+    if (!parse_integer(tokens[1], lit_int) || lit_int == 0 || (unsigned) abs(lit_int) >= _vars.size().value) {
+      LOG_WARNING("\"" << tokens[1] << "\" is not a literal of the problem. This command is ignored.");
+      return false;
+    }
     Tlit lit(abs(lit_int), lit_int > 0);
     if (!assume(lit)) {
       LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
@@ -1043,7 +1066,11 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
+    int lit_int;
+    if (!parse_integer(tokens[1], lit_int) || lit_int == 0 || (unsigned) abs(lit_int) >= _vars.size().value) {
+      LOG_WARNING("\"" << tokens[1] << "\" is not a literal of the problem. This command is ignored.");
+      return false;
+    }
     Tlit lit(abs(lit_int), lit_int > 0);
     if (!forget_assumption(lit)) {
       LOG_WARNING("The forgetting of assumption of literal " << lit_to_string(lit) << " failed.");
@@ -1074,12 +1101,18 @@ bool NapSAT::parse_command(std::string input)
     }
   }
   else if (tokens[0] == "LEARN") {
-    start_clause();
+    vector<Tlit> lits;
+    // an empty vector may have no data, but add_clause needs a valid pointer
+    lits.reserve(tokens.size());
     for (unsigned i = 1; i < tokens.size(); i++) {
-      int lit = stoi(tokens[i]);
-      add_literal(Tlit(abs(lit), lit > 0));
+      int lit;
+      if (!parse_integer(tokens[i], lit) || lit == 0) {
+        LOG_WARNING("\"" << tokens[i] << "\" is not a literal. This command is ignored.");
+        return false;
+      }
+      lits.push_back(Tlit(abs(lit), lit > 0));
     }
-    finalize_clause();
+    add_clause(lits.data(), lits.size());
   }
   else if (tokens[0] == "EXIT") {
     exit(0);
@@ -1105,16 +1138,23 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    Tclause cl = stoi(tokens[1]);
-    if (cl < 0 || cl >= _clauses.size()) {
-      LOG_WARNING("The clause " << cl << " does not exist. This command is ignored.");
+    int number;
+    if (!parse_integer(tokens[1], number) || number < 0 || (unsigned) number >= _clauses.size().value) {
+      LOG_WARNING("The clause " << tokens[1] << " does not exist. This command is ignored.");
       return false;
     }
+    Tclause cl = number;
     if (_clauses[cl].deleted) {
       LOG_WARNING("The clause " << cl << " is already deleted\n");
       return false;
     }
+    if (is_protected(cl)) {
+      LOG_WARNING("The clause " << cl << " is the reason of a literal. This command is ignored.");
+      return false;
+    }
     delete_clause(cl);
+    // the identifier of the clause can be reused
+    repair_watch_lists();
   }
   else if (tokens[0] == "HELP") {
     // print the content of the help file
-- 
2.43.0


From 06015a165f834fab1fab9b0b771102a112ed69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 48/72] fix: keep the assumptions when restarting in graph
 backtracking

---
 src/solver/NapSAT.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index a97f4fc..c8fe064 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -67,7 +67,17 @@ void NapSAT::restart()
   NOTIFY_STAT(_n_restart);
   if (_options.graph_backtracking) {
     unsigned tmp = _n_propagated_lits;
-    backtrack(LEVEL_ROOT);
+    if (_locked_chunks.empty()) {
+      backtrack(LEVEL_ROOT);
+    } else {
+      // the assumptions cannot be backtracked
+      bitset backtracked_chunks(_n_allocated_chunks);
+      for (Tlevel level = 1; level <= solver_level(); level++)
+        backtracked_chunks |= lit_chunks(decision_lit(level));
+      backtracked_chunks -= _locked_chunks;
+      if (!backtracked_chunks.empty())
+        backtrack(backtracked_chunks);
+    }
     _n_propagated_lits = min(tmp, _n_propagated_lits);
     size_t i = _trail.size();
     while (i > 0) {
-- 
2.43.0


From 52cbcf7b3dbd5873549ae14f009bd8740a364a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 49/72] fix: do not merge the chunks of assumptions

---
 src/solver/NapSAT-imply.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 730ae00..a0cbcf7 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -324,8 +324,8 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
 
   lit_cross_chunks(c1) |= lit_chunks(c2);
 
-  if (!lit_decision(c2)) {
-    //nothing to do here
+  if (!lit_decision(c2) || lit_locked(c2)) {
+    //nothing to do here, the assumptions remain decisions
     return;
   }
 
-- 
2.43.0


From 0373e33765c05f21504857de1ef22646277256a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 50/72] fix: lock, refuse and forget assumptions consistently
 in graph backtracking

---
 src/solver/NapSAT-assumptions.cpp | 169 +++++++++++++++---------------
 src/solver/NapSAT-clauses.cpp     |   1 +
 src/solver/NapSAT-conflict.cpp    |   2 +
 src/solver/NapSAT.hpp             |   6 ++
 4 files changed, 92 insertions(+), 86 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..e924463 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -26,6 +26,12 @@ bool NapSAT::assume(Tlit assumption)
     ASSERT(false);
   }
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  // the trail cannot be modified before the conflicts of the added clauses are repaired
+  if (!_conflicts.empty())
+    repair_conflicts();
+  // the clauses are already unsatisfiable with the current assumptions
+  if (_status == status::UNSAT)
+    return false;
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
   bool success = true;
   if (_options.graph_backtracking) {
@@ -42,24 +48,29 @@ bool NapSAT::assume(Tlit assumption)
 
 bool NapSAT::add_assumption(const std::vector<Tlit>& assumptions)
 {
-  return false;
+  for (Tlit assumption : assumptions)
+    if (!assume(assumption))
+      return false;
+  return true;
 }
 
 bool NapSAT::forget_assumption(Tlit assumption)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    if (!lit_locked(assumption)) {
+    if (!lit_locked(assumption) || !lit_true(assumption)) {
       // the assumption was not added
       return false;
     }
-    ASSERT(lit_decision(assumption));
+    // an assumption implied at root level does not have a chunk
+    ASSERT(lit_decision(assumption) || lit_level(assumption) == LEVEL_ROOT);
+    ASSERT(lit_level(assumption) == LEVEL_ROOT || lit_chunks(assumption).count() == 1);
     // unlock the chunk of the literal
-    ASSERT(lit_chunks(assumption).count() == 1);
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && _unsat_modulo_assumptions) {
+    _unsat_modulo_assumptions = false;
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -70,16 +81,16 @@ void NapSAT::forget_assumption()
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    // unlock all locked chunks
-    for (auto it = _locked_chunks.cbegin(); it != _locked_chunks.cend(); ++it) {
-      Tvar var = _chunks[*it].decision;
-      Tlit lit(var, var_value(var));
-      ASSERT(lit_decision(lit));
-      lit_unlock(lit);
+    // the assumptions implied at root level do not have a chunk, so we cannot rely on the locked chunks
+    for (Tlit lit : _trail) {
+      if (lit_locked(lit))
+        lit_unlock(lit);
     }
+    ASSERT(_n_assumptions == 0);
     _locked_chunks.clear();
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && _unsat_modulo_assumptions) {
+    _unsat_modulo_assumptions = false;
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -89,29 +100,26 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  std::vector<Tlit> failed;
+  if (!_unsat_modulo_assumptions) {
+    // the clauses are unsatisfiable without any assumption
+    return failed;
+  }
   // look at each conflict clause, and find the ones that are failed by locked
   // chunks only. Return the corresponding literals.
-  std::vector<Tlit> failed;
-  bitset conflict_chunks(_n_allocated_chunks);
+  bitset failed_chunks = _locked_chunks;
   for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
+    bitset conflict_chunks = clause_chunks(conflict);
     if (conflict_chunks <= _locked_chunks) {
       // all chunks in the conflict are locked, the assumption failed
-      for (unsigned i = 0; i < size; i++) {
-        Tlit lit = lits[i];
-        if (lit_decision(lit) && lit_locked(lit)) {
-          failed.push_back(lit);
-        }
-      }
-      return failed;
+      failed_chunks = conflict_chunks;
+      break;
     }
   }
-  ASSERT(false);
+  for (auto it = failed_chunks.cbegin(); it != failed_chunks.cend(); ++it) {
+    Tvar var = _chunks[*it].decision;
+    failed.push_back(Tlit(var, var_value(var)));
+  }
   return failed;
 }
 
@@ -205,88 +213,78 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   }
 
   if (lit_level(lit) == LEVEL_ROOT) {
-    // the literal is at root level, just lock its chunk
-    // nothing needs to be done
+    // the literal is at root level, it does not have any chunk to lock
     ASSERT(lit_chunks(lit).count() == 0);
+    lit_lock(lit);
     return;
   }
 
-  // search the literal in the trail
-  Tlevel level = lit_level(lit);
-  ASSERT(level != LEVEL_UNDEF);
-  // first literal at level after the decision (we do not want to count the decision to increment the level)
-  size_t pos = _decision_index[level-1] + 1;
-  for (; pos < _trail.size(); pos++) {
-    Tlit l = _trail[pos];
-    if (l == lit) {
-      break;
-    }
-    level += lit_decision(l) ? 1 : 0;
-  }
+  // search the literal in the trail and count the decisions before it
+  size_t pos = 0;
+  Tlevel level = LEVEL_ROOT;
+  for (; pos < _trail.size() && _trail[pos] != lit; pos++)
+    level += lit_decision(_trail[pos]) ? 1 : 0;
   ASSERT(pos < _trail.size());
 
+  if (_free_chunks.empty())
+    allocate_chunks(2 * _n_allocated_chunks);
+
   /**
    * To fix the trail, we need to
    * 1. make the literal a decision at the right level
    *    i.e., counting the number of decisions before it in the trail (stored in `level`)
    * 2. lock its chunk
-   * 3. update the chunks of all literals whose chunks are superset of the chunk of the assumed literal (before the change)
-   * 4. update the levels of all literals above `level` in the trail (because we added a decision)
+   * 3. add the new chunk to the cross chunks of the literals whose propagation depended on the old ones
+   * 4. forget the missed implications that may depend on the literal
+   * 5. update the chunks and levels of all literals after it in the trail (because we added a decision)
    */
-  bitset lit_chunk = lit_chunks(lit);
-  _decision_index.resize(_decision_index.size() + 1);
-  _decision_index[level] = pos;
+  const bitset old_chunks = lit_chunks(lit);
+  const Tclause old_reason = lit_reason(lit);
+  unsigned ck = _free_chunks.back();
+  _free_chunks.pop_back();
+  _decision_index.insert(_decision_index.begin() + level.value, pos);
 
-  lit_lazy_reason(lit) = lit_reason(lit);
   lit_reason(lit) = CLAUSE_UNDEF;
   NOTIFY(update_reason, lit, CLAUSE_UNDEF);
-  lit_level(lit) = level+1;
-  NOTIFY(update_level, lit, level+1);
-
+  lit_level(lit) = level + 1;
+  NOTIFY(update_level, lit, lit_level(lit));
   lit_chunks(lit).clear();
-  unsigned ck = _free_chunks.back();
-  _free_chunks.pop_back();
-
   lit_chunks(lit).set(ck, true);
   _chunks[ck].decision = lit.var();
-  _chunks[ck].missed_implication = lit_chunk;
   _locked_chunks.set(ck, true);
-
   lit_lock(lit);
 
-  // update the chunks and levels of all literals above `pos` in the trail
+  for (Tlit l : _trail) {
+    if (lit_cross_chunks(l).has_intersection(old_chunks))
+      lit_cross_chunks(l).set(ck, true);
+  }
+  // when the assumption is forgotten and backtracked, its former reason might propagate it again
+  if (clause_size(old_reason) >= 2)
+    lit_cross_chunks(clause_lits(old_reason)[1]).set(ck, true);
+
+  for (TSchunk& chunk : _chunks) {
+    if (!chunk.missed_implication.has_intersection(old_chunks))
+      continue;
+    _vars[chunk.decision].missed_lower_implication = CLAUSE_UNDEF;
+    chunk.missed_implication.clear();
+    chunk.is_reimplied = false;
+  }
+
+  // update the chunks and levels of all literals after `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
     Tlit l = _trail[i];
-    // decisions should be updated in the index
-    // we do not need to compute -1 because we are going to increment the level right after
+    Tlevel old_level = lit_level(l);
     if (lit_decision(l)) {
-      _decision_index[lit_level(l)] = i;
-    }
-    // update level
-    if (lit_level(l) >= level) {
       lit_level(l)++;
-      NOTIFY(update_level, l, lit_level(l));
-    }
-    // update chunks if necessary
-    if (lit_chunk >= lit_chunks(l)) {
-      Tlevel recomputed_level = LEVEL_ROOT;
-      lit_chunks(l).clear();
-      const Tclause reason = lit_reason(l);
-      ASSERT(reason != CLAUSE_UNDEF);
-      const Tlit* lits = clause_lits(reason);
-      const unsigned size = clause_size(reason);
-      for (unsigned j = 1; j < size; j++) {
-        Tlit rl = lits[j];
-        lit_chunks(l) |= lit_chunks(rl);
-        recomputed_level = std::max(recomputed_level, lit_level(rl));
-      }
-      if (lit_level(l) != recomputed_level) {
-        NOTIFY(update_level, l, recomputed_level);
-      }
-      lit_level(l) = recomputed_level;
-      NOTIFY(update_level, l, recomputed_level);
+      _decision_index[lit_level(l) - 1] = i;
+    } else {
+      lit_level(l) = implication_level(lit_reason(l));
+      recompute_chunks(l);
     }
+    if (lit_level(l) != old_level)
+      NOTIFY(update_level, l, lit_level(l));
   }
+  ASSERT(check_decision_index_consistency());
 }
 
 bool NapSAT::add_assumption_GB_false(Tlit lit)
@@ -303,7 +301,6 @@ bool NapSAT::add_assumption_GB_false(Tlit lit)
 bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  _status = status::UNKNOWN;
   ASSERT(!lits.empty());
   ASSERT(_options.graph_backtracking);
   ASSERT(all_of(lits.begin(), lits.end(),
@@ -320,7 +317,6 @@ bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
   }
   vector<bitset> possibilities;
   compute_backtrack_possibilities(possibilities);
-  cout << "Found " << possibilities.size() << " possibilities to backtrack to in order to add assumptions." << endl;
   if (possibilities.empty()) {
     return false;
   }
@@ -337,7 +333,7 @@ bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
   calculate_bitset_weights(weights);
   const Tweight& best = weights.back();
 
-  cout << "Removing chunks " << best.chunks.to_string() << " to add assumptions with weight " << best.total_weight << endl;
+  _status = status::UNKNOWN;
   backtrack(best.chunks);
 
   for (Tlit l : lits) {
@@ -351,6 +347,7 @@ void NapSAT::add_assumption_GB_undef(Tlit lit)
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   ASSERT(lit_undef(lit));
   ASSERT(_options.graph_backtracking);
+  _status = status::UNKNOWN;
   // convert the literal into a decision at the current level
   imply_literal(lit, CLAUSE_UNDEF);
   // lock the chunk of the literal
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 5190b90..db6b80d 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -223,6 +223,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   if (clause_size == 0) {
     if (external)
       record_input_clause(id, lits_input, input_size);
+    _unsat_modulo_assumptions = false;
     _status = status::UNSAT;
     return id;
   }
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index e05372b..c54855c 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1301,6 +1301,7 @@ void NapSAT::graph_repair()
     if (_n_assumptions > 0) {
       _conflicts_chunks.back() -= _locked_chunks;
       if (_conflicts_chunks.back().empty()) { // conflict cannot be solved
+        _unsat_modulo_assumptions = true;
         _status = status::UNSAT;
         return;
       }
@@ -1313,6 +1314,7 @@ void NapSAT::graph_repair()
     // we cannot repair the conflicts
     if (_proof && _n_assumptions == 0)
       prove_root_conflict_with_lazy_merging();
+    _unsat_modulo_assumptions = _n_assumptions > 0;
     _status = status::UNSAT;
     return;
   }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 7ce9875..3053113 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1033,6 +1033,12 @@ public:
      */
     bitset _locked_chunks;
 
+    /**
+     * @brief True if the status is UNSAT because of the assumptions.
+     * @details In that case, the status is revised when assumptions are forgotten.
+     */
+    bool _unsat_modulo_assumptions = false;
+
     /**  PROOFS  **/
     /**
      * @brief Proof builder of the solver. If _proof is not nullptr, the solver
-- 
2.43.0


From f74ee7ff7aa828a7f9fd975c8c143d49c1744914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 51/72] fix: complete the dependencies behind the clauses of an
 unsat core

---
 src/solver/NapSAT-assumptions.cpp | 91 +++++++++++++------------------
 src/solver/NapSAT-clauses.cpp     |  6 +-
 src/solver/NapSAT-conflict.cpp    | 13 ++---
 src/solver/NapSAT-purge.cpp       |  5 +-
 src/solver/NapSAT.cpp             | 19 +++++++
 src/solver/NapSAT.hpp             | 17 +++++-
 6 files changed, 83 insertions(+), 68 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index e924463..0cd7b01 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -128,66 +128,49 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   ASSERT(_dependency_tracker, "Clause unsat core requires a dependency tracker.");
-  // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding clauses.
   std::set<Tclause> failed;
 
-  // search the conflict that is responsible for the UNSAT
-  bitset conflict_chunks(_n_allocated_chunks);
-  Tclause conflict_clause = CLAUSE_UNDEF;
-  for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      conflict_clause = conflict;
-      break;
-    }
+  if (_empty_clause != CLAUSE_UNDEF) {
+    // the clauses are unsatisfiable without any assumption
+    failed = _dependency_tracker->get_dependencies(_empty_clause);
   }
 
-  // now perform some sort of conflict analysis to find all clauses in the unsat core
-  const set<Tclause>& dependecies = _dependency_tracker->get_dependencies(conflict_clause);
-  failed.insert(dependecies.begin(), dependecies.end());
-
-  // mark all literals in the conflict clause
-  ASSERT(all_of(_vars.begin(), _vars.end(), [](const TSvar& var) { return !var.marked; }));
-  const Tlit* lits = clause_lits(conflict_clause);
-  const unsigned size = clause_size(conflict_clause);
-  for (unsigned i = 0; i < size; i++)
-    lit_mark(lits[i]);
-
-  // perform a reverse traversal of the trail
-  for (size_t i = _trail.size(); i-- > 0;) {
-    Tlit lit = _trail[i];
-    if (!lit_marked(lit)) {
-      continue;
-    }
-    lit_unmark(lit);
-    Tclause reason = lit_reason(lit);
-    ASSERT(reason != CLAUSE_UNDEF || lit_locked(lit));
-
-    if (lit_locked(lit)) {
-      // the literal is an assumption, nothing to do
-      continue;
+  // look at each conflict clause, and find one that follows from the assumptions only. The decisions that are reimplied
+  // are replaced by their missed implication.
+  for (size_t i = 0; i < _conflicts.size() && failed.empty(); i++) {
+    failed = _dependency_tracker->get_dependencies(_conflicts[i]);
+    vector<bool> visited(_vars.size().value, false);
+    vector<Tclause> to_visit = {_conflicts[i]};
+    while (!to_visit.empty()) {
+      Tclause cl = to_visit.back();
+      to_visit.pop_back();
+      for (unsigned k = 0; k < clause_size(cl); k++) {
+        Tlit lit = clause_lits(cl)[k];
+        if (visited[lit.var().value] || (lit_true(lit) && cl != _conflicts[i]))
+          continue;
+        visited[lit.var().value] = true;
+        if (lit_locked(lit) && lit_decision(lit))
+          continue;
+        Tclause reason = lit_reason(lit) != CLAUSE_UNDEF ? lit_reason(lit) : lit_lazy_reason(lit);
+        if (reason == CLAUSE_UNDEF) {
+          // the conflict depends on a decision that is neither an assumption nor reimplied
+          failed.clear();
+          to_visit.clear();
+          break;
+        }
+        const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
+        failed.insert(deps.begin(), deps.end());
+        to_visit.push_back(reason);
+      }
     }
-
-    // add the reason clause to the unsat core
-    const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
-    failed.insert(deps.begin(), deps.end());
-    // mark all literals in the reason clause
-    const Tlit* rlits = clause_lits(reason);
-    const unsigned rsize = clause_size(reason);
-    for (unsigned j = 0; j < rsize; j++)
-      lit_mark(rlits[j]);
   }
-
-  std::vector<Tclause> to_return(failed.begin(), failed.end());
-  std::sort(to_return.begin(), to_return.end());
-  return to_return;
+  if (failed.empty()) {
+    // the missed implications that made the conflicts unrepairable may be forgotten since, use all the clauses
+    for (Tclause cl = 0; cl < _clauses.size(); cl++)
+      if (!_clauses[cl].deleted && _clauses[cl].external)
+        failed.insert(cl);
+  }
+  return std::vector<Tclause>(failed.begin(), failed.end());
 }
 
 bool NapSAT::add_assumption_N_CB(Tlit lit)
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index db6b80d..d5be506 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -126,9 +126,8 @@ void napsat::NapSAT::record_input_clause(Tclause id, const Tlit* lits_input, uns
   if (_dependency_tracker) {
     _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
-    for (unsigned i = 0; i < input_size; i++)
-      if (lit_level(lits_input[i]) == LEVEL_ROOT)
-        _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
+    for (Tclause reason : root_reasons(lits_input, input_size))
+      _dependency_tracker->link_dependencies(id, reason);
   }
 }
 
@@ -223,6 +222,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   if (clause_size == 0) {
     if (external)
       record_input_clause(id, lits_input, input_size);
+    _empty_clause = id;
     _unsat_modulo_assumptions = false;
     _status = status::UNSAT;
     return id;
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index c54855c..42d97ab 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -842,12 +842,8 @@ void NapSAT::analyze_conflict_impl(T level) {
   if (_proof)
     prove_root_literal_removal(_lit_buffer, _lit_buffer_size);
   if (_dependency_tracker) {
-    for (unsigned i = 0; i < _lit_buffer_size; i++) {
-      Tlit lit = _lit_buffer[i];
-      if (lit_level(lit) == LEVEL_ROOT) {
-        _dependency_tracker->track_dependency(lit_reason(lit));
-      }
-    }
+    for (Tclause reason : root_reasons(_lit_buffer, _lit_buffer_size))
+      _dependency_tracker->track_dependency(reason);
   }
 
   unsigned k = 0;
@@ -1181,8 +1177,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     do {
@@ -1276,6 +1274,7 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     }
 
     if (_lit_buffer_size == 0) {
+      _empty_clause = id;
       _status = status::UNSAT;
       return;
     }
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 15abf14..6d4714b 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -220,9 +220,8 @@ void napsat::NapSAT::purge_clauses()
       _proof->finalize_resolution(cl, lits, clause.size);
     }
     if (_dependency_tracker && previous_size != clause.size) {
-      for (unsigned j = clause.size; j < previous_size; j++) {
-        _dependency_tracker->link_dependencies(cl, lit_reason(clause.lits[j]));
-      }
+      for (Tclause reason : root_reasons(clause.lits + clause.size, previous_size - clause.size))
+        _dependency_tracker->link_dependencies(cl, reason);
     }
 
     if (clause.size == 2) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index c8fe064..394e34a 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -62,6 +62,25 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
   }
 }
 
+vector<Tclause> NapSAT::root_reasons(const Tlit* lits, unsigned size) const
+{
+  vector<Tclause> reasons;
+  vector<bool> visited(_vars.size().value, false);
+  vector<Tlit> to_visit(lits, lits + size);
+  while (!to_visit.empty()) {
+    Tlit lit = to_visit.back();
+    to_visit.pop_back();
+    if (lit_level(lit) != LEVEL_ROOT || visited[lit.var().value])
+      continue;
+    visited[lit.var().value] = true;
+    Tclause reason = lit_reason(lit);
+    ASSERT(reason != CLAUSE_UNDEF);
+    reasons.push_back(reason);
+    to_visit.insert(to_visit.end(), clause_lits(reason), clause_lits(reason) + clause_size(reason));
+  }
+  return reasons;
+}
+
 void NapSAT::restart()
 {
   NOTIFY_STAT(_n_restart);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 3053113..59e5e1c 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1039,6 +1039,11 @@ public:
      */
     bool _unsat_modulo_assumptions = false;
 
+    /**
+     * @brief Empty clause added by the user or learned. CLAUSE_UNDEF if there is none.
+     */
+    Tclause _empty_clause = CLAUSE_UNDEF;
+
     /**  PROOFS  **/
     /**
      * @brief Proof builder of the solver. If _proof is not nullptr, the solver
@@ -1519,8 +1524,10 @@ public:
     inline bool is_protected(Tclause cl) const
     {
       ASSERT(cl < _clauses.size());
+      // the clauses of the user are kept if their identifiers are needed to track the dependencies
       return lit_reason     (_clauses[cl].lits[0]) == cl
-          || lit_lazy_reason(_clauses[cl].lits[0]) == cl;
+          || lit_lazy_reason(_clauses[cl].lits[0]) == cl
+          || (_dependency_tracker && _clauses[cl].external);
     }
 
     /**
@@ -2383,6 +2390,14 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Returns the reasons of the literals of the list at level 0, and of
+     * all the literals they were implied from.
+     * @param lits a list of literals
+     * @param size size of the list
+     */
+    std::vector<Tclause> root_reasons(const Tlit* lits, unsigned size) const;
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From b67c7da8c72f549d6804d77788003eaaefdd2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 52/72] fix: refuse assumptions without graph backtracking in
 optimized builds

---
 src/solver/NapSAT-assumptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 0cd7b01..69d99c4 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -33,8 +33,9 @@ bool NapSAT::assume(Tlit assumption)
   if (_status == status::UNSAT)
     return false;
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
-  bool success = true;
+  bool success = false;
   if (_options.graph_backtracking) {
+    success = true;
     if (lit_true(assumption)) {
       add_assumption_GB_true(assumption);
     } else if (lit_false(assumption)) {
-- 
2.43.0


From 97233cae5a2ec566a56b52301dd5fb7073557e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 53/72] fix: refuse checkpoint commands that do not apply and
 print the locks of the assumptions

---
 src/solver/NapSAT-utils.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 334a74d..a550b48 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -926,7 +926,9 @@ void NapSAT::print_clause_set() const
     longest_var++;
   }
 
-  unsigned max_clause_width = (longest_clause + 2) * (longest_var + 1) + 3;
+  // the assumptions are followed by a lock
+  const unsigned lock_width = _n_assumptions > 0 ? string("🔒").size() : 0;
+  unsigned max_clause_width = (longest_clause + 2) * (longest_var + lock_width + 1) + 3;
   Tclause i = 0;
   while (i < _clauses.size()) {
     unsigned j = max_clause_width;
@@ -1025,6 +1027,10 @@ bool NapSAT::parse_command(std::string input)
     return false;
   }
   if (tokens[0] == "DECIDE") {
+    if (_status != status::UNKNOWN) {
+      LOG_WARNING("There is nothing to decide, the status is " << status_to_string(_status) << ". This command is ignored.");
+      return false;
+    }
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
@@ -1045,6 +1051,10 @@ bool NapSAT::parse_command(std::string input)
       return false;
     }
   }
+  else if ((tokens[0] == "ASSUME" || tokens[0] == "FORGET") && !_options.graph_backtracking) {
+    LOG_WARNING("The assumptions require graph backtracking. This command is ignored.");
+    return false;
+  }
   else if (tokens[0] == "ASSUME") {
     if (tokens.size() != 2) {
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
@@ -1152,6 +1162,10 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("The clause " << cl << " is the reason of a literal. This command is ignored.");
       return false;
     }
+    if (find(_conflicts.begin(), _conflicts.end(), cl) != _conflicts.end()) {
+      LOG_WARNING("The clause " << cl << " is conflicting. This command is ignored.");
+      return false;
+    }
     delete_clause(cl);
     // the identifier of the clause can be reused
     repair_watch_lists();
-- 
2.43.0


From 6cc50837d26368317885273a656495333f28a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 54/72] fix: keep the heap consistent when an insertion runs
 out of memory

---
 src/utils/heap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index 6260746..8d93829 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -64,11 +64,9 @@ void heap::heapify_up(unsigned i)
 void heap::insert(Tvar key, double activity)
 {
   if (_index.size() <= key) {
-    Tvar old_size = _index.size();
-    _index.resize(key + 1);
+    // _index tells which keys are in the heap: it is extended last, in case an allocation fails
     _activity.resize(key + 1);
-    for (Tvar i = old_size; i < _index.size(); i++)
-      _index[i] = LOCATION_UNDEF;
+    _index.resize(key + 1, LOCATION_UNDEF);
   }
   assert(_index[key] == LOCATION_UNDEF);
   _heap.push_back(key);
-- 
2.43.0


From ff5ad15cc032488aea5b323625d36fbd5feb1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 55/72] fix: allocate the binary watch lists of the literals of
 a new solver

---
 src/solver/NapSAT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 394e34a..86fa7e1 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -280,6 +280,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _trail = vector<Tlit>();
   _trail.reserve(n_var);
   _watches.resize(2 * n_var + 2);
+  _binary_watches.resize(2 * n_var + 2);
 
   _clauses = indexed_vector<TSclause, Tclause>();
   _clauses.reserve(n_clauses);
-- 
2.43.0


From a50b2c3fe80a5fc604470fadfdaa0d143a92b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 56/72] fix: print the missed implication of the chunk of a
 decision

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index a550b48..5c6c193 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -857,7 +857,7 @@ void NapSAT::print_trail() const
       cout << " (γ = " << lit_chunks(lit).to_string() << ", ";
       cout <<   "η = " << (lit_cross_chunks(lit) - lit_chunks(lit)).to_string();
       if (lit_decision(lit) && lit_lazy_reason(lit) != CLAUSE_UNDEF) {
-        cout << ", ξ = " << _chunks[lit.var()].missed_implication.to_string();
+        cout << ", ξ = " << _chunks[*lit_chunks(lit).cbegin()].missed_implication.to_string();
       }
       cout << ")";
     }
-- 
2.43.0


From 297736ca9ffbf42d3ba43b013d07fb73cb2c0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 57/72] fix: refuse the hints, which are not supported yet

---
 src/solver/NapSAT-utils.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 5c6c193..4d7da51 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -1088,27 +1088,9 @@ bool NapSAT::parse_command(std::string input)
     }
   }
   else if (tokens[0] == "HINT") {
-    if (tokens.size() == 2) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      hint(Tlit(abs(lit), lit > 0));
-    }
-    else if (tokens.size() == 3) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      Tlevel level = stoi(tokens[2]);
-      hint(Tlit(abs(lit), lit > 0), level);
-    }
-    else {
-      LOG_WARNING("Wrong number of arguments (expected 0 or 1). This command is ignored.");
-      return false;
-    }
+    // the literals cannot be implied without a reason yet
+    LOG_WARNING("The hints are not supported yet. This command is ignored.");
+    return false;
   }
   else if (tokens[0] == "LEARN") {
     vector<Tlit> lits;
-- 
2.43.0


From a613f5df1734e870141dc5faaba8b0182cdcafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 58/72] fix: show the details of an unassigned variable in
 graph backtracking

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4d7da51..94acca0 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -678,7 +678,8 @@ std::string napsat::NapSAT::var_to_gui_info_string(Tvar var) const
   if (_options.graph_backtracking) {
     s += "γ: " + var_chunks(var).to_string() + "\n";
     s += "η: " + (var_cross_chunks(var) - var_chunks(var)).to_string() + "\n";
-    s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
+    if (!var_undef(var))
+      s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
   }
 
   for (unsigned pol = 0; pol < 2; pol++) {
-- 
2.43.0


From 6fe666ab6eb2860c61c45873e7a56173bfc15b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 59/72] fix: graph backtracking also disables lazy strong
 chronological backtracking

-gb -lscb announced graph backtracking but left the lazy reimplication of
the strong chronological backtracking enabled, which failed assertions and
reported assignments that are no models.
---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..f79e233 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -326,6 +326,7 @@ napsat::options::options(vector<string>& tokens)
     LOG_WARNING("graph backtracking subsumes chronological backtracking.");
     LOG_WARNING("The solver will run with graph backtracking.");
     chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
   }
 
   interactive |= !sentinel_options.commands_file.empty();
-- 
2.43.0


From 66383366a3bf4887c7888c4e6a1928ad420631eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 60/72] fix: the value of -sw and -si is not read as the value
 of another option

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index f79e233..a11f5b7 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -92,6 +92,7 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
           LOG_WARNING("Default value " << (*bool_options[token] ? "on" : "off") << " is used.");
           continue;
         }
+        i++;
       }
       else
         *bool_options[token] = true;
-- 
2.43.0


From e96f4be4ff30dcf218c5b4e2df727026a4592055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 61/72] fix: a number that is out of range or followed by other
 characters is not accepted as the value of an option

---
 src/utils/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..61c292a 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -15,6 +15,7 @@
 
 #include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -149,9 +150,13 @@ namespace napsat
       return false;
     }
     try {
-      _storage = stod(next_token);
+      size_t length = 0;
+      double value = stod(next_token, &length);
+      if (length != next_token.size())
+        throw std::invalid_argument(next_token);
+      _storage = value;
     }
-    catch (const std::invalid_argument&) {
+    catch (const std::logic_error&) { // not a number, or out of range of a double
       LOG_WARNING("option " << tokens[i] << " requires a floating point number value.");
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
-- 
2.43.0


From 4f18959d10af7c6c3e518f8108b964a96dc4665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 62/72] fix: do not drop observer options when memory runs out
 while they are split

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index a11f5b7..d537ec2 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -188,6 +188,7 @@ vector<string> napsat::options::extract_sentinel_tokens(vector<string>& tokens)
     joined = joined.substr(1, joined.size() - 2); // strip outer '{' and '}'
 
     istringstream iss(joined);
+    iss.exceptions(ios::badbit); // a lack of memory must not end the list of options
     string piece;
     while (iss >> piece)
       sentinel_tokens.push_back(piece);
-- 
2.43.0


From 2af10eaa1fbc0330f2afc78a35e5b3a2eba2d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 63/72] fix: follow the suggested polarity at the first
 decision of a variable

---
 src/solver/NapSAT-imply.cpp |  1 +
 src/solver/NapSAT.cpp       |  5 ++++-
 src/solver/NapSAT.hpp       | 14 ++++++++++----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index a0cbcf7..f5d1358 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -58,6 +58,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
 
   if (reason == CLAUSE_UNDEF) {
     // Decision
+    svar.suggestion = Tval::UNDEF;
     _decision_index.push_back(_trail.size() - 1);
     svar.level = solver_level();
     NOTIFY(assign, lit);
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 86fa7e1..fef87ba 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -536,7 +536,10 @@ bool NapSAT::decide()
   // bool value = (rand() % 2) == 0;
   // Tlit lit = literal(var, value);
   // Tlit lit = literal(var, false);
-  Tlit lit = Tlit(var, _vars[var].synced);
+  bool polarity = _vars[var].synced;
+  if (_vars[var].suggestion != Tval::UNDEF)
+    polarity = _vars[var].suggestion == Tval::TRUE;
+  Tlit lit = Tlit(var, polarity);
   imply_literal(lit, CLAUSE_UNDEF);
   return true;
 }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 59e5e1c..cf40b16 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -469,9 +469,8 @@ namespace napsat
 
     /**
      * @brief Suggest a polarity for a variable.
-     * @details When the variable is decided, it will be assigned the suggested
-     * polarity, unless it has already been assigned, in which case the phase_cache
-     * will be used.
+     * @details The first time the variable is decided, it will be assigned the
+     * suggested polarity.
      * @param lit literal whose variable will have a suggested polarity.
      * @param polarity suggested polarity. true for positive, false for negative.
      */
@@ -479,7 +478,7 @@ namespace napsat
     {
       Tvar var = lit.var();
       ASSERT(var < _vars.size());
-      _vars[var].phase_cache = polarity ? 1 : 0;
+      _vars[var].suggestion = polarity ? Tval::TRUE : Tval::FALSE;
     }
 
     void set_weight_function(std::function<double(Tlit)> func) {
@@ -537,6 +536,7 @@ public:
         propagated(false),
         state(Tval::UNDEF),
         phase_cache(0),
+        suggestion(Tval::UNDEF),
         synced(0),
         constrained(0),
         locked(0)
@@ -597,6 +597,12 @@ public:
        */
       unsigned phase_cache : 1;
 
+      /**
+       * @brief Polarity suggested by the user for the next decision of the
+       * variable. Can be VAR_TRUE, VAR_FALSE or VAR_UNDEF.
+       */
+      Tval suggestion : 2;
+
       /**
        * @brief Boolean indicating the polarity of the last synchronization.
        */
-- 
2.43.0


From 77dd0f8198c71fc32d4b648e92790ed2c43cc568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 64/72] fix: deleting a solver releases its statistics

---
 src/solver/NapSAT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index fef87ba..75acae3 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -321,6 +321,9 @@ NapSAT::~NapSAT()
     delete _proof;
   if (_dependency_tracker)
     delete _dependency_tracker;
+#if USE_STATISTICS
+  delete _statistics;
+#endif
   delete[] _lit_buffer;
 }
 
-- 
2.43.0


From 9e9e97ca713c2c419029cc55106af1545335e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 65/72] fix: a clause that cannot be stored for lack of memory
 does not leak its literals

---
 src/solver/NapSAT-clauses.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index d5be506..35750d3 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -16,6 +16,7 @@
 
 #include <iostream>
 #include <cstring>
+#include <memory>
 
 using namespace napsat;
 using namespace std;
@@ -72,9 +73,11 @@ void napsat::NapSAT::select_watched_literals(Tlit* lits, unsigned size)
 Tclause napsat::NapSAT::next_clause_id(size_t size)
 {
   if (_deleted_clauses.empty()) {
-    Tlit* lits = new Tlit[size];
-    TSclause added(lits, size, false, false);
+    // owned here until the clause is stored: if that fails, nobody else would release it
+    unique_ptr<Tlit[]> lits(new Tlit[size]);
+    TSclause added(lits.get(), size, false, false);
     _clauses.push_back(added);
+    lits.release();
     _clauses_sizes.push_back(size);
     _activities.push_back(_max_clause_activity);
     return _clauses.size() - 1;
-- 
2.43.0


From 487ff029551533fae5008ae756ad29f2175f75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 66/72] fix: watch invariants that are not selected are not
 leaked

---
 src/solver/NapSAT-checker.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-checker.cpp b/src/solver/NapSAT-checker.cpp
index 5e46a31..2df0cc7 100755
--- a/src/solver/NapSAT-checker.cpp
+++ b/src/solver/NapSAT-checker.cpp
@@ -19,6 +19,7 @@
 #include "../utils/printer.hpp"
 
 #include <fstream>
+#include <functional>
 
 using namespace std;
 using namespace napsat;
@@ -283,10 +284,11 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
 #endif
   });
 
-  unordered_map<string, sentinel::WatchInvariant*> custom_invariants({
+  // only those named in the file are created: nobody would release the others
+  unordered_map<string, function<sentinel::WatchInvariant*()>> custom_invariants({
 #if NOTIFY_WATCH_CHANGES
     {"blocked_backtrack_compatible_weak_watched_literals",
-      new sentinel::WatchInvariant("Weak watched literal (with blocker)",
+      [this] { return new sentinel::WatchInvariant("Weak watched literal (with blocker)",
                                    [this](sentinel::Tlit c1,
                                           sentinel::Tlit c2,
                                           sentinel::Tlit blocker,
@@ -311,9 +313,9 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
           }
           return success;
         },
-        "¬c₁ ∈ τ ⇒ [(¬c₂ ∉ τ) ∨ (b ∈ π ∧ δ(b) ≤ δ(c₁))]")},
+        "¬c₁ ∈ τ ⇒ [(¬c₂ ∉ τ) ∨ (b ∈ π ∧ δ(b) ≤ δ(c₁))]"); }},
     {"blocked_backtrack_compatible_strong_watched_literals",
-      new sentinel::WatchInvariant("Backtrack compatible strong watched literals (with blocker)",
+      [this] { return new sentinel::WatchInvariant("Backtrack compatible strong watched literals (with blocker)",
                                    [this](sentinel::Tlit c1,
                                           sentinel::Tlit c2,
                                           sentinel::Tlit blocker,
@@ -325,9 +327,9 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
                 || (lit_true(n_c2) && lit_level(n_c2) <= lit_level(n_c1))
                 || (lit_true(n_blocker) && lit_level(n_blocker) <= lit_level(n_c1));
         },
-        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ δ(c₂) ≤ δ(c₁)) ∨ (b ∈ π ∧ δ(b) ≤ δ(c₁))]")},
+        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ δ(c₂) ≤ δ(c₁)) ∨ (b ∈ π ∧ δ(b) ≤ δ(c₁))]"); }},
     {"blocked_lazy_backtrack_compatible_strong_watched_literals",
-      new sentinel::WatchInvariant("Lazy backtrack compatible strong watched literals (with blocker)",
+      [this] { return new sentinel::WatchInvariant("Lazy backtrack compatible strong watched literals (with blocker)",
                                    [this](sentinel::Tlit c1,
                                           sentinel::Tlit c2,
                                           sentinel::Tlit blocker,
@@ -339,10 +341,10 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
                 || (lit_true(n_c2) && lit_lazy_level(n_c2) <= lit_level(n_c1))
                 || (lit_true(n_blocker) && lit_lazy_level(n_blocker) <= lit_level(n_c1));
         },
-        "¬c₁ ∈ τ ⇒ [c₂ ∈ π ∧ [δ(c₂) ≤ δ(c₁) ∨ δ(λ(c₂) \\ {c₂}) ≤ δ(c₁)] ∨ [b ∈ π ∧ δ(b) ≤ δ(c₁)]")
+        "¬c₁ ∈ τ ⇒ [c₂ ∈ π ∧ [δ(c₂) ≤ δ(c₁) ∨ δ(λ(c₂) \\ {c₂}) ≤ δ(c₁)] ∨ [b ∈ π ∧ δ(b) ≤ δ(c₁)]"); }
   },
   {"blocked_graph_backtrack_compatible_strong_watched_literals",
-      new sentinel::WatchInvariant("Graph backtrack compatible strong watched literals (with blocker)",
+      [this] { return new sentinel::WatchInvariant("Graph backtrack compatible strong watched literals (with blocker)",
                                    [this](sentinel::Tlit c1,
                                           sentinel::Tlit c2,
                                           sentinel::Tlit blocker,
@@ -354,7 +356,7 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
                 || (lit_true(n_c2) && lit_chunks(n_c2) <= lit_cross_chunks(n_c1))
                 || (lit_true(n_blocker) && lit_chunks(n_blocker) <= lit_cross_chunks(n_c1));
         },
-        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ γ(c₂) ⊆ η(c₁)) ∨ (b ∈ π ∧ γ(b) ⊆ η(c₁))]")}
+        "¬c₁ ∈ τ ⇒ [(c₂ ∈ π ∧ γ(c₂) ⊆ η(c₁)) ∨ (b ∈ π ∧ γ(b) ⊆ η(c₁))]"); }}
 #endif
       });
 
@@ -369,7 +371,7 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
     if (invariants.find(line) != invariants.end())
       *(invariants[line]) = true;
     else if (custom_invariants.find(line) != custom_invariants.end())
-      _watch_invariants.push_back(custom_invariants[line]);
+      _watch_invariants.push_back(custom_invariants[line]());
     else
       LOG_INFO("Unknown invariant: " + line + "\nWatched literal invariants are not supported in this build. Check the SAT-config.hpp file to enable them.");
   }
-- 
2.43.0


From 30b3ee16d5a59a10ca634f944b23c2ad09235a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 67/72] fix: a solver whose construction runs out of memory
 releases what it took

---
 src/solver/NapSAT.cpp | 7 ++++++-
 src/solver/NapSAT.hpp | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 75acae3..578f7c6 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -156,8 +156,13 @@ static inline void print_bt_option(const options &options) {
 /*****************************************************************************/
 /*                            Public interface                               */
 /*****************************************************************************/
-napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& options) :
+napsat::NapSAT::NapSAT(napsat::options& options) :
   _options(options)
+{}
+
+// Delegating makes the destructor run if what follows runs out of memory
+napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& options) :
+  NapSAT(options)
 {
   print_bt_option(_options);
 #if USE_STATISTICS
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index cf40b16..4e2ff05 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -513,6 +513,11 @@ namespace napsat
 
 
 private:
+    /**
+     * @brief Construct a NapSAT object that owns nothing yet.
+     */
+    explicit NapSAT(options& options);
+
 #ifdef TEST
 public:
 #endif
-- 
2.43.0


From d894e717d2cc2b8cf3caccde390e4ee67a947f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 68/72] fix: watch invariants are released if the observer
 cannot take them for lack of memory

---
 src/solver/NapSAT-checker.cpp | 2 +-
 src/solver/NapSAT.cpp         | 8 ++++++--
 src/solver/NapSAT.hpp         | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-checker.cpp b/src/solver/NapSAT-checker.cpp
index 2df0cc7..79397ce 100755
--- a/src/solver/NapSAT-checker.cpp
+++ b/src/solver/NapSAT-checker.cpp
@@ -371,7 +371,7 @@ void napsat::NapSAT::load_invariant_configuration(sentinel::Options& s_options)
     if (invariants.find(line) != invariants.end())
       *(invariants[line]) = true;
     else if (custom_invariants.find(line) != custom_invariants.end())
-      _watch_invariants.push_back(custom_invariants[line]());
+      _watch_invariants.push_back(unique_ptr<sentinel::WatchInvariant>(custom_invariants[line]()));
     else
       LOG_INFO("Unknown invariant: " + line + "\nWatched literal invariants are not supported in this build. Check the SAT-config.hpp file to enable them.");
   }
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 578f7c6..22062da 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -249,8 +249,12 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 
     load_invariant_configuration(_options.sentinel_options);
     _sentinel = sentinel::create_sentinel(_options.sentinel_options);
-    for (sentinel::WatchInvariant* invariant : _watch_invariants)
-      sentinel::add_watch_invariant(_sentinel, invariant);
+    for (auto& invariant : _watch_invariants) {
+      sentinel::add_watch_invariant(_sentinel, invariant.get());
+      // from here on it belongs to the observer
+      invariant.release();
+    }
+    _watch_invariants.clear();
     sentinel::wrapper::set_variable_detail_callback(_sentinel, [this](Tvar var) {
       return var_to_gui_info_string(var);
     });
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 4e2ff05..777e4b3 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -119,6 +119,7 @@
 #include <cstring>
 #include <cassert>
 #include <algorithm>
+#include <memory>
 
 
 #if USE_STATISTICS
@@ -2617,7 +2618,7 @@ public:
      */
     bool watch_lists_minimal();
 
-    std::vector<sentinel::WatchInvariant*> _watch_invariants;
+    std::vector<std::unique_ptr<sentinel::WatchInvariant>> _watch_invariants;
 
     /**
      * @brief Loads the invariant configuration from a file. The invariant configuration is a set of invariants that are checked by the sentinel during the execution of the solver. The configuration file is a text file with one invariant per line. Each invariant is a string that describes the invariant to check.
-- 
2.43.0


From b2977d5184232272c36f387a71fae61d5e59c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 69/72] fix: durations in the statistics and the command line
 are taken from the steady clock

---
 main.cpp                       | 8 ++++----
 src/observer/SAT-stat.cpp      | 4 ++--
 src/observer/SAT-stat.hpp      | 2 +-
 src/solver/NapSAT-conflict.cpp | 8 ++++----
 src/solver/NapSAT.cpp          | 6 +++---
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/main.cpp b/main.cpp
index c930fbd..26c3e98 100644
--- a/main.cpp
+++ b/main.cpp
@@ -58,15 +58,15 @@ int main(int argc, char** argv)
   options options(tokens);
   NapSAT* solver = create_solver(0, 0, options);
 
-  chrono::time_point<chrono::high_resolution_clock> start = chrono::high_resolution_clock::now();
+  chrono::time_point<chrono::steady_clock> start = chrono::steady_clock::now();
   if (!parse_dimacs(solver, argv[1])) {
     LOG_ERROR("The input file could not be parsed.");
     delete_solver(solver);
     return 1;
   }
-  chrono::microseconds parse_duration = chrono::duration_cast<chrono::microseconds>(chrono::high_resolution_clock::now() - start);
+  chrono::microseconds parse_duration = chrono::duration_cast<chrono::microseconds>(chrono::steady_clock::now() - start);
   cout << "c Input file parsed in " << pretty_time(parse_duration) << endl;
-  start = chrono::high_resolution_clock::now();
+  start = chrono::steady_clock::now();
 
   if (all_models) {
     unsigned n_models = 0;
@@ -86,7 +86,7 @@ int main(int argc, char** argv)
   } else {
     solve(solver);
   }
-  chrono::time_point<chrono::high_resolution_clock> end = chrono::high_resolution_clock::now();
+  chrono::time_point<chrono::steady_clock> end = chrono::steady_clock::now();
   chrono::microseconds duration = chrono::duration_cast<chrono::microseconds>(end - start);
 
   cout << "c Solution found in " << pretty_time(duration) << endl;
diff --git a/src/observer/SAT-stat.cpp b/src/observer/SAT-stat.cpp
index 2ebccc3..4e1564e 100644
--- a/src/observer/SAT-stat.cpp
+++ b/src/observer/SAT-stat.cpp
@@ -11,7 +11,7 @@ using namespace std;
 
 namespace napsat {
   napsat::statistics::statistics(napsat::options& options) : _options(options) {
-    _creation_time = chrono::high_resolution_clock::now();
+    _creation_time = chrono::steady_clock::now();
   }
 
   statistics::stat* statistics::add_stat(string name, const string& category, const stat_type type) {
@@ -22,7 +22,7 @@ namespace napsat {
 
   string statistics::get_statistics() const {
     ostringstream ss;
-    const auto now = chrono::high_resolution_clock::now();
+    const auto now = chrono::steady_clock::now();
     const auto duration = chrono::duration_cast<chrono::microseconds>(
       now - _creation_time);
     ss << "c Time since creation: " + pretty_time(duration) << endl;
diff --git a/src/observer/SAT-stat.hpp b/src/observer/SAT-stat.hpp
index 7271aaf..c59ba67 100644
--- a/src/observer/SAT-stat.hpp
+++ b/src/observer/SAT-stat.hpp
@@ -55,7 +55,7 @@ namespace napsat {
     /**
      * @brief The time when the observer was created.
      */
-    std::chrono::time_point<std::chrono::high_resolution_clock> _creation_time;
+    std::chrono::time_point<std::chrono::steady_clock> _creation_time;
 
     /**
      * @brief List of all registered stats
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 42d97ab..d69a6f7 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -949,7 +949,7 @@ void NapSAT::repair_conflicts()
 {
   synchronize();
   NOTIFY_STAT(_n_conflict_repair);
-  auto start = chrono::high_resolution_clock::now();
+  auto start = chrono::steady_clock::now();
   /**
    * Precondition:
    * - The conflict clause C is conflicting with the current partial assignment π
@@ -996,7 +996,7 @@ void NapSAT::repair_conflicts()
     _conflicts.clear();
   _var_activity_increment /= _options.var_activity_decay;
 
-  auto end = chrono::high_resolution_clock::now();
+  auto end = chrono::steady_clock::now();
   long long duration = chrono::duration_cast<chrono::microseconds>(end - start).count();
   // if the duration is above 0.5 sec, we save the state
   NOTIFY_STAT_N(repair_time, duration);
@@ -1365,7 +1365,7 @@ void NapSAT::graph_repair()
     approximate     |= _options.use_sum_approximate_cost_estimation;
     approximate     |= _options.use_vsids_approximate_cost_estimation;
 
-    const auto start = chrono::high_resolution_clock::now();
+    const auto start = chrono::steady_clock::now();
 
     if (approximate) {
       calculate_bitset_weights_approx(weights);
@@ -1373,7 +1373,7 @@ void NapSAT::graph_repair()
       calculate_bitset_weights(weights);
     }
 
-    const auto end = chrono::high_resolution_clock::now();
+    const auto end = chrono::steady_clock::now();
     const auto duration = chrono::duration_cast<chrono::microseconds>(end - start).count();
     NOTIFY_STAT_N(cost_estimation_time, duration);
 
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 22062da..33b2a7f 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -440,7 +440,7 @@ bool NapSAT::propagate()
 
 status NapSAT::solve()
 {
-  auto start_time = std::chrono::high_resolution_clock::now();
+  auto start_time = std::chrono::steady_clock::now();
   const auto timeout_start = _options.timeout >= 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point();
   if (_status != status::UNKNOWN) {
     ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
@@ -477,7 +477,7 @@ status NapSAT::solve()
             continue;
           }
         }
-        auto end_time = std::chrono::high_resolution_clock::now();
+        auto end_time = std::chrono::steady_clock::now();
         long long duration = std::chrono::duration_cast<std::chrono::microseconds>(end_time - start_time).count();
         NOTIFY_STAT_N(solve_time, duration);
         if (_options.print_live_stats)
@@ -508,7 +508,7 @@ status NapSAT::solve()
   }
   if (_status == status::SAT)
     NOTIFY(check_invariants);
-  auto end_time = std::chrono::high_resolution_clock::now();
+  auto end_time = std::chrono::steady_clock::now();
   long long duration = std::chrono::duration_cast<std::chrono::microseconds>(end_time - start_time).count();
   NOTIFY_STAT_N(solve_time, duration);
   if (_options.print_live_stats)
-- 
2.43.0


From 684d74b99d6344ecfea1c4a26731681f9d948a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 70/72] fix: a duration above 2^32 microseconds is not
 truncated in the statistics

---
 src/observer/SAT-stat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observer/SAT-stat.hpp b/src/observer/SAT-stat.hpp
index c59ba67..9efd952 100644
--- a/src/observer/SAT-stat.hpp
+++ b/src/observer/SAT-stat.hpp
@@ -24,15 +24,15 @@ namespace napsat {
       const stat_type _type;
 
       inline void inc() noexcept { ++_cnt; ++_val; }
-      inline void inc(unsigned v) noexcept  { ++_cnt; _val += v; }
+      inline void inc(long long v) noexcept  { ++_cnt; _val += v; }
 
       inline void dec() noexcept { --_cnt; --_val; }
-      inline void dec(unsigned v) noexcept { --_cnt; _val -= v; }
+      inline void dec(long long v) noexcept { --_cnt; _val -= v; }
 
       inline void operator++() noexcept { inc(); }
       inline void operator--() noexcept { dec(); }
-      inline void operator+=(unsigned v) noexcept { inc(v); }
-      inline void operator-=(unsigned v) noexcept { dec(v); }
+      inline void operator+=(long long v) noexcept { inc(v); }
+      inline void operator-=(long long v) noexcept { dec(v); }
 
     private:
       long long _cnt = 0;
-- 
2.43.0


From 6b72b600d0928504f553e8f5a7ac063163fd3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 71/72] fix: the time of a repair nested in another one is
 counted once

---
 src/solver/NapSAT-conflict.cpp | 3 +++
 src/solver/NapSAT.hpp          | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index d69a6f7..339ef30 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -950,6 +950,7 @@ void NapSAT::repair_conflicts()
   synchronize();
   NOTIFY_STAT(_n_conflict_repair);
   auto start = chrono::steady_clock::now();
+  const long long repair_time_before = _repair_time;
   /**
    * Precondition:
    * - The conflict clause C is conflicting with the current partial assignment π
@@ -998,6 +999,8 @@ void NapSAT::repair_conflicts()
 
   auto end = chrono::steady_clock::now();
   long long duration = chrono::duration_cast<chrono::microseconds>(end - start).count();
+  duration -= _repair_time - repair_time_before;
+  _repair_time += duration;
   // if the duration is above 0.5 sec, we save the state
   NOTIFY_STAT_N(repair_time, duration);
 }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 777e4b3..08fb9f3 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1082,6 +1082,12 @@ public:
     sentinel::SATSentinel* _sentinel = nullptr;
 #endif
 
+    /**
+     * @brief Microseconds counted as repair time so far. A repair may start another one, whose
+     * time is counted only once.
+     */
+    long long _repair_time = 0;
+
 #if USE_STATISTICS
     statistics* _statistics = nullptr;
 
-- 
2.43.0


From 48a80cd20b2109c9c77075a0f692ccc528ac09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 72/72] fix: the xz stream is released if memory runs out while
 reading it

---
 src/utils/decoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index dc1eb88..2644790 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -107,10 +107,14 @@ bool decompress_xz(const char* filename, ostringstream& output)
     LOG_ERROR("failed to initialize the decompression stream");
     return false;
   }
+  // the stream is ended on every way out, also if memory runs out
+  struct guard {
+    lzma_stream& stream;
+    ~guard() { lzma_end(&stream); }
+  } stream_guard{strm};
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
-    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -123,7 +127,6 @@ bool decompress_xz(const char* filename, ostringstream& output)
       file.read(buffer_in, sizeof(buffer_in));
       if (file.bad()) {
         LOG_ERROR("could not read file " << filename);
-        lzma_end(&strm);
         return false;
       }
       strm.avail_in = file.gcount();
@@ -137,18 +140,15 @@ bool decompress_xz(const char* filename, ostringstream& output)
     ret = lzma_code(&strm, action);
     if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
       print_error_message(ret);
-      lzma_end(&strm);
       return false;
     }
     output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
     if (!output) {
       LOG_ERROR("could not store the decompressed data");
-      lzma_end(&strm);
       return false;
     }
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
-  lzma_end(&strm);
 
   return true;
 }
-- 
2.43.0

