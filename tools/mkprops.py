#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and the checks of /verif/MANIFEST.json (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
S = "src/solver/"
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), level_note))


UNIT = "The shipped tests cover the AVL helper, the bitset and the Luby counter on fixed values; no test calls the solver at all."
SIM = "Seeded search; histories of 1-3 clients, formulas of up to 90 variables (most up to 14, where the reference is the exact model set), all strategies and options. "

p("C01", "SAT answers come with a model of everything given so far",
  "Whenever a search ends with SAT, the assignment the API reports gives every variable of the problem a value and satisfies every clause added so far, under every strategy and option. The trail, the value queries and the decision queries agree with each other.",
  ["inputs", "histories", "configurations", "schedules"],
  "every sequence of clause additions, searches, user decisions, blocked models and queries, for every solver configuration, with any interleaving of several solver instances",
  UNIT, ["include/SAT-API.hpp", S + "NapSAT.cpp", S + "NapSAT-propagation.cpp", S + "NapSAT-backtrack.cpp"],
  [("search loop and verdict", S + "NapSAT.cpp solve()"), ("watched-literal propagation", S + "NapSAT-propagation.cpp"), ("backtracking per strategy", S + "NapSAT-backtrack.cpp")],
  SIM + "Oracle: clause-by-clause evaluation of the reported assignment.", ["get_status", "get_partial_assignment", "get_variable_value", "get_literal_value"])
p("C02", "UNSAT answers are only given for unsatisfiable clause sets",
  "Whenever a search or a propagation reports UNSAT with no assumption made, the clauses added so far have no model; and once they have none, every complete search reports UNSAT and keeps reporting it, whatever is added later.",
  ["inputs", "histories", "configurations", "schedules"],
  "every clause set and every history of additions, searches, deletions and restarts, for every solver configuration",
  UNIT, [S + "NapSAT-conflict.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-purge.cpp"],
  [("conflict analysis and learning", S + "NapSAT-conflict.cpp"), ("root level simplification", S + "NapSAT-purge.cpp"), ("clause addition", S + "NapSAT-clauses.cpp")],
  SIM + "Oracle: exact model set, or an independent DPLL above 14 variables.", ["solve", "propagate", "get_status"])
p("C03", "An unlimited search ends normally with a verdict",
  "For every clause set, history and configuration, a search without limits ends after finitely many steps with SAT or UNSAT, never with an abnormal end (crash, failed assertion, undefined memory access, unexpected exception). Solving again without a change gives the same verdict.",
  ["inputs", "histories", "configurations", "schedules"],
  "every history and configuration; termination is judged as a verdict within a step budget far above what any accepted run needs",
  UNIT, [S + "NapSAT.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-backtrack.cpp"],
  [("restarts and clause elimination", S + "NapSAT.cpp"), ("conflict repair loop", S + "NapSAT-conflict.cpp repair_conflicts"), ("termination of graph backtracking", S + "NapSAT-conflict.cpp")],
  SIM + "60 million simulated steps per run; graph backtracking on more than 14 variables may be inconclusive (its choice of backtrack sets is exponential by design). Memory guards on every block.", ["solve", "process state"])
p("C04", "Limits interrupt the search soundly and it can be resumed",
  "A search under a conflict limit or a wall time limit ends soon after the limit is reached with an honest status (interrupted or unknown, never a wrong verdict); jumps of the wall clock neither stop it early nor keep it running. Continuing an interrupted search, repeatedly and mixed with other operations, eventually gives the right verdict.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every placement of limits, clock jumps and stalls over the search, and every continuation after an interruption",
  UNIT + " Time and limits are never exercised.", [S + "NapSAT.cpp", "src/SAT-API.cpp", S + "SAT-options.cpp"],
  [("limit checks in the search loop", S + "NapSAT.cpp"), ("solve_limited", "src/SAT-API.cpp")],
  SIM + "Virtual clock with jumps of up to weeks and stalls; limit overshoot of more than one conflict (outside graph backtracking) and lateness beyond a fixed number of steps are violations.", ["solve", "solve_limited"])
p("C05", "Blocking each model found enumerates every model exactly once",
  "Adding the negation of each model found and searching again visits every model of the clauses exactly once and then reports UNSAT, under every strategy.",
  ["inputs", "histories", "configurations"],
  "every clause set with at most 400 models over at most 14 variables, every configuration",
  UNIT, ["main.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-conflict.cpp"],
  [("adding a clause falsified by the current model", S + "NapSAT-clauses.cpp internal_add_clause"), ("repair of the trail", S + "NapSAT-conflict.cpp repair_conflicts")],
  SIM + "Oracle: exact model count and set.", ["solve", "add_clause"])
p("C06", "Partial assignments stay consistent and root facts are implied",
  "Between operations and during the search the assignment the API reports is consistent: no variable twice, values agree with the trail, and every literal reported at the root level follows from the clauses added so far, and every literal that is not a decision from the clauses and the decisions. A propagation that ends without a verdict leaves no clause violated and no forced literal without a value. A decision adds exactly one literal; the one that the user makes takes effect, and a variable that never had a value is first decided with the polarity suggested for it.",
  ["inputs", "histories", "configurations", "schedules"],
  "every partial state reachable by adding clauses, propagating, deciding, suggesting, limiting and resuming",
  UNIT, [S + "NapSAT-imply.cpp", S + "NapSAT-propagation.cpp", S + "NapSAT-backtrack.cpp", "src/SAT-API.cpp"],
  [("trail and levels", S + "NapSAT-imply.cpp"), ("reimplication at lower levels", S + "NapSAT-imply.cpp reimply_literal")],
  SIM + "Oracle: entailment over the exact model set.", ["get_partial_assignment", "propagate", "decide", "observer notifications"])
p("C07", "Learned and strengthened clauses follow from the clauses given",
  "Every clause the solver learns, and every clause left after it removes literals, is a logical consequence of the clauses the user has added so far.",
  ["inputs", "histories", "configurations"],
  "every learning and strengthening step of every search",
  UNIT, [S + "NapSAT-conflict.cpp", S + "NapSAT-purge.cpp"],
  [("conflict analysis and minimisation", S + "NapSAT-conflict.cpp"), ("removal of root-false literals", S + "NapSAT-purge.cpp")],
  SIM + "Oracle: entailment over the exact model set or by DPLL.", ["observer notifications"])
p("C08", "The observer's notifications mirror the solver exactly",
  "A client that follows the observer notifications reconstructs the solver's clauses and assignment exactly: clauses are announced once, with the literals the user gave, before they are used and not after they are deleted; literals are assigned, propagated and unassigned in a consistent order with live reasons that imply them. Whenever the client compares, its reconstruction equals what the API reports.",
  ["histories", "configurations", "schedules"],
  "every stream of notifications produced by any history",
  UNIT + " The observer interface is never attached in a test.", [S + "Sentinel-wrapper.hpp", S + "NapSAT-clauses.cpp", S + "NapSAT-imply.cpp", S + "NapSAT-backtrack.cpp"],
  [("notification macros", S + "custom-assert.hpp"), ("notification sites", S + "*.cpp")],
  SIM + "Oracle: a reference model of the observer state.", ["observer notifications", "get_partial_assignment"])
p("C09", "Propagation is complete and reasons are sound at quiescent points",
  "Whenever the solver declares its invariants checkable, no live clause is falsified or has an unnoticed implication among propagated literals, every implied literal's reason is a live clause whose other literals are false and were assigned earlier, and the watched literals satisfy the invariant declared for the chosen strategy.",
  ["histories", "configurations"],
  "every quiescent point of every search",
  UNIT, [S + "NapSAT-propagation.cpp", S + "NapSAT-backtrack.cpp", S + "NapSAT-clauses.cpp", "invariant-configurations"],
  [("watched-literal scheme with blockers", S + "NapSAT-propagation.cpp"), ("declared invariants", "invariant-configurations/*")],
  SIM + "Watch notifications exist only in builds with assertions.", ["observer notifications"])
p("C10", "Recorded resolution proofs refute the clauses given",
  "With proof recording on, after every UNSAT answer the solver's own checker accepts the proof, and the printed proof is a resolution refutation: its inputs are clauses the user gave, every step is a resolvent of earlier steps, and it derives the empty clause.",
  ["inputs", "histories", "configurations"],
  "every history ending in UNSAT, including incremental ones with clause deletion and simplification",
  UNIT, ["src/proof/proof.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-purge.cpp"],
  [("resolution chains", "src/proof/proof.cpp"), ("chains recorded by analysis and purge", S + "NapSAT-conflict.cpp")],
  SIM + "Oracle: an independent resolution checker over the printed text.", ["check_proof", "print_proof"])
p("C11", "Commands given at checkpoints keep the search sound",
  "A user who drives the search through checkpoint commands (decide, learn, print, continue), valid or not, in any order, gets verdicts and notifications as sound as if the same clauses had been added between searches; invalid commands are refused without an effect, and what PRINT shows is the solver's current trail and clauses.",
  ["histories", "configurations", "schedules"],
  "every sequence of commands at every checkpoint of every search",
  UNIT + " Interactive mode is never run.", ["src/observer", S + "NapSAT-utils.cpp", S + "NapSAT.cpp"],
  [("command parser", S + "NapSAT-utils.cpp parse_command"), ("checkpoints in the search loop", S + "NapSAT.cpp")],
  SIM + "The simulated user answers at the observer's checkpoint callback.", ["checkpoint callback", "solve"])
p("C16", "Solver instances are isolated and their runs are repeatable",
  "What one solver instance answers depends only on its own options and history: it is the same when other instances run interleaved with it, when the wall clock jumps, and whatever memory contained before. The same history run twice gives the same answers, models and printed proofs.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of up to three instances at any seam crossing, every clock history, every initial heap content",
  UNIT + " No test creates two instances.", ["src/SAT-API.cpp", S + "NapSAT.cpp", S + "SAT-options.cpp"],
  [("all state kept per instance", S + "NapSAT.hpp")],
  "Every client's API transcript in company is compared with its transcript alone under another clock and heap content.", ["API results"])
p("C17", "Running out of memory never leads to a wrong answer",
  "If any single allocation fails, the operation either reports it (an exception) or the process stops; no wrong verdict is given, released or foreign memory is never touched, and the other instances in the process, as well as a new one created after the failed one is released, answer correctly.",
  ["fault_sequences", "histories"],
  "a failure of the n-th allocation for any n, during any operation, with any configuration",
  UNIT + " No test injects a failing allocation.", ["src/SAT-API.cpp", S + "NapSAT.cpp", S + "NapSAT-clauses.cpp", "src/utils"],
  [("exceptions propagate through the API", "src/SAT-API.cpp"), ("destructor of a half-updated instance", S + "NapSAT.cpp ~NapSAT"), ("clause memory", S + "NapSAT-clauses.cpp")],
  "One failing allocation per run, at a log-uniform position; memory guards and poisoning detect invalid releases.", ["exceptions", "solve"])
p("C23", "Ignoring unused variables is sound",
  "With unused variables ignored, a SAT answer's partial assignment satisfies every clause and assigns every variable that occurs in a clause, UNSAT is only given for unsatisfiable clause sets, and a variable that starts to occur later is decided from then on.",
  ["inputs", "histories", "configurations"],
  "every history with variables that occur in no clause, in later clauses only, or in clauses that are dropped",
  UNIT, [S + "NapSAT.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-utils.cpp"],
  [("constrained marks", S + "NapSAT-clauses.cpp"), ("SAT detection", S + "NapSAT.cpp")],
  SIM, ["solve", "get_partial_assignment"])
p("C24", "Clauses can be added at any point of the search",
  "A clause may be added at any point between operations (after a verdict, after an interruption, or in the middle of user-driven propagation and decisions), in one piece or literal by literal, with duplicate or opposite literals or with new variables; every later answer is right for all the clauses added so far.",
  ["histories", "configurations", "inputs"],
  "every interleaving of additions with propagation, decisions, limits and searches",
  UNIT, ["src/SAT-API.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT.cpp"],
  [("clause addition under a non-empty trail", S + "NapSAT-clauses.cpp internal_add_clause"), ("pending conflicts", S + "NapSAT-conflict.cpp")],
  SIM, ["add_clause", "start_clause/add_literal/finalize_clause", "solve"])

EXTRA = V + "/tools/mkprops_more.py"
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P.sort(key=lambda x: x[0]["id"])
with open(V + "/properties.jsonl", "w") as o:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        o.write(json.dumps(d) + "\n")
claimed = [d for d, _ in P if d["id"] in PROPS]
m = {
    "version": 1, "setup_cmd": "bin/setup",
    "checks": [dict(property=d["id"], quick_cmd="bin/check %s --tier quick" % d["id"], thorough_cmd="bin/check %s --tier thorough" % d["id"],
                    technique="deterministic simulation with fault injection (seeded search over histories, schedules and faults)",
                    level=PROPS[d["id"]]["level"], level_note=n) for d, n in P if d["id"] in PROPS],
    "not_applicable": [dict(property=a, reason=b) for a, b in NA],
}
missing = [d["id"] for d, _ in P if d["id"] not in PROPS and d["id"] not in [a for a, _ in NA]]
assert not missing, missing
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(claimed), "checks")
