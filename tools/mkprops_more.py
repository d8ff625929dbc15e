p("C15", "Problem files are read exactly, or refused",
  "Loading a DIMACS file, plain or compressed, either succeeds and adds exactly the clauses that the file states (so later answers are those of the file's formula together with everything else given), or reports a failure; truncated, corrupted, unreadable or malformed input is never taken for a shorter valid problem, and no file content makes the process misbehave.",
  ["inputs", "fault_sequences", "histories"],
  "every file content and layout (comments, spacing, annotations, several clauses per line, several files per solver, xz and bzip2 streams also concatenated), and every read fault or corruption of the stored bytes",
  "No shipped test reads a file.", [S + "NapSAT-utils.cpp", "src/utils/decoder.cpp", "src/SAT-API.cpp"],
  [("DIMACS reader", S + "NapSAT-utils.cpp parse_dimacs"), ("decompression", "src/utils/decoder.cpp"), ("annotations", S + "NapSAT-utils.cpp parse_dimacs")],
  "Simulated disk; oracle: an independent strict DIMACS reader and an independent check of the compressed stream's integrity. Annotations other than names and aliases are outside the subset.", ["parse_dimacs", "solve", "get_clause"])
p("C22", "The command line program answers for its input file",
  "Run on a problem file, the program prints exactly one verdict line, and that verdict is right for the problem in the file: with --all-models it finds every model; with proof printing it prints a valid refutation of the file's clauses; it refuses missing, damaged or malformed files with a non-zero exit code and no verdict, and says so when a limit stopped it.",
  ["inputs", "configurations", "fault_sequences"],
  "every file, every combination of options, and every read fault, clock jump and allocation failure",
  "No shipped test runs the program.", ["main.cpp", S + "NapSAT-utils.cpp", S + "SAT-options.cpp", "src/utils/decoder.cpp", "src/proof/proof.cpp"],
  [("program", "main.cpp"), ("file reader", S + "NapSAT-utils.cpp parse_dimacs"), ("proof printer", "src/proof/proof.cpp")],
  "main() runs in-process on the simulated disk and clock; its standard output, error and exit code are judged against the reference.", ["standard output", "exit code"])
HIST = "Seeded search over operation histories on up to four instances, with one failing allocation in a fifth of the runs. "
p("C18", "Chunk sets behave as sets of integers",
  "After any history of operations, a chunk set holds exactly the bits that were set: membership, count, emptiness, iteration order, the union, intersection, difference and symmetric difference (in place or not, also of a set with itself), and every comparison between sets of the same capacity agree with the mathematical sets; growing keeps the content; operations change nothing but their target, also when one fails for lack of memory.",
  ["histories", "inputs", "fault_sequences"],
  "every history of operations on any number of sets of any size, with an allocation failing at any point",
  "test-bitset.cpp checks fixed values on few sizes.", ["src/utils/bitset.hpp", "src/utils/bitset.cpp"],
  [("two-level sparse storage", "src/utils/bitset.cpp"), ("in-place combination", "src/utils/bitset.cpp update()"), ("iteration", "src/utils/bitset.cpp iterator::next")],
  HIST + "Oracle: std::set. Comparison of sets of different capacity is outside (precondition).", ["get", "count", "cbegin/cend", "operators"])
p("C19", "The decision heap yields a key of maximal activity",
  "After any history of insertions, removals, activity changes, rescalings and copies, the heap contains exactly the keys inserted and not removed, its top has the greatest activity of them, and popping yields all of them in order of decreasing activity. A failed insertion leaves it unchanged.",
  ["histories", "inputs", "fault_sequences"],
  "every history of operations, with equal, extreme or vanishing activities, with an allocation failing at any point",
  "No shipped test covers the heap.", ["src/utils/heap.hpp", "src/utils/heap.cpp"],
  [("sift up and down", "src/utils/heap.cpp"), ("index of each key", "src/utils/heap.cpp")],
  HIST + "Oracle: a map from key to activity.", ["top", "pop", "contains", "size"])
p("C20", "The allocation tree is a balanced ordered set with best fit",
  "After any history of insertions and removals, the tree holds exactly the elements inserted and not removed, in order, with a depth within the AVL bound; insertion and removal tell whether they changed it, and a best-fit query returns data of the smallest key that is large enough. A failed allocation leaves it unchanged.",
  ["histories", "inputs", "fault_sequences"],
  "every history of insertions, removals and queries with repeated keys, with an allocation failing at any point",
  "test-avl.cpp checks a few dozen fixed insertions and removals.", ["src/utils/partition.hpp", "src/utils/partition.cpp"],
  [("rotations", "src/utils/partition.cpp"), ("removal of inner nodes", "src/utils/partition.cpp remove()"), ("best fit", "src/utils/partition.cpp find_best_fit")],
  HIST + "Oracle: std::set of pairs, and the structure printed by print().", ["insert", "remove", "find_best_fit", "print"])
p("C21", "The proof object accepts exactly the valid refutations",
  "For every history of inputs, resolution chains, strengthened and deactivated clauses, reused identifiers and root literals, checking the proof succeeds exactly if every step leading to the empty clause is a correct resolution (in release builds, where wrong steps can be recorded); a proof that is accepted prints as a valid refutation of the inputs; checking twice gives the same answer.",
  ["histories", "inputs", "fault_sequences"],
  "every history of proof operations, with forged steps (wrong pivot, missing link, swapped links, wrong literals) and an allocation failing at any point",
  "No shipped test covers the proof object.", ["src/proof/proof.hpp", "src/proof/proof.cpp"],
  [("chain checking", "src/proof/proof.cpp check_resolution_chain"), ("backward traversal", "src/proof/proof.cpp check_proof"), ("root literal removal", "src/proof/proof.cpp remove_root_literals"), ("printing", "src/proof/proof.cpp print_proof")],
  HIST + "Oracle: strict re-derivation of every step and an independent parser and checker of the printed proof.", ["check_proof", "print_proof"])
p("C25", "Tracked dependencies are exactly the inputs a clause came from",
  "After any history of input and learned clauses, links, tracked or cancelled analyses, deletions and reused identifiers, the dependencies reported for a clause are exactly the input clauses that it was derived from.",
  ["histories", "inputs", "fault_sequences"],
  "every history of tracker operations, with an allocation failing at any point",
  "No shipped test covers the tracker.", ["src/proof/dependency_tracker.hpp", "src/proof/dependency_tracker.cpp"],
  [("premise sets", "src/proof/dependency_tracker.cpp"), ("current analysis", "src/proof/dependency_tracker.cpp start_tracking/finalize_tracking")],
  HIST + "Oracle: sets propagated by the definition.", ["get_dependencies"])
p("C26", "Options mean what is documented, together and in any order",
  "Reading a command line gives every option the value that the documentation states: defaults for what is not given, the first occurrence for what is repeated, each option under all of its names. Values that are malformed, options that are unknown and combinations that exclude or require each other lead to the documented configuration, and the program says so unless told to be quiet; a command line that is followed as it stands causes no complaint. The options behind the observer's braces reach the observer unchanged. Reading never crashes, and a value that an option's range forbids ends the program. The help text lists every option with its default.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every sequence of command lines read in one process, with tokens lost, repeated, swapped or cut, and an allocation failing at any point",
  "No shipped test reads an option; a test would sample a handful of the combinations of 33 options.", ["src/utils/options.cpp", S + "SAT-options.cpp", "include/SAT-options.hpp", "src/utils/options.hpp"],
  [("values of options", "src/utils/options.cpp consume()"), ("subsumption and requirements", "src/utils/options.cpp resolve()"), ("observer group, implied options", S + "SAT-options.cpp options::options"), ("process-wide options", S + "SAT-options.cpp env::extract_environment_variables")],
  "Seeded search over histories of command lines with damaged ones and one failing allocation. Oracle: an independent reader written from the documentation in SAT-options.hpp and the help text.", ["options fields", "env", "get_help_text", "standard output and error"])

p("C27", "What is deleted gives back everything it took",
  "When every solver, options object and data structure that a workload created has been deleted, all the memory it took is given back, every file it opened is closed and every decompression stream is ended, whatever the workload did and even if an allocation failed in it at any point, the construction of a solver included. Repeating a workload does not make the process grow.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of operations on solvers (all strategies, statistics, proofs, dependencies, observer, commands, files that are torn, corrupt or unreadable) and on the data structures, with an allocation failing at any point",
  "No shipped test looks at memory or files held after an object is deleted, and none makes an allocation fail.", [S + "NapSAT.cpp", S + "NapSAT-clauses.cpp", S + "NapSAT-checker.cpp", "src/proof/proof.cpp", "src/utils/partition.cpp", "src/utils/decoder.cpp"],
  [("construction and destruction", S + "NapSAT.cpp NapSAT::NapSAT, ~NapSAT"), ("literals of clauses", S + "NapSAT-clauses.cpp next_clause_id"), ("nodes of the tree, literals of proof steps", "src/utils/partition.cpp, src/proof/proof.cpp"), ("files and streams on every way out", "src/utils/decoder.cpp")],
  "Seeded search over the workloads of the other properties, each run once without faults (static storage is taken then) and twice as planned; growth from one planned run to the next is a violation. Memory is counted by the arena behind operator new, files and streams at the simulated disk and the interposed library calls.", ["delete_solver", "operator new / delete", "fopen / fclose", "lzma_end, BZ2_bzReadClose"])
p("C28", "Statistics say what happened",
  "The statistics of a solver are true at every moment they are read: the clauses added, the clauses that became binary or unit, and the average size of what was learned are those that took place, and no more clauses are counted as deleted than were deleted, and no more restarts than conflicts were repaired; the age of the solver and the time spent searching and repairing are the time that really went by, each second counted once, whatever happens to the wall clock and however long a stall lasts; every line is a well-formed number or duration, and no line appears twice.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "every history of additions, searches, limits, timeouts, restarts, purges, commands and interrupts, read at any moment, with the wall clock jumping by hours in both directions and stalls of up to hours at any read of the clock",
  "No shipped test reads a statistic or controls a clock.", ["src/observer/SAT-stat.cpp", "src/observer/SAT-stat.hpp", "src/utils/printer.cpp", S + "NapSAT.cpp", S + "NapSAT-conflict.cpp"],
  [("counters and averages", "src/observer/SAT-stat.hpp stat"), ("rendering", "src/observer/SAT-stat.cpp get_statistics"), ("numbers and durations", "src/utils/printer.cpp pretty_integer, pretty_float, pretty_time"), ("time of searches and repairs", S + "NapSAT.cpp solve, NapSAT-conflict.cpp repair_conflicts")],
  "Seeded search over histories with simulated clocks. Oracle: the clauses announced to the observer, and the simulated time that went by in each call.", ["get_statistics", "-stat", "observer notifications"])

ASM = "Assumptions exist for graph backtracking only. " + SIM
p("C12", "Assumptions hold in every answer and can be taken back",
  "With graph backtracking: an accepted assumption is true at once and in every model reported until it is forgotten; an assumption is only refused, and UNSAT only reported, if the clauses have no model under the assumptions made; after forgetting assumptions, the answers are those of the clauses with the remaining assumptions.",
  ["histories", "inputs", "configurations"],
  "every history of assumptions, one by one or as a vector, and of forgetting, between and during additions, searches, limits, restarts, blocked models and commands, on literals that are undefined, true, false, decided, implied or at root level",
  UNIT, ["src/SAT-API.cpp", S + "NapSAT-assumptions.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-backtrack.cpp"],
  [("locked chunks", S + "NapSAT-assumptions.cpp"), ("conversion of implied literals", S + "NapSAT-assumptions.cpp add_assumption_GB_true"), ("repair without the locked chunks", S + "NapSAT-conflict.cpp graph_repair")],
  ASM + "Oracle: exact model set under the assumptions.", ["add_assumption", "forget_assumption", "solve", "get_variable_value"])
p("C13", "Failed assumptions are really contradictory",
  "After UNSAT under assumptions, the failed assumptions reported are assumptions that were made and not forgotten, and the clauses have no model under them alone.",
  ["histories", "inputs", "configurations"],
  "every history that ends in UNSAT with any set of assumptions",
  UNIT, [S + "NapSAT-assumptions.cpp", S + "NapSAT-conflict.cpp"],
  [("chunks of the conflicts", S + "NapSAT-assumptions.cpp unsat_core")],
  ASM + "Oracle: exact model set under the reported literals.", ["unsat_core"])
p("C14", "The clause core explains UNSAT under the assumptions",
  "With dependency tracking, the clauses reported as the core after UNSAT are clauses that the user gave, and they have no model under the assumptions made.",
  ["histories", "inputs", "configurations"],
  "every history that ends in UNSAT with any set of assumptions, with clauses deleted, shortened or merged in between",
  UNIT, [S + "NapSAT-assumptions.cpp", "src/proof/dependency_tracker.cpp", S + "NapSAT-conflict.cpp", S + "NapSAT-purge.cpp"],
  [("traversal of the reasons", S + "NapSAT-assumptions.cpp clause_unsat_core"), ("dependency tracking", "src/proof/dependency_tracker.cpp")],
  ASM + "Oracle: exact model set of the reported clauses under the assumptions.", ["clause_unsat_core"])
