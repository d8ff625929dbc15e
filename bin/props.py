"""What each check explores. Ids as in properties.jsonl."""
REAL = ["all of /repo/src (solver, proof, utils, observer, exporter, API), compiled from the working tree",
        "C++ standard library, liblzma, libbz2"]
STUB = ["SATSentinel observer library (submodule not present): /verif/sim/stub implements its interface and is the seam for switches and observation",
        "std::chrono clocks: virtual", "operator new/delete of the code under test: arena with injected failures and guards",
        "process scheduler: clients are fibres switched by the seeded plan"]
SOLVER_RULE = "a run is non-trivial if a verdict was reached and judged against the reference (exact model set up to 14 variables, an independent DPLL above)"
PROPS = {}


def add(ids, **kw):
    for i in ids.split():
        d = dict(flavors=["chk", "rel"], level="exploration", rule=SOLVER_RULE)
        d.update(kw)
        PROPS[i] = d


add("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C23 C24")
add("C16", rule="a run is non-trivial if at least one client was compared with its solitary execution")
add("C17", level="exploration", rule="a run is non-trivial if an allocation failure was injected and the client had to abandon and recover")
DISK = ["files under /simdisk: an in-process disk (fopen, read, lseek, fstat, poll interposed) with injected read errors, short and interrupted reads, stalls, torn, lost, stale or corrupted data"]
add("C15", stub=STUB + DISK, rule="a run is non-trivial if at least one file was parsed and its acceptance, its clauses and the later verdicts were judged against an independent DIMACS reader and reference solver")
add("C22", stub=STUB + DISK, rule="a run is non-trivial if the program's main function ran and its output and exit code were judged against an independent DIMACS reader and reference solver")
CR = "a run is non-trivial if at least one operation was judged against the reference model"
add("C18", rule=CR); add("C19", rule=CR); add("C20", rule=CR); add("C25", rule=CR)
add("C21", rule="a run is non-trivial if an empty clause was derived and the acceptance and the printed form of the proof were judged")
add("C27", stub=STUB + DISK, rule="a run is non-trivial if a workload was repeated after its static storage was taken and the memory, files and decompression streams held at its end were compared with those held before")
add("C28", rule="a run is non-trivial if the statistics of a solver were read and compared with what was announced and with the simulated clock")
add("C26", rule="a run is non-trivial if at least one command line was read and every option compared with the documented meaning, or the help text was judged")
