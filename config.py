"""Which simulated scenarios decide which property, and how much of them each tier runs."""
BASE_ASSUME = [
    "the scheduler interleaves threads at the granularity of single memory accesses of the instrumented library; "
    "BLAS/LAPACK and libstdc++ internals run as one step",
    "the reference BLAS/LAPACK installed here is deterministic",
    "sampling: a clean batch is evidence, not proof",
]
REAL = "all of /repo/src and /repo/include (compiled from the working tree with access instrumentation), libstdc++, reference LAPACK/BLAS"
STUBS = ("OpenMP runtime, pthreads, mutexes, condition variables, clocks, sleep, random_device, rand and the allocator "
         "are the simulator's")

GROUPS = {
    "search": {"files": ["s_search.cpp", "s_real.cpp"]},
    "ops": {"files": ["s_ops.cpp", "ops_models.cpp", "ops_misc.cpp", "s_realops.cpp"]},
    "score": {"files": ["s_score.cpp"]},
    "misc": {"files": ["s_misc.cpp", "s_api.cpp"]},
    "r": {"files": ["s_r.cpp", "s_steps.cpp", "s_est.cpp"], "r": True},
}


def C(group, quick, thorough, rule, **k):
    d = {"group": group, "quick": quick, "thorough": thorough, "rule": rule, "level": "exploration",
         "technique": "deterministic simulation with fault injection (seeded schedules and faults)",
         "assume": BASE_ASSUME, "real": REAL, "stubs": STUBS}
    d.update(k)
    return d


CHECKS = {
    "P01": C("search", (3200, 30), (400000, 600),
             "a run draws data sizes, partitions, metrics, items, candidate outcomes, thread count, schedule policy and work "
             "order from one seed, runs the real search and compares it with independent enumeration and aggregation; non-trivial: at "
             "least two candidates and one compared result; distinct: different run hash (configuration, outcomes and results)",
             note="The whole result of the real search engine is compared with an independent aggregation, for seeded schedules and orders."),
    "P03": C("search", (3200, 30), (400000, 600),
             "as P01 with injected candidate failures of every kind; non-trivial: at least one failure and one success; distinct run hash",
             note="Failures are injected into candidates at every position; the result must equal the reference without them."),
    "P04": C("search", (3200, 30), (400000, 600),
             "a cancel request arrives at a seeded event of the search; non-trivial: the cancel arrived while the search ran; distinct run hash",
             note="Cancel is injected at arbitrary scheduling points."),
    "P05": C("r", (8000, 90), (400000, 600),
             "a run draws a real search, calls the package's entry point inside an embedded R session under a seeded schedule, speed of the work, "
             "report interval and one disturbance (user interrupts, lack of memory, entropy or threads, clock jumps), compares the returned list "
             "with the search run without R and calls again; non-trivial: the call ended; distinct run hash",
             note="The R-facing entry points run in an embedded R; polls, interrupts, clock, threads and memory are the simulator's."),
    "P15": C("r", (3600, 200), (400000, 600),
             "a run draws a step-wise search (kind, data, step sizes, metrics, items, limits), runs it once without disturbance and compares it "
             "with the steps searched one by one and put together here, then runs it in up to four sessions that crash, lose power, meet a failing "
             "or full disk, a failing step or an interrupt, and again undisturbed; non-trivial: more than one step and a result to compare",
             note="The package's R code runs in an embedded R on a simulated disk; crash points and faults are drawn per disk operation."),
    "P18": C("r", (4000, 140), (400000, 600),
             "a run draws one estimation or statistics call of the R package and its arguments, makes it undisturbed, compares statistics with the "
             "library itself, and makes it again under collections (also with integer numbers given as double), without memory, with failing library "
             "routines, with warnings as errors and undisturbed; non-trivial: the undisturbed call returns a result",
             note="The package's R code and entry points run in an embedded R; collections, memory and routines fail where the seed says."),
    "P06": C("score", (60000, 60), (400000, 600),
             "a run draws data, split sizes, metrics and limits, evaluates the model with seeded library-routine or memory failures, and "
             "compares every score with the sum over iterations estimated one by one; non-trivial: a score or a refusal is compared",
             note="Each iteration is estimated alone and scored by an independent implementation; failing iterations are injected."),
    "P07": C("score", (18000, 60), (400000, 600),
             "a run draws data, orders, horizons, metrics and limits, evaluates the model with seeded library-routine or memory failures, and "
             "compares every score with the sum over origins estimated one by one on data whose values after the origin are replaced; "
             "non-trivial: a score or a refusal is compared",
             note="Each origin is estimated alone without the later observations; failing origins are injected."),
    "P08": C("score", (40000, 60), (400000, 600),
             "a run draws data, weights, costs, split sizes and limits, evaluates the model with seeded library-routine or memory failures, "
             "and compares AUC, Brier score, cost ratios and frequency table with the sum over iterations estimated one by one; non-trivial: "
             "a score or a refusal is compared",
             note="Each iteration is estimated alone and scored by an independent implementation; failing iterations are injected."),
    "P10": C("ops", (50000, 60), (400000, 600),
             "a run draws one library operation and its inputs from the catalogue, computes it in a clean world and again with dirty "
             "buffers and memory or after other calculations of the same object, and compares bit for bit; non-trivial: the operation succeeds",
             note="Buffers are bounds-checked arenas; memory, buffers and object history vary with the seed."),
    "P02": C("ops", (5000, 60), (400000, 600),
             "a run draws two to four operations and inputs from the catalogue (often the same operation on the same shared data), runs "
             "them on simulated threads under a seeded scheduler and compares each with its own sequential run bit for bit, with a "
             "happens-before race detector and write-protected inputs; non-trivial: at least two succeed and the scheduler switched",
             note="Interleavings at single memory accesses; inputs are write-protected; races are violations."),
    "P09": C("ops", (10000, 60), (400000, 600),
             "a run draws a seeded operation and repeats it in an environment with other entropy, clock, memory contents, earlier and "
             "concurrent calculations, and compares bit for bit; non-trivial: it succeeds",
             note="Entropy, clock, scheduling, thread count and memory contents are the simulator's and differ between the two runs."),
    "P11": C("ops", (32000, 60), (400000, 600),
             "a run draws an operation and lets one or several of its memory requests fail; non-trivial: a request failed",
             note="Every allocation of the library goes through the simulator; leaks are counted at the end of each world."),
    "P13": C("misc", (60000, 45), (4000000, 600),
             "a run draws values (missing, constant, far from zero) and weights (zero, tiny, spread over 280 decades), splits them into "
             "accumulators, merges these in a seeded tree or by simulated threads as they finish, and compares with population statistics "
             "in extended precision; non-trivial: at least two values",
             note="Arrival order, grouping and merge order (also by a seeded thread schedule) are drawn; the reference is two-pass."),
    "P14": C("misc", (60000, 45), (4000000, 600),
             "a run draws variables of all frequency classes, writes them as text, lets simulated storage tear, lose, duplicate, flip, zero, "
             "misplace or interleave parts of it, and reads all lines into the same objects, sometimes without memory; non-trivial: a line is read",
             note="Intact lines must read back as the same variable; damaged ones are rejected or well-formed; later reads are unaffected."),
    "P17": C("misc", (30000, 45), (4000000, 600),
             "a run draws programs of calls of the C interface (frequencies of all classes created, copied, moved, written, compared, combined and "
             "disposed; distributions; scores; errors) for one to three callers, runs each alone and all of them on simulated threads, in a "
             "third of the runs with failing memory requests; non-trivial: more than two calls",
             note="Every call is compared with the C++ function and with the message its caller gets; handles, buffers, races and leaks are checked."),
    "P16": C("misc", (30000, 45), (4000000, 600),
             "a run draws an optimiser, an objective, bounds, limits and how the objective misbehaves (missing or infinite in a region, at "
             "chosen evaluations, exceptions), runs it alone, repeatedly on one object, nested, or on two simulated threads, and checks the "
             "reported minimum against the recorded evaluations; non-trivial: the objective misbehaved",
             note="Every evaluation is recorded; misbehaviour is injected at points and at evaluation numbers."),
    "P12": C("ops", (32000, 60), (400000, 600),
             "a run draws an operation and lets one or several of its LAPACK calls fail, filling the outputs of the routine with finite "
             "wrong numbers; non-trivial: a call failed and the operation normally succeeds",
             note="LAPACK entry points are wrapped at link time."),
}
