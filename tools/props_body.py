p("P01","Model-search results do not depend on threads, schedule or work order",
"A model search evaluates every admissible combination of variables exactly once, in sequential and in parallel mode, for every number of worker threads, every interleaving and every order in which its work is handed out. Its result - the K best models per metric and target, the list of all models, inclusion weights, best coefficients, distribution-function averages, mixture moments, extreme bounds, expected and searched counts - is what a plain sequential aggregation of the same per-model outcomes gives. Models whose metric cannot be computed never enter a ranking or an average.",
["schedules","inputs","configurations"],
"every schedule of every team size; every partitioning of candidate variables, fixed partitions, size list, target set, metric list and per-model outcome (including NaN metrics, equal metrics, underflowing or zero weights, negative coefficients)",
"Tests run a handful of fixed searches through R, mostly sequential, and compare a few best models with a re-estimation; they never vary the schedule, the work order (which is random on purpose) or the values being aggregated.",
["src/ldt_statistics/modeling/search/searcher.cpp","src/ldt_statistics/modeling/search/modelset.cpp","src/ldt_statistics/modeling/search/summary.cpp","src/ldt_statistics/modeling/search/searcher_reg.cpp","include/math/statistics/running.h"],
[("enumeration of one searcher's models","searcher.cpp: Searcher::Start, move_next, next"),("parallel hand-out and random order","modelset.cpp: ModelSet::Start"),("aggregation inside and across searchers","summary.cpp: SearcherSummary::Push; modelset.cpp: Combine*")],
[("per-searcher summaries","bests, all, inclusion, cdf, mixture, bounds kept by each worker","searchers.h: SearcherSummary")])

p("P02","Concurrent work shares no unsynchronised mutable memory; inputs stay untouched",
"Searchers running in parallel, and independent estimations, simulations, optimisations, decompositions and descriptive computations run at the same time on different threads with their own objects, never touch the same memory in conflicting ways without synchronisation, so each gives bit for bit the result it gives alone. The data, options and combinations handed to a search or an estimation are never written by it.",
["schedules","programs","inputs"],
"every interleaving at memory-access granularity of up to 8 threads, every pairing of library entry points on distinct objects",
"A data race shows only in particular interleavings and often not even then; the unit tests are single-threaded, and the R tests that use the parallel mode compare one lucky schedule.",
["src/ldt_statistics/modeling","src/ldt_math/optimization","src/matrix","include/matrix.h"],
[("parallel region","modelset.cpp: ModelSet::Start"),("read-only sharing of search inputs","searchers.h: pData, pCombinations, pItems, pMetrics, pChecks"),("translated Fortran optimiser with file-level statics","optimization/lbfgsb/*.c")])

p("P03","A failing candidate model affects only its own entry in the search",
"A candidate model that fails - it reports an error, throws anything, its metrics are all missing, or a numerical-library routine fails underneath it - is counted once under its own failure message and contributes nothing else. Every other candidate's contribution, and the rest of the result, is exactly as if the failing candidate had merely been absent from the ranking, whatever the position, kind, number and thread of the failures. Searched models equal successful ones plus the failure counts.",
["fault_sequences","schedules","inputs"],
"every assignment of failure kinds (error text, std exception, string, C string, unknown object, memory exhaustion, numerical-library error) to candidates, in sequential and parallel mode",
"Tests contain few failing candidates and cannot make the linear-algebra library or the allocator fail at a chosen model; isolation is a statement about all failure positions.",
["src/ldt_statistics/modeling/search/searcher.cpp","src/ldt_statistics/modeling/search/searcher_reg.cpp","src/ldt_statistics/modeling/search/modelset.cpp","src/ldt_statistics/modeling/linear/sur_modelset.cpp"],
[("failure capture and counting","searcher.cpp: Searcher::Start, AddState"),("aggregation of failures","modelset.cpp: CombineInfo"),("model estimators reused between candidates","*_modelset.cpp: EstimateOneReg")],
[("failure table","message -> count","searchers.h: States, FailsCount")])

p("P04","Cancelling a search stops it promptly and leaves consistent partial state",
"After a cancel request, each worker finishes at most the candidate it is working on, no further candidate is started, and the search call returns. The partial result contains only candidates that completed normally, never more than requested, with counts that agree with it; candidates interrupted half-way contribute nothing. The inputs remain usable: a new search on them gives the full, correct result.",
["schedules","fault_sequences"],
"a cancel request at every point of every schedule, before, during and after the work, in sequential and parallel mode, and during a long single estimation that simulates out of sample",
"No test requests cancellation; the property quantifies over the moment of the request relative to all workers.",
["src/ldt_statistics/modeling/search/searcher.cpp","src/ldt_statistics/modeling/search/modelset.cpp","src/ldt_statistics/modeling/linear/sur_simulation.cpp","src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp"],
[("cancel flag checks","searcher.cpp: Searcher::Start; searcher_reg.cpp: EstimateOne; modelset.cpp: ModelSet::Start; simulation loops")])

p("P05","The interactive search call always ends: result, error or interrupt",
"From the R session, a search call returns its result a bounded number of progress polls after the work ends, raises an R error when the work fails for any reason (also resource exhaustion and missing entropy), and on a user interrupt cancels the work, waits for it and raises; it never hangs, never ends the process and never returns a result from a cancelled or failed search. The result the session gets is what the search itself found, item by item. Progress reporting, its interval, clock jumps, slow workers and collections of R's garbage collector at any allocation change neither the result nor the counts.",
["schedules","fault_sequences","configurations"],
"every interleaving of the worker thread(s) with the polling session thread, interrupts at every poll, failures of thread start, memory and the entropy source, forward and backward clock jumps, every report interval, a garbage collection at any allocation",
"The R tests run with the real clock and scheduler and no interrupts or resource failures; a lost wake-up or a never-cleared flag appears as a hang only in specific interleavings or fault points.",
["Rpackage/src/r_ldt.cpp","Rpackage/src/r_sur.cpp","Rpackage/src/r_varma.cpp","Rpackage/src/r_dc.cpp"],
[("asynchronous worker and its completion flag","r_sur.cpp, r_varma.cpp, r_dc.cpp: std::async + estimating"),("progress polling and interrupt","r_ldt.cpp: ReportProgress, ReportProgressInner")])

p("P06","SUR out-of-sample scores count exactly the iterations that worked",
"For a seemingly-unrelated-regressions model, each out-of-sample score is the average over the valid simulated splits of the errors of a model estimated on the training part and evaluated on the test part, and an iteration that fails for any reason contributes to no score and is listed under its message. When fewer splits are valid than required, the evaluation fails instead of reporting a score. Valid plus invalid iterations equal the iterations run.",
["fault_sequences","inputs","configurations"],
"every pattern of failing iterations (singular training samples, failing decompositions at any call), all metrics, weights, transformations and train sizes",
"Tests compare a few simulations with no failing iteration; the accounting under failures depends on which iteration fails and how.",
["src/ldt_statistics/modeling/linear/sur_simulation.cpp","src/ldt_statistics/modeling/linear/sur_modelset.cpp","src/ldt_statistics/data_split.cpp","src/ldt_statistics/scoring/scoring.cpp"],
[("simulation loop","sur_simulation.cpp: SurSimulation::Calculate"),("minimum number of valid simulations","sur_modelset.cpp: EstimateOneReg")],
[("Results, ValidCounts, ValidIters, Errors","score sums and their denominators","sur.h: SurSimulation")])

p("P07","VARMA out-of-sample scores count exactly the evaluations that worked",
"For a VARMA model, each rolling-origin score is the average, over the origins and horizons that could be evaluated, of the error of forecasts made only from data before the origin; an origin whose estimation or forecast fails contributes nothing and is counted as failed. When fewer evaluations are valid than required, the evaluation fails instead of reporting a score.",
["fault_sequences","inputs","configurations"],
"every pattern of failing origins, horizon sets, metrics, transformations and exogenous data; failures of the optimiser or of a decomposition at any call",
"The tests evaluate a few fault-free series; accounting errors need an origin that fails in the middle.",
["src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp","src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp"],
[("rolling-origin loop","varma_simulation.cpp: VarmaSimulation::Calculate"),("minimum number of valid simulations","varma_modelset.cpp: EstimateOneReg")])

p("P08","Discrete-choice out-of-sample scores count exactly the iterations that worked",
"For a discrete-choice model, AUC, Brier score, cost ratios and probability-frequency tables are averages or sums over exactly the valid simulated splits, each estimated on a training part that keeps both outcomes and evaluated on the complementary test part; a failing iteration contributes nothing and is counted under its message. When fewer splits are valid than required, the evaluation fails instead of reporting a score.",
["fault_sequences","inputs","configurations"],
"every pattern of failing iterations, weights, cost tables, thresholds, train sizes, metric subsets in any order",
"Only estimation is covered by the C++ tests, and R tests contain fault-free simulations with one order of metrics.",
["src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp","src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp","src/ldt_statistics/data_split.cpp","src/ldt_statistics/scoring/frequency_cost.cpp"],
[("simulation loop","discrete_choice_sim.cpp: DiscreteChoiceSim::Calculate"),("minimum number of valid simulations","discrete_choice_modelset.cpp: EstimateOneReg")])

p("P09","A fixed seed fixes every simulated result, whatever the environment",
"With a fixed non-zero seed, every random split, simulated sample and simulation-based score is a function of seed and inputs alone: process entropy, clock, thread schedule, number of threads, memory contents, earlier calls and concurrent work change nothing, not even one bit. Each simulated split assigns every observation to exactly one of the training and test parts with the requested sizes, and a model evaluated inside a search gets the scores it gets when evaluated alone with the seed that search gave it.",
["schedules","histories","inputs"],
"every entropy and clock value, schedule, memory fill, and history of earlier operations on the same or other objects",
"Tests run one process state per seed; dependence on entropy, memory or schedule shows only when those are varied under control.",
["src/ldt_statistics/data_split.cpp","src/ldt_statistics/modeling/linear/sur_simulation.cpp","src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp","src/ldt_statistics/modeling/linear/sur_modelset.cpp","src/matrix/matrix.cpp"],
[("seeded splits","data_split.cpp: DataSplit::Shuffle, DataSplitDiscrete::Shuffle"),("per-searcher seeds","sur_modelset.cpp, discrete_choice_modelset.cpp")])

p("P10","Results never depend on stale buffer contents, and buffers are never overrun",
"Every estimation, simulation, projection, decomposition, score and descriptive computation gives the same result whatever the caller's work and storage buffers and freshly allocated memory contain, and whatever the same object computed before, including calculations that failed half-way. It reads and writes only inside the buffer sizes the object declared.",
["histories","inputs","fault_sequences"],
"every initial memory content, every sequence of calls on one object (different data, sizes up to the declared maximum, failing calls in between), every option subset",
"Tests mostly use fresh zeroed memory and one call per object; stale-memory bugs need a specific earlier content or call.",
["include/math/statistics","src/ldt_statistics","src/matrix"],
[("declared work and storage sizes","WorkSize, StorageSize, WorkSizeI members"),("objects reused across candidates and iterations","*_extended.cpp, *_modelset.cpp, *_simulation.cpp")])

p("P11","Running out of memory or failing to start is an error, never a crash or a leak",
"If any memory request fails during a library operation, the operation ends with an error that its caller can handle (a search may instead count the affected candidate as failed): the process is not ended, no wrong result is returned as good, nothing is leaked, and repeating the operation with memory available gives the usual result.",
["fault_sequences","crash_points"],
"a failure of every single allocation (and of bursts) in searches (sequential and parallel), estimations, simulations, serialisation and data preparation",
"Tests never make an allocation fail.",
["src/ldt_statistics/modeling/search/modelset.cpp","include/matrix.h","src/matrix/vmatrix.cpp","src/ldt_statistics/modeling"],
[("allocation in the parallel region","modelset.cpp: ModelSet::Start"),("owning containers","matrix.h: VMatrix, Dataset; *_modelset.cpp: Searchers")])

p("P12","A failing numerical-library routine is reported, never used as a result",
"When an underlying linear-algebra routine reports failure, or an optimiser meets missing or infinite objective values, the operation that needed it reports a failure to its caller or falls back to a documented alternative; it never returns values computed from the failed step as if they were valid. After such a failure the same operation without the fault gives the usual result.",
["fault_sequences","inputs"],
"a failure injected at every call of every factorisation, solve, inversion and eigen/singular-value routine, in every public operation that uses one",
"Well-conditioned test inputs never make these routines fail; each failure branch is untested.",
["src/matrix/matrix_la.cpp","src/matrix/decompositions.cpp","src/ldt_statistics","src/ldt_statistics/modeling"],
[("return codes of the numerical library","matrix_la.cpp: Inv*, Chol*, SVD, QR, Solve*"),("their use in estimators","sur.cpp, varma.cpp, discrete_choice.cpp, pca.cpp, statistics.cpp")])

p("P13","Streaming statistics are independent of arrival order and of how work is split",
"Mean, variance, skewness, excess kurtosis, count and total weight accumulated one value at a time, or by merging accumulators that saw parts of the data in any order and any grouping, equal the weighted population statistics of the whole data. Missing values, zero weights and empty accumulators contribute nothing and never disturb the values of others.",
["schedules","histories","inputs"],
"every data set with every weight pattern (zero, tiny, huge), every split into accumulators, merge tree and arrival order, including empty and single-value parts",
"Tests merge two or three hand-written accumulators; the property quantifies over all merge trees and degenerate parts, which is what the scheduler produces in a parallel search.",
["include/math/statistics/running.h","include/array.h"],
[("single-pass update","array.h: update_single_pass"),("merge","array.h: update_single_pass_combine; running.h: Combine")])

p("P14","Stored text of variables survives storage or is rejected, never a crash",
"A variable written as text (values, name, frequency, fields) and read back is the same variable (values as written, with 16 decimals). Text that was cut short, damaged, duplicated or interleaved on its way through storage either is rejected with the library's error or reads as a well-formed variable; reading never crashes, runs out of bounds, hangs or leaks, and a failed read does not prevent later reads.",
["fault_sequences","crash_points","inputs"],
"every frequency class, name, field set and value list; every torn, short, corrupted or concatenated form of their text",
"Tests round-trip a list of examples and never read damaged text.",
["src/variable/variable.cpp","src/frequency","src/helpers.cpp"],
[("text form","variable.cpp: Variable::ToString, Parse"),("frequency text","f_base.cpp: Frequency::Parse and the class-specific parsers")])

p("P15","A multi-step search resumed from saved steps equals an uninterrupted one",
"A step-wise search that saves its steps to disk and is stopped at any point - process crash, failing, full or torn disk writes, failing step - and started again with the same arguments gives the same final result as one uninterrupted run, and never uses a partly written step. Combining the steps conserves counts: expected, searched and failed models and the per-message failures are the sums over the steps, and the best models and best coefficients are the best over all steps, with all models listed; inclusion weights, averages of distribution functions, extreme bounds and the mean, variance, count and weight of mixtures are those of the models of all steps together, whatever is missing in some of the steps. (For steps that keep all variables; the unfinished selection of variables by numeric counts is out of scope.)",
["crash_points","fault_sequences","histories"],
"a crash before, during and after every disk write of every step; torn, lost and failing writes; any number of restarts; interrupts; a garbage collection at any allocation",
"No test interrupts a step-wise search or damages a saved step.",
["Rpackage/R/steps.R","Rpackage/R/search.R"],
[("saving and resuming steps","steps.R: search.steps"),("merging steps","steps.R: combine.search")],
[("step files","one saved result per step","<stepsSavePre><i>.RData")])

p("P16","Optimisers keep their contract when the objective misbehaves",
"Every optimiser ends within its iteration budget, and reports a minimum value that is the objective's value at the point it returns and no worse than the (admissible) starting point it evaluated, for objectives that return missing or infinite values or throw at arbitrary evaluations. One-dimensional and quasi-Newton searches stay inside the given bounds; the multi-dimensional simplex search treats bounds as a penalty (its minimum is objective plus penalty at the returned point, not worse than at the starting point moved into the bounds). (Newton's method without line search only looks for a root of the gradient and does not promise a lower value.) An optimiser that cannot keep this reports an error; nested or interleaved optimisations never disturb each other.",
["fault_sequences","histories","inputs"],
"every pattern of NaN, infinite and throwing evaluations, bounds, dimensions and starting points; nesting of optimisers inside objectives",
"Tests minimise a few smooth functions; the behaviour after a bad evaluation depends on which one.",
["src/ldt_math/optimization/nelder_mead.cpp","src/ldt_math/optimization/newton.cpp","src/ldt_math/optimization/lmbfgsb.cpp"],
[("simplex search","nelder_mead.cpp: Minimize, Minimize1"),("Newton with line search","newton.cpp: minimize, wolfe_weak"),("bounded quasi-Newton","lmbfgsb.cpp: Minimize00")])

p("P17","The C interface lets no failure escape and tells every caller of exactly its own",
"Every function of the C interface returns to its caller whatever happens inside (bad text, impossible request, no memory at any allocation): nothing is thrown across the interface and the process goes on. Afterwards LDT_GetLastError gives the caller a message if and only if its last call failed, whatever calls other threads make at the same time, and a program of calls has the same results on a thread of its own as it has alone. A frequency handle is owned by its caller: moving or disposing one handle (copies and the results of combinations included) never changes, invalidates or frees another, disposing works even without memory and releases everything, and moving, comparing and writing handles agree with each other. A combination of two variables returns the values of both, aligned by their dates, and reports their largest difference.",
["schedules","fault_sequences","histories"],
"every program of calls with every class of frequency (lists included), on one or several threads, in every interleaving, with an allocation failure at every allocation",
"The tests call each function once, from one thread, with memory; none of them copies and disposes list frequencies, nor runs two callers.",
["include/api.h","src/api.cpp","src/frequency","src/variable/variable.cpp"],
[("error reporting","api.h: API_BEGIN, API_END, LDT_GetLastError"),("ownership of handles","api.cpp: LDT_FrequencyCreate, LDT_FrequencyCopy, LDT_VariableCombine, LDT_DisposeFrequency")],
[("last error","message of the last call of a thread","api.h: LastErrorMsg")])

p("P18","What an R call returns depends on its arguments only, whatever happens meanwhile",
"Every estimation and statistics function of the R package (estim.sur, estim.bin, estim.varma, s.roc, s.pca, s.distance, clustering, generalized lambda distribution, combination of statistics, weights of metrics) returns for given arguments what the library calculates for them: the same when the collector runs at any moment inside the call, when it is repeated, when other calls were made before it, and whether numbers are given as integers or as doubles. It never changes an argument of the caller. Without memory it either raises an R error or returns the undisturbed result (iterations of a simulation may be missing); no failure inside - of memory, of a library routine, a warning turned into an error - breaks the session or changes later calls.",
["schedules","fault_sequences","histories"],
"every call with every mix of options and argument types, a garbage collection at every allocation inside it, an allocation or routine failing at any point, any sequence of calls",
"The R tests make each call once with double arguments and without a collection, and never look at the arguments afterwards.",
["Rpackage/src","Rpackage/R"],
[("arguments in R memory","r_ldt.cpp: UpdateRocOptions, UpdateSearchData; r_dc.cpp: getCostMatrices; r_sur.cpp: EstimSur; r_clustering.cpp: ClusterH"),("results","r_statistics.cpp, r_dc.cpp, r_sur.cpp, r_varma.cpp: List::create")],
[("arguments","numbers owned by the caller","SEXP arguments of the entry points")])

p("P20","Frequency arithmetic is an exact, order-preserving calendar",
"For every frequency, moving by n steps and measuring the distance between two dates are inverse to each other, ordering agrees with distance, and text and class text round-trip.",
["inputs"],"all frequencies and step counts","Tests sample dates.",
["src/frequency"],[("arithmetic","f_*.cpp: Next, Minus, CompareTo")])
p("P21","Matrix and vector operations equal their mathematical definition",
"Products, factorisations, inverses, rearrangements, statistics by row and column equal their definition for all shapes and values.",
["inputs"],"all shapes and values","Tests sample small matrices.",
["src/matrix","include/matrix.h"],[("operations","matrix.cpp, matrix_la.cpp")])
p("P22","Distribution functions, quantiles and densities are mutually consistent",
"Density, distribution function, quantile and moments of every supported distribution agree with each other and with the theoretical values over their whole domain.",
["inputs"],"all parameters and arguments","Tests sample points.",
["src/ldt_statistics/distributions"],[("distributions","distributions_uni.cpp, distribution_gld.cpp")])
p("P23","Estimators equal their textbook formulas on complete data",
"SUR, VARMA and discrete-choice coefficients, covariances, fit measures and forecasts equal their defining formulas for every admissible data set.",
["inputs"],"all admissible data sets","Tests compare a few data sets with other software.",
["src/ldt_statistics/modeling"],[("estimators","sur.cpp, varma.cpp, discrete_choice.cpp")])
p("P24","Clustering, principal components and ranking scores equal their definition",
"Hierarchical clusters, principal components, ROC/AUC and proper scoring rules equal their definitions for every input.",
["inputs"],"all inputs","Tests sample inputs.",
["src/ldt_statistics/clustering","src/ldt_statistics/pca.cpp","src/ldt_statistics/scoring"],[("algorithms","hcluster.cpp, pca.cpp, roc.cpp, scoring.cpp")])
