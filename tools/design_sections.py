
S={}
def s(i,*a): S["C%02d"%i]=a
s(1,"function 1-24, dimension 2-40 (also non-suite dimensions through the bare-problem constructor), instance numbers over several magnitudes (1-15, up to 110, up to 1000, up to 99999), and lists of points: uniform in and out of the box, on the box faces, at and around the optimum on a log scale, along coordinate axes, with repeated and zero coordinates",
 "`lib/bbobref.py`, an independent numpy model of RR-6829 (instance data from the published generator, transformations, raw functions, penalties); relative tolerance derived from the conditioning of each function by evaluating the model at perturbed points, so that rounding differences of refactored code stay quiet",
 "dimensions up to 40 (the suite's range)","the integration tests compare a few hundred stored values for instance 1-15; a change that only bites for other instances, on plateaus, beyond the box or near the optimum passes them")
s(2,"as C01 for bbob-boxed with points inside, on the faces (one ulp in and out) and outside the box in one or all coordinates",
 "the model with the box-wide optimum; outside the box the only accepted value is +infinity",
 "suite dimensions 2-40","exact-boundary behaviour and every instance")
s(3,"function, dimension 20-640, instance, points as in C01",
 "`lib/lsref.py`: independent block-diagonal orthogonal matrices, truncated uniform swap permutations, normalised functions",
 "dimensions 320/640 get fewer points in the quick tier (a model matrix costs O(n·block^2))","the stored test values cover few instances and only low dimensions")
s(4,"histories over several noisy problems at once: evaluations (repeats, batches up to thousands of draws), resets of the noise seeds, new processes, observed runs",
 "`lib/noisymodel.py` predicts every single value: noise-free reference value, the declared noise model, the common draw stream and the penalty; observed runs: the log must hold noise-free values",
 "histories up to a few thousand draws (the streams of 30 functions share two seeds)","a draw too many or too few shows only in the history after it")
s(5,"single- and bi-objective mixint problems, points on, between and beyond grid levels (just above/below half-levels), real and integer coordinates",
 "`lib/mixref.py`: level grid, clipping, rounding; the value must equal the model's value of the continuous function at the grid point; the optimum must be on the grid with the same value",
 "suite dimensions 5-160","rounding at half levels, clipping per variable and all level counts")
s(6,"bbob-biobj, -ext and -mixint functions, dimensions, instances 1-15 and the arbitrary larger ones, points around either optimum",
 "independent pairing table + bbob/mixint models for both objectives; ideal and nadir from the models; for instances without a predefined pair the instance search is re-done in the model (cases within rounding of a decision threshold are counted as undecided)",
 "dimension up to 40","the pairing has 92 functions x 15 instances plus the generated ones")
s(7,"constrained problems (both suites), interleaved objective and constraint evaluations, feasible/infeasible/boundary points obtained along rays from the optimum and the initial solution",
 "`lib/consref.py` (independent construction of constraints, gradients, shifts and transformations); search for feasible points below the optimum; evaluating constraints must not change objective results and counters",
 "dimensions up to 40","number of active constraints, feasibility of the start and optimality over all functions and instances")
s(8,"every suite with known optimum: random walks, evolution-strategy steps toward the optimum, points at log-scaled distance, with observers added and removed in the middle and the optimum retrieved before/after",
 "the library's own advertised optimum, with rounding allowance from the model; indicator raised exactly when best feasible value - optimum is within the target precision; tainting must survive stacking",
 "search depth about 60-100 points per case; a minimum that is only beaten in a set of tiny measure can be missed","needs search in the neighbourhood of the optimum of every function and instance")
s(9,"interleaved histories over several suites and problems: open, evaluate, constrain, recommend, observe, free; the same queries on fresh problems in another process",
 "bitwise equality with the fresh process; guard zones around result arrays; bitwise equality of the caller's point before and after",
 "up to 4 open problems, 30 operations","shared static caches and scratch buffers only show in particular orders")
s(10,"histories over several problems with finite, infinite, NaN, mixed and huge points, observers added/removed, recommendations",
 "reference counters and running minimum of feasible values; +inf/NaN rule",
 "60 operations per case; overflow points are run apart because of the recorded finding","order of feasible/infeasible and counted/uncounted operations")
s(11,"option strings for every suite: years, instance lists and ranges, dimensions, dimension/function/instance indices, combinations, conflicts, duplicates, out-of-range, reversed ranges",
 "reference model of the selection language giving the exact expected sequence of (function, dimension, instance); iteration, index access, triple access, encode/decode, next_problem_info all compared; identifiers unique",
 "whole selection if at most 40 (quick)/200 problems, otherwise prefix plus probes","combinatorial option space")
s(12,"any problem of any suite, by iteration, index or triple",
 "table of suite definitions (identifiers, names, types, numbers of variables/objectives/constraints/integers, bounds, ROI), initial solution legal and stable",
 "dimension as in the suites","all of the about 10^5 (function, dimension, instance) combinations")
s(13,"one history executed with and without observers: every observer type, generated options, observers added and removed in the middle, stacked up to three, restarts, recommendations",
 "metamorphic: bitwise the same results, counters, best value, indicator, descriptors at every step",
 "recommendations through stacked observers are a recorded finding","needs the product of observers, options and histories")
s(14,"observed runs in bbob-style observers with generated options (targets, triggers, precisions, bases), several problems per experiment, points steering the precision through many targets, equal values, infeasible points, restarts, observers added mid-run",
 "`lib/bboblog.py`: complete model of .dat/.tdat/.info from the recorded history (which evaluation triggers which line, and every field)",
 "runs up to some thousand evaluations","the tests only check that files exist and some last lines")
s(15,"as C14 with restarts and recommendations (improving, equal, worse, same targets, before the first evaluation)",
 "model of .rdat/.mdat; the problem's counters and best value before and after must be the same",
 "as C14","order of signals and evaluations")
s(16,"bi-objective observed runs, options for archives, indicators, precision, triggers; points around the front, duplicates, dominated, beyond the nadir",
 "`lib/biobjlog.py`: brute-force archive and hypervolume (sorted sweep in extended precision), distance extension, triggers, archive files",
 "archives of up to some hundred points","the indicator is incremental in the code; errors accumulate only in particular insertion orders")
s(17,"sequences of additions (ties, duplicates, dominated chains, extreme points, integer coordinates), interleaved queries of number, hypervolume and iteration, several archives",
 "brute-force non-dominated set with exact rational arithmetic; permutation of the additions must give the same set",
 "up to 300 additions","incremental update with removal of chains")
s(18,"existing folder trees (names taken, files in the way, trailing and double separators, long names, -0001 suffixes with gaps), several observers and processes racing for one name, run orders revisiting functions and dimensions",
 "no byte of an existing file may change; folder name must follow the rule; records of all runs present exactly once in the right files",
 "up to 8 racing processes","the file system state space; races")
s(19,"observed histories of every observer with output",
 "every operation boundary is a crash point: the bytes on disk there must equal what a flush of all streams would show, line by line; one boundary per history is also exercised by really killing the process",
 "all boundaries of each history (fault enumeration), histories up to 60 operations","buffers hide lost lines unless the process dies")
s(20,"observed runs of rw (all option values), toy and legacy observers, several experiments in one process, more than six dimensions",
 "independent models of the three formats",
 "legacy observer: noise-free problems in suite order (its documented use)","not covered by any test beyond existence")
s(21,"legal scripts of API calls for `csrc/driver.c` (suites, observers, archives, random states, bare problems; every order of freeing that is documented as legal)",
 "AddressSanitizer + UBSan, MemorySanitizer (uninitialised reads) and an allocation/open-file counter, the scripts rotate over the three builds",
 "scripts of 10-80 operations","only rare orders free twice or read stale data")
s(22,"texts: raw byte noise, token soup, well-formed options with hostile but legal values (percent signs, quotes, very long values, numbers at and beyond their range), keys inside words and quotes, unknown keys",
 "sanitized process must return or stop with the library's error; well-formed text must act as the models of C11/C14/C16/C20 say; exact set of unknown keys in the warning",
 "texts up to some thousand characters; lists up to 999 numbers (documented limit)","the input space is text")
s(23,"interleaved states with adversarial seeds (0, 1, powers of two, inverted ones), long and short sequences, normal and uniform mixed",
 "`lib/rngmodel.py`, bit for bit for uniform and within 1e-12 for normal draws; range [0, 1), finiteness; seeds are inverted so that extreme state words stand at chosen places",
 "up to some thousand draws per state, several refills","period and lag errors show only after many draws")
s(24,"sequences of Python calls (suites, filters, ids, indices, problems, observers, arrays of all kinds, lists, tuples, wrong sizes, freed objects, bare problems with batches, log levels)",
 "the same sequence made with the C library in another process; arguments compared before/after; exceptions exactly where expected",
 "extension compiled with ASan; numpy arrays up to 2-d","binding defects are in types, lifetimes and sizes")
s(25,"sequences of Java calls through the shipped classes",
 "mirrored C calls; exceptions for wrong lengths and null","shipped classes and the JNI library built from the tree; one virtual machine per sequence","as C24")
s(26,"batches, trials, settings files, option dicts, command lines, budgets, problems for random search",
 "small reference models written from the docstrings","pure helpers in-process, those that need the extension in a worker in a scratch folder","documented contracts over all inputs")
s(27,"C API histories run at all four levels; folder trees with links, locked folders, odd names",
 "metamorphic over levels (results, files and status equal; messages filtered); model of the tree after removal",
 "removal runs as user nobody in a scratch folder that is created for it","combination of level, message kind and stream; destructive code outside the tree")
s(28,"sequences of interface calls with rows/columns, wrong classes and sizes, wrong counts, mixed-case names, long messages",
 "mirrored C calls","the .c gateway is compiled with ASan against a stand-in of the MEX interface (`csrc/mexstub`); neither MATLAB nor Octave is installed; the .m files are interpreted for their gateway call","as C24")
s(29,"sequences of calls of the crate's types","mirrored C calls",
 "the crate's sources are compiled with rustc; bindgen is not available, so the declarations are translated from wrapper.h by our own build step; leaks are not checked","as C24")

