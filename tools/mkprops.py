#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list can be edited comfortably)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe_at=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "where": files[0]}]
    if observe_at: a["observe_at"] = [observe_at]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "bbob function values equal their published definition",
    "Every problem of the bbob suite (24 functions, any dimension from 2 to 40, any instance) returns, at every finite point, the value that the published BBOB definition gives for it: same pseudo-random instance data (optimum location, rotations, optimal value), same transformations, same raw function, same boundary penalty, up to floating-point rounding. Published results can therefore be compared across releases, platforms and languages.",
    ["inputs", "configurations"], "every function, dimension 2..40, instance >= 1, and every finite point inside or outside the region of interest",
    "The repository's table of reference values is absent and, even when present, samples a few dozen points of a few instances; a wrong exponent, seed or branch shows only at particular points, dimensions or instances.",
    ["src/suite_bbob.c", "src/suite_bbob_legacy_code.c", "src/f_*.c", "src/transform_vars_*.c", "src/transform_obj_*.c"],
    [("problem construction", "src/suite_bbob.c:coco_get_bbob_problem"), ("instance data generator", "src/suite_bbob_legacy_code.c"), ("evaluation chain", "src/coco_problem.c:coco_evaluate_function")],
    "values returned by coco_evaluate_function")
add("C02", "bbob-boxed: box-wide optima, infinite value outside the box",
    "Problems of the bbob-boxed suite use the same definitions as bbob but with the optimum drawn from the whole box (for the functions that draw it), and return the defined value at every point of the box, boundary included. At every point with at least one coordinate outside the box they return infinity, and never a finite value.",
    ["inputs", "configurations"], "every function, dimension and instance of the suite, every finite point, including points exactly on and just beyond the boundary",
    "Tests do not evaluate this suite against any reference; the boundary behaviour depends on every coordinate.",
    ["src/suite_sbox_cost.c", "src/transform_vars_enforce_box.c", "src/suite_bbob_legacy_code.c"],
    [("box enforcement", "src/transform_vars_enforce_box.c"), ("box-wide optimum", "src/suite_bbob_legacy_code.c:sbox_cost_compute_xopt")],
    "values returned by coco_evaluate_function")
add("C03", "bbob-largescale values equal their published definition",
    "Every problem of the bbob-largescale suite returns at every finite point the value of its published definition: block-diagonal orthogonal matrices and truncated uniform swap permutations generated from the instance seed, applied in the published order, with the published normalisation by dimension and penalties.",
    ["inputs", "configurations"], "all 24 functions, all dimensions offered (20..640), any instance, every finite point",
    "The integration tests only check that evaluation does not crash at a few points; no reference values exist in the tree.",
    ["src/suite_largescale.c", "src/transform_vars_blockrotation.c", "src/transform_vars_blockrotation_helpers.c", "src/transform_vars_permutation.c", "src/transform_vars_permutation_helpers.c", "src/f_*_generalized.c"],
    [("block rotations", "src/transform_vars_blockrotation_helpers.c"), ("permutations", "src/transform_vars_permutation_helpers.c"), ("normalisation", "src/transform_obj_norm_by_dim.c")],
    "values returned by coco_evaluate_function")
add("C04", "bbob-noisy: defined noise on the defined noise-free value, reproducible",
    "A bbob-noisy evaluation returns the noise-free benchmark value perturbed by exactly the declared noise model (Gaussian, uniform or Cauchy, with the declared parameters) plus the boundary penalty, where the noise draws are a fixed deterministic sequence that every evaluation advances by the model's number of draws. Running the same sequence of evaluations from a fresh process or after resetting the noise seeds reproduces the same values, and performance logging uses the noise-free value.",
    ["inputs", "configurations", "histories"], "every function 101..130, dimension, instance, point, and every interleaving of evaluations over several noisy problems with seed resets",
    "Noise makes single-value assertions meaningless unless the whole draw sequence is modelled; tests only check that something is returned.",
    ["src/suite_bbob_noisy.c", "src/suite_bbob_noisy_utilities.c", "src/transform_obj_gaussian_noise.c", "src/transform_obj_uniform_noise.c", "src/transform_obj_cauchy_noise.c"],
    [("noise draws", "src/suite_bbob_noisy_utilities.c"), ("noise models", "src/transform_obj_*_noise.c")],
    "values returned by coco_evaluate_function; logged noise-free values", "process-wide noise seeds")
add("C05", "Mixed-integer problems: declared integer grid, optimum preserved",
    "In the mixed-integer suites (single- and bi-objective) the leading variables are integers with the declared numbers of levels and bounds; the value at any point equals the value at the point whose integer variables are rounded to the nearest level and clipped to the bounds, and equals the scaled and shifted continuous function at the corresponding grid point. The optimum of the underlying continuous function lies on the grid and keeps its value.",
    ["inputs", "configurations"], "every function, dimension, instance of bbob-mixint and bbob-biobj-mixint, and every finite point including half-way points and points outside the bounds",
    "The discretisation couples levels, bounds, offsets and per-function scaling; tests check only that problems can be created and evaluated.",
    ["src/suite_bbob_mixint.c", "src/suite_biobj_mixint.c", "src/transform_vars_discretize.c", "src/transform_obj_scale.c"],
    [("discretisation", "src/transform_vars_discretize.c"), ("suite parameters", "src/suite_bbob_mixint.c")],
    "values returned by coco_evaluate_function, bounds and integer counts")
add("C06", "Bi-objective problems pair the defined single-objective problems",
    "Each problem of the bi-objective suites (bbob-biobj, bbob-biobj-ext and the mixed-integer one) returns as its two objectives exactly the values of the two single-objective benchmark problems that the suite definition assigns to its function number and instance. The reported reference (nadir) point is the componentwise worst of the two optima's objective vectors, it lies strictly above the ideal point, and no point has an objective value below the ideal one.",
    ["inputs", "configurations"], "every function (55 / 92), dimension and instance (including those outside the pre-computed instance table), every finite point",
    "The assignment of functions and instances is computed at run time, with a search for compatible instances for most instance numbers; tests exercise a handful.",
    ["src/suite_biobj.c", "src/suite_biobj_ext.c", "src/suite_biobj_mixint.c", "src/suite_biobj_utilities.c", "src/coco_problem.c", "src/mo_utilities.c"],
    [("instance pairing", "src/suite_biobj_utilities.c"), ("stacked problem", "src/coco_problem.c:coco_problem_stacked_allocate")],
    "values returned by coco_evaluate_function; reference point accessors")
add("C07", "Constrained problems: linear constraints, feasible start, known optimum",
    "Every constrained problem reports the constraint values of its definition (the declared number of constraints, of which the declared ones are active, linear before the non-linear transformations), its initial solution is strictly feasible and in the region of interest, and its optimum is feasible with the reported best value. No feasible point has an objective value below the reported best value, and constraint evaluation does not disturb objective evaluation or vice versa.",
    ["inputs", "configurations"], "all functions, dimensions and instances of the bbob-constrained suite, every finite point, weighted towards points near the optimum and the constraint boundaries",
    "The location of the optimum is produced by construction (constraint gradients, KKT scaling); a defect moves the feasible set in only some functions or dimensions and leaves the sampled tests passing.",
    ["src/suite_cons_bbob.c", "src/suite_cons_bbob_problems.c", "src/c_linear.c", "src/transform_vars_asymmetric.c", "src/transform_vars_oscillate.c", "src/brentq.c"],
    [("constraint construction", "src/c_linear.c"), ("problem assembly", "src/suite_cons_bbob_problems.c")],
    "coco_evaluate_function, coco_evaluate_constraint, initial solution, best value")
add("C08", "The advertised optimum is attained and is never beaten",
    "For every problem with a known optimum, evaluating at the advertised best parameters gives the advertised best value (within rounding), the best parameters lie in the region of interest, and no admissible (feasible) point evaluates below the advertised best value by more than rounding. The final target value is the best value plus the target precision, and the final-target indicator is raised exactly when an evaluated value came within the target precision of the best value. Retrieving the best parameters marks the problem, observed or not, and adding an observer keeps the mark; a marked problem can no longer be evaluated under a bbob-style observer.",
    ["inputs", "configurations", "histories"], "every problem of the single-objective suites, points drawn globally and in shrinking neighbourhoods of the optimum, and every order of evaluation",
    "A slightly wrong optimum is visible only very near it, in some function, dimension and instance combinations.",
    ["src/coco_problem.c", "src/f_*.c", "src/transform_vars_*.c", "src/suite_*.c"],
    [("best value bookkeeping", "src/coco_problem.c:coco_problem_allocate / transformed"), ("target test", "src/coco_problem.c:coco_problem_final_target_hit")],
    "best value, best parameter, values, final target indicator")
add("C09", "Evaluation is a pure function of the point, independent of history",
    "For every noise-free problem, the objective and constraint values at a point are bit-for-bit the same whatever was evaluated before, on this problem or any other one, in whatever order problems and suites were created, freed or observed, and in a different process. Evaluation never modifies the caller's point and never writes outside the result array.",
    ["inputs", "histories", "configurations"], "every problem, and every interleaving of creation, evaluation, constraint evaluation, observation and freeing over several problems",
    "Hidden state (scratch buffers, statics, shared caches) shows only under particular interleavings.",
    ["src/coco_problem.c", "src/f_*.c", "src/transform_*.c", "src/coco_suite.c"],
    [("evaluation", "src/coco_problem.c:coco_evaluate_function"), ("scratch buffers", "src/transform_vars_*.c data structures")],
    "returned values compared bit-wise", "scratch vectors held by problem objects")
add("C10", "Evaluation accounting and non-finite inputs",
    "The evaluation counters of a problem equal the number of counted objective and constraint evaluations made so far; the best observed value is the best (feasible) value returned so far. A point with an infinite coordinate yields positive infinity, and any other point with a NaN coordinate yields NaN, in every output, and neither is counted.",
    ["inputs", "histories"], "every sequence of objective and constraint evaluations mixing finite, infinite and NaN coordinates, on every kind of problem",
    "Accounting is history dependent; tests check one or two calls.",
    ["src/coco_problem.c"],
    [("counters", "src/coco_problem.c:coco_evaluate_function, coco_evaluate_constraint"), ("best observed", "src/coco_problem.c:coco_problem_get_best_observed_fvalue1")],
    "coco_problem_get_evaluations*, coco_problem_get_best_observed_fvalue1, outputs", "per-problem counters")
add("C11", "A suite enumerates exactly the selected problems, each once, in order",
    "For any combination of suite, instance specification (year or explicit list) and filter options (dimensions, dimension indices, function indices, instance indices), iterating over the suite yields exactly the selected function/dimension/instance triples, each exactly once, instances fastest, then functions, then dimensions. Access by index and by (function, dimension, instance) returns the same problem, encoding and decoding an index are inverse to each other, indices of unselected problems and indices beyond the suite yield no problem, and (outside the toy suite) problem identifiers are unique whenever the selected instances are distinct.",
    ["inputs", "configurations"], "every suite and every well-formed instance/options string, including ranges, open ranges, mixed lists and redundant or out-of-range items",
    "The selection language has unboundedly many inputs; tests fix a few option strings.",
    ["src/coco_suite.c", "src/coco_string.c", "src/coco_utilities.c"],
    [("filtering", "src/coco_suite.c:coco_suite_filter_*"), ("ranges", "src/coco_string.c:coco_string_parse_ranges"), ("iteration", "src/coco_suite.c:coco_suite_get_next_problem")],
    "coco_suite_get_next_problem, coco_suite_get_problem*, coco_suite_encode/decode_problem_index", "suite cursor")
add("C12", "Problem descriptors agree with the problem delivered",
    "Every problem's identifier, name, type, dimension, numbers of objectives, constraints and integer variables, bounds and region-of-interest limits agree with the suite definition and with the (function, dimension, instance) it was requested by. Its initial solution lies within the bounds, has integer values in the integer variables, and is the same on every call.",
    ["inputs", "configurations"], "every problem of every suite for any instance number",
    "Descriptors are assembled from templates and nested problem layers separately from the function itself; tests look at a few problems.",
    ["src/coco_problem.c", "src/suite_*.c"],
    [("accessors", "src/coco_problem.c"), ("initial solution", "src/coco_problem.c:coco_problem_get_initial_solution")],
    "problem accessors")
add("C13", "Observing a problem does not change what the optimiser sees",
    "Adding any observer, with any valid options, to any problem it supports changes neither the objective and constraint values, nor counters, best observed value, final-target indicator, initial solution or descriptors; this stays true through restarts, recommendations, removal of the observer and stacking of observers. Removing the outermost observer gives back exactly the problem it was added to; removing any other observer is refused with an error.",
    ["inputs", "histories", "configurations"], "every observer/suite pair, every valid option string, every sequence of evaluations, constraint evaluations, restarts and recommendations",
    "Loggers wrap the problem and re-evaluate constraints and recommendations internally; interference is history dependent.",
    ["src/coco_observer.c", "src/logger_bbob.c", "src/logger_bbob_old.c", "src/logger_biobj.c", "src/logger_rw.c", "src/logger_toy.c", "src/coco_problem.c"],
    [("wrapping", "src/coco_problem.c:coco_problem_transformed_allocate"), ("loggers", "src/logger_*.c")],
    "values and accessors of observed versus unobserved problems")
add("C14", "bbob performance data files record the run exactly",
    "For every run observed with a bbob-style observer, the target-triggered data file contains a line for the first evaluation, for exactly those improving evaluations that newly reach a target of the configured target set, and for the final state; the evaluation-triggered file contains a line at exactly the configured evaluation numbers and for the final state. Each line carries the true evaluation counts, best and current values relative to the optimum, and (where the format includes it) the point; the index file lists every run with its instance, evaluation count and final precision.",
    ["inputs", "histories", "configurations"], "every sequence of evaluations (including infeasible, infinite and repeated values) on every single-objective suite, and every valid setting of the trigger and precision options",
    "The trigger state machine depends on the whole sequence of values; tests compare no file contents.",
    ["src/logger_bbob.c", "src/observer_bbob.c", "src/coco_observer.c"],
    [("target triggers", "src/coco_observer.c:coco_observer_targets_trigger"), ("evaluation triggers", "src/coco_observer.c:coco_observer_evaluations_trigger"), ("output", "src/logger_bbob.c:logger_bbob_output")],
    "files in the result folder", "trigger state, best-so-far value")
add("C15", "Restart and recommendation logs record exactly what was signalled",
    "With a bbob-style observer, the restart file holds one line for the first evaluation after each signalled restart, and the recommendation file holds a line for exactly those recommendations that improve on all previous ones and newly reach a configured target, with the evaluation count at that time, plus the final state. Recommending a solution is free: it changes no counter and no best observed value of the observed problem.",
    ["inputs", "histories"], "every interleaving of evaluations, restarts and recommendations",
    "These logs depend on interleavings; no test reads these files.",
    ["src/logger_bbob.c", "src/coco_problem.c", "src/coco_observer.c"],
    [("recommendation", "src/logger_bbob.c:logger_bbob_recommend"), ("restart", "src/logger_bbob.c:logger_bbob_signal_restart")],
    "restart and recommendation files", "restart flag, best recommended value")
add("C16", "Bi-objective logs record the exact archive and hypervolume indicator",
    "For every sequence of evaluations of a bi-objective problem, the logged indicator value equals the reference value minus the hypervolume (normalised by ideal and nadir point) of all points evaluated so far, with the published distance-based extension while no point dominates the nadir point. The target- and evaluation-triggered lines appear exactly when the configured targets and evaluation numbers are reached, and the logged archive is exactly the set of points that were non-dominated when evaluated (or at the end, as configured).",
    ["inputs", "histories", "configurations"], "every sequence of points, including duplicates, dominated points and points outside the reference region, and every logging mode",
    "The indicator is maintained incrementally in a balanced tree; errors depend on insertion order and ties.",
    ["src/logger_biobj.c", "src/observer_biobj.c", "src/mo_utilities.c", "src/mo_avl_tree.c"],
    [("archive update", "src/logger_biobj.c:logger_biobj_tree_update"), ("indicator", "src/logger_biobj.c:logger_biobj_indicator_*"), ("tree", "src/mo_avl_tree.c")],
    "indicator and archive files in the result folder", "non-dominated archive, incremental hypervolume")
add("C17", "The archive holds the non-dominated set and its hypervolume",
    "After any sequence of additions, an archive holds exactly the mutually non-dominated objective vectors among those added (the two extreme solutions included), reports their number and exact normalised hypervolume with respect to the extremes, and iterates over them once each, extremes first. The result does not depend on the order of additions, and an addition reports acceptance exactly when the vector enters the set.",
    ["inputs", "histories"], "every sequence of additions and queries, with ties, duplicates, dominated vectors and vectors beyond the extremes",
    "Incremental maintenance in a balanced tree; correctness is a statement about all histories.",
    ["src/coco_archive.c", "src/mo_avl_tree.c", "src/mo_utilities.c"],
    [("archive", "src/coco_archive.c"), ("tree", "src/mo_avl_tree.c")],
    "coco_archive_* results", "balanced tree of non-dominated solutions")
add("C18", "Results are kept: fresh result folders, one consistent record per run",
    "Creating an observer never writes into a result folder that already exists: it chooses a new folder name derived from the requested one, creating parent folders as needed, so that no earlier data is modified. Within one experiment the records of all problems, in any order of functions, dimensions and instances, are all present: data files are appended per function and dimension, and the index files list each run exactly once under the right header and file name.",
    ["histories", "configurations", "inputs"], "every sequence of experiments on the same requested folder and every order of observed problems within an experiment",
    "Depends on file-system history and on the order in which problems are visited; tests use one order.",
    ["src/coco_utilities.c", "src/coco_observer.c", "src/logger_bbob.c", "src/logger_biobj.c"],
    [("unique folder", "src/coco_utilities.c:coco_create_unique_directory"), ("index file", "src/logger_bbob.c:logger_bbob_openIndexFile / initialize")],
    "directory tree after the run")
add("C19", "Logged performance data survive a crash of the experiment",
    "If the process dies at any point between two evaluations, the data lines of every evaluation that had triggered output before are already completely on disk: the data files on disk are a prefix-complete record of the run so far, with no torn or missing lines.",
    ["crash_points", "histories"], "every evaluation index at which the process is killed, for the bbob-style, real-world and toy observers and the bi-objective archive file",
    "Tests never kill the process.",
    ["src/logger_bbob.c", "src/logger_rw.c", "src/logger_toy.c", "src/logger_biobj.c"],
    [("flush after every line", "src/logger_bbob.c:logger_bbob_output, src/logger_rw.c, src/logger_toy.c, src/logger_biobj.c")],
    "files on disk after SIGKILL", "stdio buffers")
add("C20", "Real-world, toy and legacy observers log the run faithfully",
    "The rw observer writes one line per evaluation (or per improving evaluation when so configured) with the true counters, objective values and, as configured, variables and constraints at the configured precision; the toy observer writes a line exactly when a new target is reached; the legacy bbob observer, on noise-free problems observed in suite order, writes its data files under the logarithmic target and the evaluation triggers with the true values.",
    ["inputs", "histories", "configurations"], "every evaluation sequence on every supported problem and every valid option setting",
    "No test reads these files.",
    ["src/logger_rw.c", "src/observer_rw.c", "src/logger_toy.c", "src/observer_toy.c", "src/logger_bbob_old.c"],
    [("rw logger", "src/logger_rw.c"), ("toy logger", "src/logger_toy.c"), ("legacy logger", "src/logger_bbob_old.c")],
    "files in the result folder")
add("C21", "No memory error or leak in any legal sequence of API calls",
    "Any legal sequence of library calls (creating suites, observers, archives and random states, getting, observing, evaluating, constraining, recommending, restarting, freeing problems in any permitted order, including freeing the observer before the problem) performs no out-of-bounds or uninitialised access, no undefined arithmetic, no double free and leaks neither memory nor open files once everything has been freed.",
    ["histories", "inputs", "configurations"], "every legal call sequence on every suite and observer",
    "Tests run without sanitizers and on fixed sequences.",
    ["src/coco_problem.c", "src/coco_suite.c", "src/coco_observer.c", "src/coco_archive.c", "src/logger_*.c", "src/suite_*.c"],
    [("ownership", "src/coco_problem.c:coco_problem_free, coco_problem_transformed_free"), ("suite ownership", "src/coco_suite.c:coco_suite_free")],
    "sanitizer reports")
add("C22", "Any option string is handled safely and as documented",
    "Whatever text is given as suite, instance or observer options, the call returns or stops with a COCO error message and failure status; it never corrupts memory, crashes or hangs, and text, whatever characters it contains, is treated as data. A key takes effect exactly where it stands as a key (not inside a word, another key or a quoted text); its well-formed value is used exactly as written, independent of the order and spacing of the items; a number outside the allowed range of its option leaves the default; the keys reported as unknown and ignored are exactly the keys given that do not exist.",
    ["inputs"], "all strings (arbitrary bytes, over-long values, repeated keys, quotes, format directives), with structured generation around the option grammar",
    "The input space is all strings; tests use a few well-formed ones.",
    ["src/coco_string.c", "src/coco_utilities.c", "src/coco_suite.c", "src/coco_observer.c", "src/observer_*.c"],
    [("option reading", "src/coco_utilities.c:coco_options_read*"), ("key validation", "src/coco_utilities.c:coco_option_keys"), ("formatting", "src/coco_string.c:coco_vstrdupf")],
    "exit status, sanitizer reports, resulting configuration")
add("C23", "Pseudo-random numbers: reproducible, in range, defined generator",
    "A random state created with a seed yields a sequence that depends only on that seed, equals the documented lagged-Fibonacci generator, and is independent of other states; uniform draws lie in [0, 1) and normal draws are finite and follow the standard normal distribution. Distinct seeds give distinct sequences.",
    ["inputs", "histories"], "every 32-bit seed, every interleaving of uniform and normal draws on several states",
    "Tests compare a few draws of one seed.",
    ["src/coco_random.c"],
    [("generator", "src/coco_random.c:coco_random_uniform"), ("normal draws", "src/coco_random.c:coco_random_normal")],
    "coco_random_* results", "lagged generator state")
add("C24", "The Python interface behaves as the C library does",
    "Through the Python package, every suite, problem, bare problem and observer gives the same problem lists, identifiers, descriptors, values, constraint values, counters, result folders and log files as the C library with the same arguments, for any accepted array-like argument (which is never modified) and for observer options given as a text or as a dict; returned arrays are the caller's own; arguments of the wrong size or kind, and problems that do not exist, raise a Python exception and leave the state unchanged; using a freed problem, suite or observer raises instead of crashing. Solution proposals lie in the domain and the first one is the initial solution.",
    ["inputs", "histories", "configurations"], "every suite and filter, every sequence of Python calls (iteration, lookup by index, id or triple, evaluation with lists, tuples, arrays of any dtype and layout, wrong sizes, freeing)",
    "Doctests sample a few calls; conversions and lifetimes depend on argument kinds and call order.",
    ["build/python/src/cocoex/interface.pyx", "build/python/src/cocoex/bare_problem.pyx", "build/python/src/cocoex/__init__.py"],
    [("Suite, Problem, Observer", "build/python/src/cocoex/interface.pyx"), ("BareProblem", "build/python/src/cocoex/bare_problem.pyx")],
    "Python results versus C results")
add("C25", "The Java interface behaves as the C library does",
    "Through the Java classes, suites, problems, observers and benchmarks give the same problem sequence, identifiers, descriptors, values, constraint values, counters and log files as the C library with the same arguments; arguments are not modified, and a solution of the wrong length (or null) raises an exception instead of being evaluated.",
    ["inputs", "histories", "configurations"], "every suite and filter, every sequence of Java calls",
    "The Java interface has no tests at all.",
    ["build/java/CocoJNI.c", "build/java/Problem.java", "build/java/Suite.java", "build/java/Observer.java"],
    [("native bridge", "build/java/CocoJNI.c")],
    "Java results versus C results")
add("C26", "Python experiment helpers partition and report faithfully",
    "The experiment helpers of the Python package do what they document: BatchScheduler puts every problem of a sweep into exactly one batch, by order of appearance and the same in every sweep; ExperimentRepeater reports exactly the tracked trials, evaluations and successes, and a problem is repeated until it has enough successes or used its budget; ObserverOptions strings are read by the observer as the given pairs; written settings read back as the same values and never replace an existing file; args_to_dict returns the given values for known names and unique abbreviations and rejects everything else; SameFunction, MiniPrint, ShortInfo, ascetime and about_equal report what occurred; ProblemNonAnytime logs exactly the evaluations beyond those already observed plus new delivered solutions; random_search uses its budget, stays in the bounds and returns the best feasible point it evaluated.",
    ["inputs", "histories"], "every number of batches, every problem selection, every set of option pairs",
    "Tests try a few batch numbers.",
    ["build/python/src/cocoex/utilities.py", "build/python/src/cocoex/__init__.py", "build/python/src/cocoex/solvers.py"],
    [("helpers", "build/python/src/cocoex/utilities.py")],
    "return values")
add("C27", "Verbosity levels only filter messages; folder removal stays inside",
    "The log level only decides which messages appear: at error only fatal errors, at warning also warnings (both on the error stream), at info also information and the progress report (which names each dimension and function and prints one dot per delivered problem), at debug also debug messages; results, files and exit status are the same at every level, setting a level returns the previous one, and unknown level names change nothing. Removing a directory removes exactly that directory with everything in it, never anything outside (symbolic links are removed, not followed), leaves no file open, reports success exactly when the directory is gone, and does nothing when there is none.",
    ["inputs", "histories", "configurations"], "every sequence of library calls at every log level; every directory tree, with hidden files, odd names, links and undeletable entries",
    "Tests set each level once and remove one flat directory.",
    ["src/coco_utilities.c", "src/coco_runtime_c.c", "src/coco_suite.c"],
    [("levels", "src/coco_utilities.c:coco_set_log_level"), ("messages", "src/coco_runtime_c.c"), ("removal", "src/coco_utilities.c:coco_remove_directory"),
     ("progress report", "src/coco_suite.c:coco_suite_get_next_problem")],
    "standard output and error stream, return values, the file system around the directory")
add("C28", "The MATLAB/Octave interface behaves as the C library does",
    "Through the functions of the MATLAB/Octave interface (the .m files and the cocoCall gateway), suites, problems and observers give the same problem sequence, identifiers, names, descriptors, bounds, initial solutions, values, constraint values, counters and log files as the C library with the same arguments; function names are matched regardless of case; arguments are never modified; a wrong number of arguments, or a solution that is not a real double vector of the problem's dimension (row or column), raises an error instead of being evaluated or counted; messages appear through the interface, complete and only at their log level; an unknown function name only gives a warning.",
    ["inputs", "histories", "configurations"], "every suite and filter, every sequence of interface calls with arrays of every class and shape, every log level",
    "The MATLAB interface has no tests at all.",
    ["build/matlab/cocoCall.c", "build/matlab/coco_runtime_matlab.c", "build/matlab/*.m"],
    [("gateway", "build/matlab/cocoCall.c"), ("messages", "build/matlab/coco_runtime_matlab.c")],
    "results of the gateway versus C results, printed text")
add("C29", "The Rust interface behaves as the C library does",
    "Through the Rust crate, every suite and observer name gives the suite or observer it stands for, and suites, cloned suites, problems, observers and random states give the same problem sequence, identifiers, descriptors, bounds, values, constraint values, counters, targets, random numbers, result folders and log files as the C library with the same arguments; a vector of the wrong length panics without being evaluated or counted; a problem that does not exist, the end of the suite and the absent observer give None; dropping a problem completes its log, also when the suite delivered it by iteration.",
    ["inputs", "histories", "configurations"], "every suite name, instance text and filter, every sequence of calls that Rust's borrow rules allow, every vector length",
    "The crate has no tests that run here; its lifetimes and counters depend on call order.",
    ["build/rust/src/suite.rs", "build/rust/src/problem.rs", "build/rust/src/observer.rs", "build/rust/src/random.rs", "build/rust/coco-sys/wrapper.c"],
    [("suite", "build/rust/src/suite.rs"), ("problem", "build/rust/src/problem.rs"), ("observer", "build/rust/src/observer.rs")],
    "results of the crate versus C results")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
