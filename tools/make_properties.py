"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Loading an instance file reproduces its data",
 "For every well-formed instance file (header with items, constraints and scenarios; objective row; one row per scenario and constraint; closing right-hand-side row) the loaded instance reports exactly the file's dimensions, objective, per-scenario constraint rows in file order and right-hand side, rounded to one decimal. All scenarios get the same probability, the probabilities sum to one, the requested risk tolerance is kept, and the variables are all continuous in [0,1] or all binary as requested. Loading one file never changes an instance loaded earlier.",
 ["inputs", "configurations"], "all well-formed instance files (sizes, values with any decimals, extra header fields), both variable types, all risk tolerances",
 "The tests read a handful of fixed files and compare two scenarios of one of them; row/scenario index arithmetic and rounding over all shapes are not reached.",
 ["src/instance/ChanceInstance.py", "src/instance/ChanceKnapInstance.py"],
 [("file parsing and indexing of scenario blocks", "ChanceKnapInstance._parse_*"), ("getters", "ChanceInstance.get_*")],
 ["getters of a loaded instance"])

prop("C02", "Feasibility verdicts match the chance constraint",
 "For every instance and point, a scenario is reported violated exactly when one of its constraints is exceeded by more than the 1e-6 tolerance; its reported infeasibility is the largest excess over the row's Euclidean norm, and zero when satisfied. The point is accepted exactly when the number of violated scenarios is at most the risk tolerance times the number of scenarios (rounding noise in that product aside). The per-scenario results that can be read after a check always belong to the point checked last.",
 ["inputs", "histories"], "all instances, risk tolerances, points (binary, fractional, close to a constraint boundary) and sequences of checks",
 "Four hand-picked points on one instance are tested; tolerance boundaries, ties, multi-constraint violations and risk tolerances whose product with the scenario count is inexact are not.",
 ["src/instance/ChanceKnapInstance.py"],
 [("violation measurement and verdict", "ChanceKnapInstance.is_feasible / check_feasibility"), ("state read by refiners and lower bounder", "infeasible_scenarios, is_scenario_infeasible, get_feasible_scenarios, get_sum_infeasibility")],
 ["is_feasible()", "check_feasibility()", "get_feasible_scenarios()"])

prop("C03", "A partitioned view aggregates exactly its scenarios",
 "After any sequence of partition loads, each subset of the partitioned view exposes exactly the stacked constraint rows, right-hand sides and constraint count of its current scenarios, in the order listed. Subset probabilities are equal and sum to one, and the view's risk tolerance permits exactly as many violated subsets as the instance permits violated scenarios. Loading partitions never changes the underlying instance.",
 ["histories", "inputs"], "all instances, all partitions of their scenarios into at least the minimum number of subsets, all sequences of loads",
 "No unit test loads a partition and looks at the view; integration tests only see the final optimum of two instances.",
 ["src/instance/PartitionChanceKnapInstance.py"],
 [("aggregation by index lists", "load_partition, get_matrix_A, get_vector_b"), ("probability normalisation", "proba_part, epsilon_part")],
 ["getters of the partitioned view"])

prop("C04", "A big-M value never cuts off a feasible point",
 "With any method (naive, pairwise-knapsack quantile, objective-bounded), on plain and on partitioned instances, and after any sequence of updates, every point that satisfies the (partitioned) chance constraint exceeds the right-hand side of a constraint by at most that constraint's current big-M; for the objective-bounded method this is required of points whose objective is at most the given upper bound. A tightened big-M is never larger than the naive one (or than zero, where the naive one is negative).",
 ["inputs", "histories", "configurations"], "all non-negative instances, partitions, update sequences, methods, variable types and upper bounds",
 "Tests only check tightened <= naive on seven files with continuous variables; validity itself is never tested, and an invalid big-M only shows if it happens to cut the optimum of one of two instances.",
 ["src/BigMFinder.py", "src/song_big_m.py", "src/optim/BigMKnapsackModel.py", "violations.h", "violations.pyx"],
 [("naive / Song / Belotti tightening", "BigMFinder.update_big_M, run_song_et_al_big_m, run_belotti_et_al_big_M"), ("quantile over scenarios or subsets", "BigMFinder._quantile_big_m")],
 ["BigMFinder.get_vector_big_M()"])

prop("C05", "Pairwise violations are exact and memory-safe",
 "For every non-negative instance the compiled pairwise-violation routine returns, for each ordered pair of different scenarios and each constraint of the first, the exact minimum over the second's constraints of the largest violation reachable by a fractional point satisfying that constraint; for a scenario paired with itself it returns a value between that exact value and zero. The Python reference agrees, and the result does not depend on the order of items or scenarios. The routine never touches memory outside its arrays and never modifies its inputs.",
 ["inputs"], "all non-negative constraint tensors and right-hand sides (zeros, ties, duplicate items, slack and zero capacities, any item count)",
 "Tests compare the compiled and Python versions with each other on random uniform data; ties in exact decimal data, item counts beyond 12 (where the sort switches algorithm), and both being wrong together are not covered, nor is memory safety.",
 ["violations.h", "violations.pyx", "src/song_big_m.py"],
 [("greedy fractional knapsack in both directions from one sort", "violations.h compute/update"), ("running minimum with early stop", "violations.h update")],
 ["violations.compute_all_violations()", "src.song_big_m.compute_all_violations()"])

prop("C06", "Objective-bounded big-M values are the tightest possible",
 "For every instance, plain or partitioned, and every non-negative upper bound, the objective-bounded big-M of a constraint equals (to solver precision) the largest amount by which a point within the variable bounds, of the required variable type and with objective at most the upper bound, can exceed the constraint's right-hand side. Recomputing with another bound or partition leaves no trace of the previous one.",
 ["inputs", "histories", "configurations"], "all instances, upper bounds, partitions, variable types, sequences of recomputations",
 "Tests call the method once with one bound and compare with the naive value only; exactness and re-use are never checked.",
 ["src/BigMFinder.py", "src/optim/BigMKnapsackModel.py", "src/song_big_m.py"],
 [("greedy continuous knapsack", "song_big_m.solve_continuous_knapsack"), ("MIP with a replaced objective per row", "BigMKnapsackModel.initialize_violation_objective")],
 ["BigMFinder.get_vector_big_M() after run_belotti_et_al_big_M / update_big_M"])

prop("C07", "Subset costs are exact optima of the deterministic problem",
 "The cost reported for a scenario or set of scenarios is the maximum objective over points of the required variable type that satisfy every constraint of all those scenarios, and the returned solution attains it. Costs of lists of scenarios, of all scenarios and of partitions are returned in the order of the input and are the same however they are requested.",
 ["inputs", "configurations"], "all instances, all non-empty scenario subsets, partitions, both variable types",
 "Tests check monotonicity on one continuous instance and lengths of lists; no value is compared with an independent optimum and binary variables are not covered.",
 ["src/Evaluator.py", "src/optim/DeterModel.py", "src/optim/OptiModel.py"],
 [("deterministic model", "DeterModel.build/add"), ("evaluation loops", "Evaluator.subset_cost, scenario_costs, partition_cost")],
 ["Evaluator methods"])

prop("C08", "Editing a deterministic model equals rebuilding it",
 "After any sequence of adding and removing scenarios, a deterministic model solves to the same optimal value as a model freshly built with the scenarios it currently holds. Likewise, the lower-bound step called repeatedly with different points gives at each call the value a fresh instance of it would give with the same current bound.",
 ["histories"], "all sequences of add/remove/solve with single scenarios or lists, and all sequences of lower-bound calls with a non-decreasing current bound",
 "The tests never call remove; the lower bounder is only exercised inside full solves of two or three instances.",
 ["src/optim/DeterModel.py", "src/LowerBounder.py"],
 [("bookkeeping of constraint handles", "DeterModel.add/remove"), ("incremental scenario diff and bound constraint", "LowerBounder._solve_deter_model")],
 ["DeterModel.get_obj_val()", "LowerBounder.deterministic_bound()"])

prop("C09", "Initial partitions are balanced partitions of the scenarios",
 "For every instance, number of subsets from one to the number of scenarios, and strategy, the initial partition has exactly the requested number of non-empty subsets, contains every scenario exactly once, and subset sizes differ by at most one. With the cost strategy the recorded scenario costs are the single-scenario optima in scenario order, and dealing the scenarios in decreasing cost order puts each block of consecutive ranks, one scenario to each subset, in the same subset order.",
 ["inputs", "configurations"], "all instances, subset counts, both strategies, both variable types, all random seeds",
 "Tests use one 10-scenario instance and up to three subsets and compare the result with itself.",
 ["src/Initializer.py", "src/solver/AdaptivePartitioner.py"],
 [("random dealing", "Initializer._random_partition"), ("cost-sorted dealing", "Initializer._single_scenario_cost_partition")],
 ["Initializer.create_first_partition()"])

prop("C10", "Refining a partition excludes the point with minimal splits",
 "Given a partition under which a point violates at most the tolerated number of subsets although it violates too many scenarios, refinement returns a true refinement: every scenario exactly once, no empty subset, every new subset inside one old subset, untouched subsets unchanged and in place, and the input partition not modified. The number of subsets grows by exactly the number needed so that the point now violates one subset more than tolerated. The indices reported as new are exactly those of subsets that changed or were added, and the reported feasible subsets are exactly those with no violated scenario.",
 ["inputs", "histories"], "all instances, partitions and points meeting the precondition, both split strategies, all random seeds, repeated refinement with one refiner",
 "Unit tests call single helper steps on a fixed 10-scenario example; the refinement entry point is only reached on two instances through full solves.",
 ["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py"],
 [("number of splits", "Refiner._find_number_of_splits_to_perform"), ("alternating assignment of violated scenarios", "Refiner._split_scenarios_subset"), ("accurate cost split with memory", "CostRefiner._perform_accurate_split")],
 ["Refiner.refine() and its public result attributes"])

prop("C11", "Merging keeps a partition and its bookkeeping aligned",
 "Merging subsets of a partition yields a partition of the same scenarios in which the selected subsets are united into the one of lowest position and all others are unchanged and in their original order. The reported deleted positions refer to the partition before the merge and, with the reported target, account exactly for the change. When merging satisfied subsets by margin, exactly the requested number plus one of candidates with the largest margins of the point to their tightest constraint are united.",
 ["inputs", "histories"], "all partitions, candidate sets of two or more subsets, points, numbers to merge, repeated merges",
 "Tests merge consecutive pairs/triples of one fixed partition at x=0 and do not check contents, order or margins.",
 ["src/Merger.py", "src/solver/AdaptivePartitioner.py"],
 [("merge and delete", "Merger.merge_all, merge, merge_feasible"), ("margin ranking", "Merger._single_subset_margin")],
 ["Merger.merge_all/merge/merge_feasible results, target_subsets, deleted_subsets"])

prop("C12", "A cost-driven split minimises the worst relaxed cost",
 "For every subset with at least two violated scenarios, the cost-driven split divides its scenarios into two disjoint parts covering it, each with at least one violated scenario, such that the larger of the two parts' relaxed (continuous) deterministic costs is the smallest possible over all such divisions, up to the solver's gap, and equals the reported value. The subset to split is the one whose parts' larger cost is the largest not above the best upper bound, or the smallest if all are above it. Re-using remembered splits over a history of refinements never changes what would be computed afresh.",
 ["inputs", "histories"], "all instances, subsets and violated scenario sets, both variable types, sequences of refinements with one refiner",
 "No unit test touches the split model or its memory; integration tests pass with any valid split.",
 ["src/optim/AccObjModel.py", "src/refiner/CostRefiner.py"],
 [("dual-based bilevel reformulation", "AccObjModel"), ("memory keyed by scenarios and violated scenarios", "CostRefiner._evaluate_single_accurate_split")],
 ["CostRefiner.accurate_obj_split()", "CostRefiner.refine()"])

prop("C13", "The quantile bound is a valid upper bound",
 "The quantile bound computed from single-scenario costs equals the (t+1)-th smallest cost, where t is the tolerated number of violated scenarios, and is never below the true optimum of the chance-constrained problem. The bound used in the first iteration, the largest subset cost of a partition with t+1 subsets, is also never below the true optimum and comes with the solution that attains it.",
 ["inputs", "configurations"], "all cost vectors (ties, any order), scenario counts, risk tolerances and instances, including tolerances that are not multiples of 1/N",
 "The bound has no test of its own; integration tests use risk 0.2 with 10 or 30 scenarios.",
 ["src/UpperBounder.py", "src/solver/AdaptivePartitioner.py"],
 [("cumulative probability over sorted costs", "UpperBounder.ahmed_et_al_bound"), ("maximum subset cost", "UpperBounder.first_iteration_bound")],
 ["ahmed_et_al_bound()", "first_iteration_bound()"])

prop("C14", "Lower bounds always come with a feasible solution",
 "Whenever the lower-bound search returns a solution, that solution violates at most the tolerated number of scenarios and its objective is the returned value. The projection step keeps scenarios in order of increasing violation by the given point (or decreasing number of times satisfied) until their probability reaches one minus the risk, and returns the optimum over them unless it cannot reach the current bound. The candidate search returns the best feasible candidate whose objective improves the lower bound and does not exceed the upper bound, and reports none exactly when there is none.",
 ["inputs", "histories", "configurations"], "all instances, points, candidate lists, bounds, projection methods, sequences of calls",
 "Tests only run the lower bounder inside a full solve of one instance, where a wrong selection still converges.",
 ["src/LowerBounder.py"],
 [("selection of scenarios", "LowerBounder._get_selected_scenarios"), ("candidate filtering", "LowerBounder._find_best_incumbent")],
 ["LowerBounder.deterministic_bound(), incumbent_bound()"])

prop("C15", "Partitioned problems are valid, equivalent relaxations",
 "For every partition into more subsets than the tolerated number, the optimum of the partitioned problem is at least the true optimum, does not increase when the partition is refined, and equals the true optimum when every scenario is alone. The same optimum is obtained with indicator constraints or with any big-M method, with or without lazy constraints, with any warm-start hint, and when subsets whose cost lies below a known lower bound are fixed as violated. The returned solution satisfies all scenarios of enough subsets and attains the returned objective.",
 ["inputs", "configurations"], "all instances, chains of refined partitions, formulations, variable types, warm-start hints and valid prunings",
 "Integration tests only compare final results on two instances; intermediate relaxations, lazy constraints, hints and pruning are not compared.",
 ["src/solver/Solver.py", "src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/instance/PartitionChanceKnapInstance.py"],
 [("CCLP model and its formulations", "CCLPModel.build, OptiModel._add_bigM_constraint"), ("pruning and warm start", "Solver.solve_cclp_model")],
 ["Solver.solve_cclp_model()"])

prop("C16", "The extended-formulation solver finds the true optimum",
 "For every non-negative instance, variable type, risk tolerance and big-M choice, the extended-formulation solver returns a solution that violates at most the tolerated number of scenarios, whose objective is the reported lower bound and lies within the requested relative gap of the true optimum; the reported upper bound is not below the true optimum.",
 ["inputs", "configurations"], "all non-negative instances, risk tolerances in [0,1), big-M methods or indicator constraints, gaps",
 "Two instances at risk 0.2 are compared across formulations; nothing is compared with an independent optimum.",
 ["src/solver/MilpSolver.py", "src/solver/Solver.py", "src/optim/CCLPModel.py", "src/BigMFinder.py"],
 [("MILP solve", "MilpSolver.solve")],
 ["MilpSolver.xLB, zLB, vLB, vUB"])

prop("C17", "Adaptive partitioning terminates with the true optimum",
 "For every non-negative instance, variable type, risk tolerance and combination of initial partition, split strategy, projection, merging, big-M method and lazy option, the adaptive solve stops by itself with bounds whose relative gap is at most the requested one, both within that gap of the true optimum. The reported lower-bound solution violates at most the tolerated number of scenarios and attains the lower bound.",
 ["inputs", "configurations", "histories"], "all non-negative instances, risk tolerances, all option combinations and random seeds, hence all sequences of split and merge steps",
 "48 integration cases use two instances with risk 0.2, most of which end within a few iterations; agreement on other instances, seeds and risks is not tested.",
 ["src/solver/AdaptivePartitioner.py", "src/refiner/Refiner.py", "src/Merger.py", "src/UpperBounder.py", "src/LowerBounder.py"],
 [("main loop", "AdaptivePartitioner.solve"), ("bound updates", "AdaptivePartitioner._upper_bound/_lower_bound")],
 ["AdaptivePartitioner.vUB, vLB, xUB, xLB"])

prop("C18", "Logged bounds bracket the optimum and never regress",
 "In the iteration log of every adaptive solve, the upper bound never increases, the lower bound never decreases, every row's bounds bracket the true optimum and its gap is the relative gap of those bounds. Times never decrease, iteration numbers advance by at most one, and the logged number of subsets stays between the minimum partition size and the number of scenarios, starting at the minimum. The extended-formulation solver's bound log likewise only improves, brackets the true optimum and never claims more than the bounds finally reported.",
 ["histories", "configurations"], "all adaptive solves (instances, options, seeds), with and without merging, and all logged extended-formulation solves",
 "No test reads the log.",
 ["src/Informer.py", "src/solver/AdaptivePartitioner.py", "src/optim/OptiModel.py"],
 [("iteration records", "Informer.store_iteration_info"), ("bound log callback", "OptiModel._save_bounds_callback")],
 ["write_iteration_details() output", "bounds file written by MilpSolver.solve(save_bounds=True)"])

prop("C19", "Stopping early leaves valid, writable results",
 "If the time limit expires or an interrupt arrives at any point of an adaptive solve, or the time limit expires at any point of an extended-formulation solve, the reported upper bound is not below the true optimum, and the lower bound is either minus infinity or attained by a solution that violates at most the tolerated number of scenarios. The run ends without any error other than the interrupt itself, and the result row and iteration log can still be written.",
 ["fault_sequences", "inputs", "configurations"], "all instances and configurations, all positions of clock expiry or interrupt during the solve",
 "No test lets a time limit expire or interrupts a solve.",
 ["src/solver/AdaptivePartitioner.py", "src/solver/Solver.py", "src/solver/MilpSolver.py", "src/TimeManager.py", "main.py"],
 [("remaining-time checks", "TimeManager.get_remaining_time, AdaptivePartitioner.solve"), ("interrupt propagation", "main.py, OptiModel.solve")],
 ["vLB, vUB, xLB after the stop", "written files"])

prop("C20", "Warm-start hints follow the surviving subsets",
 "For every previous indicator solution and set of deleted subset positions, the hint sets to one exactly the new positions of the surviving subsets that were selected, where the new position is the old one less the number of deleted positions before it, and says nothing about the others. Neither the previous solution nor the list of deleted positions is modified, and hints of one call never leak into the next. During an adaptive solve, each partitioned problem is hinted to select every subset that the last upper bound selected and that has been neither split nor merged since, and never one that it did not select.",
 ["inputs", "histories"], "all indicator vectors (lists or arrays, with solver rounding kept exact), all sets of deleted positions in any order, sequences of calls; the hints of every partitioned problem of adaptive solves, with and without merging",
 "Two fixed vectors with at most one deleted subset are tested.",
 ["src/Warmstarter.py", "src/UpperBounder.py", "src/solver/AdaptivePartitioner.py"],
 [("index compression", "Warmstarter.get_z_start")],
 ["Warmstarter.get_z_start()", "z_start of Solver.solve_cclp_model()"])

prop("C21", "An experiment run writes a truthful, readable result row",
 "Running an experiment from the command line with any of the four methods on any instance file, variable type and risk tolerance ends successfully and writes one result row, under the name the result reader looks for, whose fields are the instance name, dimensions, scenario count, variable type, risk, limits, a code that identifies the method's options, and bounds and gap that agree with the true optimum, to the number of decimals asked for. The result reader parses the row, and finds iterations, time and gap at the positions it uses. The iteration log is written beside it.",
 ["inputs", "configurations"], "all instance files, both variable types, risk tolerances, the four methods",
 "No test runs the experiment script or writes a result file.",
 ["main.py", "src/solver/Solver.py", "src/solver/MilpSolver.py", "src/solver/AdaptivePartitioner.py", "src/Informer.py", "src/export/format_results.py"],
 [("driver", "main.py"), ("row layout shared by writer and reader", "write_all_computation_details / read_single_experiment, format_method")],
 ["result csv file", "read_single_experiment()"])

prop("C22", "Summary tables aggregate exactly the result files",
 "For any set of result files, the exported tables contain for every instance family, risk and scenario count the average solving time over the runs when all runs reach the required gap, and otherwise the average final gap and the number of runs that reach it, plus the average number of iterations for adaptive methods. Entries with missing files are marked as missing and never counted; the entry highlighted is the fastest method, or, if no method solves all runs, the one that solves most, ties broken by smaller gap. The big-M time tables hold the averages of the recorded big-M times.",
 ["inputs", "configurations"], "all contents and availability patterns of the result files",
 "No test covers the export code.",
 ["export_results.py", "src/export/format_results.py"],
 [("per-method aggregation", "format_method"), ("table assembly", "export_results.py")],
 ["exported csv tables", "format_method()"])

prop("C23", "Generated instances are faithful samples of their source",
 "For every deterministic source instance, scenario count and instance count, the generator writes exactly the requested number of instance files, with names carrying the dimensions and index, that load correctly and keep the source's objective, right-hand side and dimensions. All generated coefficients are non-negative, zero wherever the source coefficient is zero, and otherwise either zero because the item fails in that scenario (then in all its constraints) or a perturbation of the source coefficient. Perturbations (mean one, ten percent deviation) and failures (each item with its own rate of mean 0.1, drawn anew for each instance) are independent of each other and across items, constraints and scenarios.",
 ["inputs", "configurations"], "all source instances in the published format, scenario and instance counts, random draws",
 "No test runs the generator.",
 ["data/cc-instances/knapsack/instance-generator.py", "src/instance/ChanceKnapInstance.py"],
 [("sampling and writing", "instance-generator.py")],
 ["generated csv files"])

prop("C24", "Solves are reproducible and leave the instance untouched",
 "Solving, evaluating, tightening or partitioning never changes the data of the instance it is given. With the same random seed, an adaptive or extended-formulation solve of the same instance gives the same bounds, solution, partition and number of iterations regardless of what was solved before in the same process.",
 ["histories", "inputs", "configurations"], "all instances, configurations, seeds and all preceding sequences of other solves in the process",
 "Tests share instances between cases but never compare a solve with itself or the data before and after.",
 ["src/solver/Solver.py", "src/solver/AdaptivePartitioner.py", "src/instance/PartitionChanceKnapInstance.py", "src/BigMFinder.py", "src/TimeManager.py"],
 [("shared environment and class-level state", "OptiModel.env, TimeManager"), ("array sharing between instance and view", "PartitionChanceKnapInstance.__init__")],
 ["instance getters before/after", "solver results"])

prop("C25", "Time limits and recorded times are honoured",
"Whatever time the individual optimisations take, an adaptive or extended-formulation solve never gives the solver of the (partitioned) problem more time than remains of its time limit, where time spent on building models, on big-M values and on single-scenario costs counts too, and starts no further iteration once the limit has expired. Times are recorded from the construction of the solver: the result row reports the time of the whole run, logged times never exceed it, never decrease and never precede the work of earlier iterations, the recorded big-M time is the time until the extended formulation is handed to the solver, and times in its bound log lie within that solver's run.",
["inputs", "configurations", "schedules"], "all instances, configurations and durations of the individual optimisations",
"Tests run in milliseconds with the default limit, so no limit ever expires and no recorded time is compared with a clock.",
["src/solver/Solver.py", "src/solver/MilpSolver.py", "src/solver/AdaptivePartitioner.py", "src/TimeManager.py", "src/Informer.py", "src/optim/OptiModel.py"],
[("class-level clock shared by all solvers", "TimeManager"), ("remaining time handed to the solver", "Solver / OptiModel.set_time_limit"), ("loop exits on expiry", "AdaptivePartitioner.solve")],
["result row", "iteration log", "bound log", "solver parameters"])

prop("C26", "Equivalent problems have equal optima; relaxing never lowers them",
"Solving a problem restated in an equivalent way - scenarios, items or constraints reordered, constraints repeated, added together or rescaled, every scenario doubled at the same risk, scenarios added that never fail, items added that change nothing, objective rescaled - by the same or the other solver, with any options, gives bounds consistent with those of the original, and a solution that translates to one violating at most the tolerated number of scenarios of the original. Relaxing a problem (more risk, capacity, items or profit, lighter weights, fewer constraints or scenarios, fractional items) never gives an upper bound below the original lower bound.",
["inputs", "configurations"], "all instances, also those too large for a reference optimum, all compositions of transformations, pairs of methods and options",
"Tests solve fixed instances one at a time and compare no two of them.",
["src/solver/AdaptivePartitioner.py", "src/solver/MilpSolver.py", "src/BigMFinder.py", "src/song_big_m.py", "src/instance/PartitionChanceKnapInstance.py", "src/refiner/Refiner.py", "src/optim/CCLPModel.py"],
[("whole solve", "AdaptivePartitioner.solve / MilpSolver.solve"), ("position-dependent bookkeeping of scenarios, constraints and subsets", "PartitionChanceKnapInstance, Refiner, Merger"), ("scale-dependent tolerances", "BigMFinder, OptiModel parameters")],
["vLB, vUB, xLB of the two solves"])

prop("C27", "An adaptive solve keeps partition, data and costs in step",
"At every iteration of an adaptive solve with any configuration, and when it ends early, the recorded partition is a partition of the scenarios into more subsets than the tolerated number, and the recorded number of subsets and the partitioned view (constraints, probabilities, risk) are those of that partition. The cost and solution recorded for each position are an exact optimum and an optimal point of the subset now at that position, whatever splits and merges moved, joined or deleted before. The big-M values computed at an iteration exclude no optimal solution of the chance-constrained problem.",
["histories", "inputs", "configurations"], "all instances and configurations, all histories of splits and merges they lead to, early stops",
"Tests look at the final bounds of short solves, where several subsets are rarely merged at a time; a misplaced cost only matters when it causes a wrong pruning or bound.",
["src/solver/AdaptivePartitioner.py", "src/Merger.py", "src/refiner/Refiner.py", "src/refiner/CostRefiner.py", "src/instance/PartitionChanceKnapInstance.py", "src/Evaluator.py"],
[("costs follow splits", "AdaptivePartitioner._split"), ("costs follow merges and deletions", "AdaptivePartitioner._post_merge_processing"), ("view loaded after every change", "PartitionChanceKnapInstance.load_partition")],
["AdaptivePartitioner.partition, nb_subsets, subset_costs, subset_sols, chance_instance_part"])

prop("C28", "Stopped or repeated experiments leave valid, separate results",
"When the time limit of an experiment run expires, or its alarm goes off at any point of an adaptive solve, the run still ends successfully and writes one result row that the result reader parses, with the right instance fields, an upper bound not below and a lower bound not above the true optimum, the gap of these bounds, and the log beside it. Runs that differ in instance, variable type, whole-percent risk or method, made into one folder in any order, never touch each other's result rows, and a repeated run replaces its own row and log.",
["histories", "inputs", "crash points"], "all sequences of experiment runs into one folder, all instances, risks and methods, all points at which the limit expires or the alarm goes off",
"Tests never run main.py, and no test lets its time limit expire.",
["main.py", "src/solver/AdaptivePartitioner.py", "src/solver/MilpSolver.py", "src/TimeManager.py", "src/export/format_results.py"],
[("alarm and its handler", "main.py"), ("names of result files", "main.py / format_results.read_single_experiment"), ("rows written after an early stop", "write_all_computation_details, write_iteration_details")],
["result files", "exit status", "format_results.read_single_experiment"])

prop("C29", "The printed account of a solve is true",
"When an adaptive solve ends with bounds within the requested gap, it announces a solution that satisfies the chance constraint, attains the announced objective and is within that gap of the true optimum; when it is stopped with a larger gap, it announces none. The iterations it reports are numbered consecutively from one, their bounds bracket the true optimum and never regress, and the gap is that of the bounds. Reported costs of subsets are the optima over the scenarios printed with them, and every printed feasibility summary has the number of violated scenarios, the tolerance and the verdict of the point checked.",
["inputs", "histories", "configurations"], "all instances and configurations, all points at which the time limit expires, all points",
"Tests discard what is printed, although the solution found appears nowhere else: result rows and logs hold bounds only.",
["src/solver/AdaptivePartitioner.py", "src/Informer.py", "src/instance/ChanceKnapInstance.py", "src/UpperBounder.py"],
[("solution announced at the end", "AdaptivePartitioner.solve"), ("iteration reports", "Informer.print_iter_info"), ("feasibility summary", "ChanceKnapInstance.check_feasibility"), ("costs of split and merged subsets", "AdaptivePartitioner._split, _post_merge_processing")],
["standard output", "AdaptivePartitioner.vLB, vUB"])

prop("C30", "Operations leave what they are given, and earlier results, as they are",
"Checking, bounding, projecting, evaluating, refining, initialising, computing violations, big-M values or a warm start never changes the instance, the points, partitions, costs, solutions or masks passed in, however many operations follow one another. What an operation has returned keeps its content whatever is done afterwards: solutions and costs of an evaluation, refined partitions, verdicts and pairwise violations are independent of later calls. Merging is the one operation that edits a partition, and only the one it is given: refining an earlier partition again still yields a valid refinement.",
["histories", "inputs"], "all sequences of operations on shared components, all instances, points and partitions",
"Tests call each component once and compare its return value; they look neither at the arguments afterwards nor at results of an earlier call.",
["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/Merger.py", "src/Evaluator.py", "src/LowerBounder.py", "src/UpperBounder.py", "src/Warmstarter.py", "src/instance/ChanceKnapInstance.py"],
[("refinement works on a copy", "Refiner.refine"), ("solutions of subsets", "Evaluator.partition_cost"), ("feasible scenarios of the candidates", "LowerBounder.save_feasible_scenarios"), ("data of the instance", "ChanceKnapInstance.get_matrices_A, get_vectors_b")],
["arguments of each call after it", "return values of earlier calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
