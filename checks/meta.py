"""Per-property facts shared by run.py, the evidence and the manifest."""
META = {
 "C01": dict(level="exploration", quick_s=120, thorough_s=1500,
   rule="generated files of 1-3 loads; non-trivial: a file with at least two "
        "scenarios, two constraints and two items"),
 "C02": dict(level="exploration", quick_s=120, thorough_s=1500,
   rule="instance, risk tolerance and 1-4 feasibility calls at generated points, some "
        "moved to within 1e-8..1e-3 of a row's boundary; non-trivial: some point "
        "violates exactly the tolerated number of scenarios or one more",
   assumptions=["excesses between 4e-7 and 2.5e-6 are not judged (tolerance zone)"]),
 "C03": dict(level="exploration", quick_s=120, thorough_s=1500,
   rule="instance and 1-4 successive partition loads; non-trivial: at least two "
        "constraints per scenario and a subset of at least two scenarios"),
 "C20": dict(level="exploration", quick_s=240, thorough_s=1500,
   rule="1-4 calls with generated indicator vectors and deleted positions; non-trivial: "
        "a call with deleted positions and a non-empty hint; a solve whose partitioned "
        "problems follow an earlier upper bound"),
 "C05": dict(level="exploration", quick_s=150, thorough_s=2000, asan=True,
   rule="generated constraint tensors with up to 4 scenarios, 3 rows, 40 items (ties, zeros, "
        "proportional rows, slack/zero/prefix capacities); non-trivial: at least two "
        "scenarios and two items",
   assumptions=["values are compared to an exact rational optimum within 1e-5 relative to "
                "the largest coefficient (the routine uses absolute tolerances of 1e-6)"]),
 "C04": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="instance, plain or partitioned, 1-3 big-M computations with changing partition, "
        "method and bound; the largest excess over all feasible points is found by "
        "enumeration (binary) or exact LP branching (continuous); non-trivial: some value "
        "is tighter than the naive one",
   assumptions=["continuous: at most four tightened rows per step are judged",
                "instances of at most 9 scenarios, 6 items"]),
 "C06": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="instance, plain or partitioned, 1-3 recomputations with changing bound and "
        "partition; non-trivial: some exact value is below the naive one"),
 "C07": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="instance and 1-3 cost requests (subset, scenario, list, all, partition); "
        "non-trivial: a request on several scenarios with optimum strictly between zero "
        "and the total objective"),
 "C09": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="instance and 1-3 initial partitions; non-trivial: 1 < subsets < scenarios (random), "
        "more distinct costs than subsets (cost)"),
 "C11": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="partition and 1-4 successive merges; non-trivial: several subsets deleted with others "
        "left, or candidates chosen among different margins"),
 "C08": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="histories of 2-7 add/remove/solve operations on one model, or of 2-5 lower-bound calls "
        "with a non-decreasing current bound; non-trivial: a solve after a removal with "
        "scenarios left, or a second or later call that returns a solution"),
 "C13": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="cost vectors of up to 100 scenarios, and instances with a minimal partition; "
        "non-trivial: more than two distinct costs with an inner quantile, or a bound "
        "strictly above the optimum with at least one tolerated violation"),
 "C14": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="1-3 projection calls or candidate searches on a generated instance; non-trivial: "
        "dropping the right scenarios changes the optimum, or some but not all candidates "
        "qualify",
   assumptions=["violations within 0.1% of the 1e-3 limit used for ranking are not judged"]),
 "C10": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="instance, point and partition built so that the point violates too many scenarios "
        "but at most the tolerated number of subsets; up to three refinements by one "
        "refiner; non-trivial: a refinement took place on a partition of several subsets"),
 "C12": dict(level="exploration", quick_s=240, thorough_s=2400,
   rule="subset of up to 6 scenarios with at least two violated ones, split once or "
        "repeatedly, and histories of refinements with one refiner; all divisions are "
        "enumerated with LP costs; non-trivial: some other division is worse, or a split "
        "judged after an earlier refinement"),
}
META.update({
 "C16": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="instance and 1-3 solves with different big-M choices and gaps; the optimum by "
        "enumeration (binary) or exact LP branching (continuous); non-trivial: dropping scenarios "
        "pays and the optimum is below the total objective"),
 "C17": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="instance and one adaptive solve with generated options; non-trivial: at least two "
        "iterations",
   assumptions=["bounds are compared with a tolerance of 3e-4 relative (inner problems are "
                "solved to 1e-4)",
                "termination: within 6000 readings of the clock (hundreds of iterations, for at "
                "most 20 scenarios)"]),
})
META.update({
 "C15": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="instance and a chain of 1-4 partitions, each refining the one before, solved 1-3 times "
        "with different formulations, hints and fixed subsets; non-trivial: some partitioned "
        "optimum lies strictly above the true optimum"),
 "C18": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="one adaptive solve, or 1-3 logged extended-formulation solves; non-trivial: a log of at "
        "least three rows",
   assumptions=["the iteration log has three decimals; bounds are compared within 1e-3",
                "optimum within 3e-4 relative"]),
})
META.update({
 "C19": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="one solve run in full to count clock readings or executed lines, then again with the "
        "limit expiring at, or an interrupt arriving at, a generated one of them (or inside a "
        "solver's optimisation, or a real signal after a generated share of the time); non-trivial: stopped before the end, or an "
        "instance of several iterations",
   assumptions=["interrupts arrive between executed lines of the code under test, or wherever a "
                "real signal lands; after an interrupt the lower bound need only be valid and the "
                "stored solution, if any, feasible"]),
})
META.update({
 "C23": dict(level="exploration", quick_s=200, thorough_s=2000,
   rule="generated deterministic sources, scenario counts and instance counts; non-trivial: "
        "several instances, scenarios and constraints, and a zero source coefficient",
   assumptions=["the generator's random sources are seeded by the check",
                "perturbations within 85% of the source (8.5 standard deviations)"]),
 "C24": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="a solve, 1-3 other uses of the code in the same process (some between building and "
        "running the solver), and the solve again; non-trivial: the solve takes several "
        "iterations or is an extended-formulation one"),
})
META.update({
 "C21": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="instance file, variable type, risk tolerance and 1-4 of the methods run one after the "
        "other into one (new) folder, in process or as a command; non-trivial: tolerating "
        "violations pays",
   assumptions=["bounds within 4e-4 relative of the optimum by enumeration or LP branching"]),
 "C22": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="a full set of up to 960 result files with generated values, missing files and missing "
        "groups; non-trivial: some runs unsolved and some files missing",
   assumptions=["the families, scenario counts, risks and indices of run_all_experiments.sh"]),
})
META.update({
 "C25": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="a solve in which every optimisation takes a generated time of a virtual clock (none, "
        "some, or all it is allowed and a bit more); non-trivial: the limit expires, or several "
        "iterations are logged, or big-M values take time",
   assumptions=["optimisations of gurobipy.Model objects, with TimeLimit as their allowance",
                "tolerance of 0.05 s of the virtual clock, limit 100 s"]),
})
META.update({
 "C26": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="an instance, 1-4 transformations of it that keep or relax the problem, and a method "
        "for each of the two; non-trivial: violations tolerated and both solves take several "
        "iterations or are extended-formulation ones",
   assumptions=["bounds compared within 3e-4 relative; solves stopped after 6 s are compared "
                "by the bounds they reached"]),
})
META.update({
 "C27": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="an adaptive solve whose partition, view, costs and solutions are judged before, in "
        "every iteration, and after it; non-trivial: at least three different partitions",
   assumptions=["costs within 1.1e-4 (continuous) or 3e-6 (binary) of enumeration or an LP"]),
})
META.update({
 "C28": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="2-4 experiment runs of main.py in one process and into one folder, some stopped by an "
        "expired limit (virtual clock) or by their alarm at a generated line; non-trivial: some "
        "run is stopped and at least two different experiments are run",
   assumptions=["whole-percent risks", "alarms during the solve, not the construction of the solver"]),
})
META.update({
 "C29": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="an adaptive solve, some stopped by an expired limit (virtual clock), whose output is "
        "read, or points checked for feasibility; non-trivial: at least two iterations are "
        "reported, or some but not all scenarios are violated",
   assumptions=["optimum from enumeration or an independent MILP; printed numbers have two "
                "decimals in iteration reports"]),
 "C30": dict(level="exploration", quick_s=300, thorough_s=3000,
   rule="a history of 3-12 operations on one instance (feasibility, costs, views, pairwise "
        "violations, bounds, hints, projections, initial partitions, refinements, merges, big-M "
        "values); after each, everything passed or returned so far is compared with the copy "
        "taken then; non-trivial: at least three kinds of operation",
   assumptions=["merging works on the partition it is given, by design; it is given a copy"]),
})
