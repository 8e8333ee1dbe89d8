"""C30 Operations leave what they are given, and earlier results, as they are."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut

OPS = ("feasible", "costs", "view", "violations", "bounds", "warm", "lower", "lower",
       "initial", "refine", "refine", "merge", "merge", "again", "big_m")


@st.composite
def case(draw, edits=False):
    if edits or draw(st.integers(0, 2)) == 0:
        d = draw(gen.crowded(N=(10, 14 if edits else 24)))
    else:
        d = draw(gen.hard_instance(N=(5, 14), n=(2, 6), m=(1, 3), kmax=3))
    if edits:
        # results are edited, and the operations repeated
        ops = [dict(op=o, seed=draw(gen.seeds())) for o in
               ["refine", "merge", "again"] * draw(st.integers(1, 2))]
        return dict(inst=d, ops=ops)
    ops = [dict(op=draw(st.sampled_from(OPS)), seed=draw(gen.seeds()))
           for _ in range(draw(st.integers(3, 12)))]
    return dict(inst=d, ops=ops)


def freeze(v):
    """A comparable copy."""
    if isinstance(v, np.ndarray):
        return ("array", v.shape, v.astype(float).tolist())
    if isinstance(v, dict):
        return ("dict", sorted((repr(k), freeze(u)) for k, u in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(u) for u in v])
    if isinstance(v, (bool, np.bool_)) or v is None:
        return v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return repr(v)


class Book:
    """Everything that was passed to or returned by an operation."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def keep(self, name, obj):
        self.items.append((name, obj, freeze(obj)))
        return obj

    def release(self, obj):
        """obj is about to be edited."""
        self.items = [i for i in self.items if i[1] is not obj]

    def judge(self, after):
        for name, obj, was in self.items:
            now = freeze(obj)
            self.ctx.require(now == was, "%s was changed by %s: %s, before %s" % (
                name, after, str(now)[:300], str(was)[:300]))


class World:
    def __init__(self, d, ctx):
        self.d, self.ctx, self.book = d, ctx, Book(ctx)
        self.ci = oracle.load(d)
        self.view = sut.PartitionChanceKnapInstance(self.ci)
        self.ev = sut.Evaluator(self.ci)
        self.low = {}
        self.ref = {"random": sut.RandomRefiner(self.ci, use_acc_obj=False),
                    "cost": sut.CostRefiner(self.ci, use_acc_obj=True)}
        self.merger = sut.Merger(self.ci, self.view)
        self.ub = sut.UpperBounder(self.view, "random", "random")
        self.warm = sut.Warmstarter()
        self.k = oracle.K(d)
        k = self.book.keep
        k("the constraint tensor", self.ci.get_matrices_A())
        k("the right-hand sides", self.ci.get_vectors_b())
        k("the objective", self.ci.get_vector_c())
        k("the probabilities", self.ci.get_proba())
        self.part, self.costs, self.sols = None, None, None
        self.refined = []

    def point(self, r):
        if self.sols is not None and r.random() < 0.4:
            return np.array(r.choice(self.sols))
        v = [r.choice((0, 1, 1)) if not self.d["cont"] else r.randint(0, 16) / 16
             for _ in range(self.d["n"])]
        return np.array(v, dtype=float)

    def partition(self, r):
        N = self.d["N"]
        size = r.randint(self.k + 1, N)
        p = [[] for _ in range(size)]
        for i, s in enumerate(r.sample(range(N), N)):
            p[i if i < size else r.randrange(size)].append(s)
        return p


def refine(w, how, part, costs, x):
    ref, d = w.ref[how], w.d
    V = set(oracle.violated_set(d, x))
    w.ci.check_feasibility(x)
    ref.subset_costs = costs
    ref.vUB = max(costs)
    _, new = ref.refine(part, x)
    w.ctx.require(oracle.is_partition(new, d["N"]) and sum(
        bool(V & set(p)) for p in new) > w.k, "refinement (%s) of %s returned %s; violated %s, %d "
        "tolerated" % (how, part, new, sorted(V), w.k))
    return w.book.keep("a refined partition", new)


def run(w, op, r, ctx):
    d, book = w.d, w.book
    keep = book.keep
    if w.part is None or (op == "costs" and r.random() < 0.5):
        w.part = keep("a partition", w.partition(r))
        w.costs, w.sols = w.ev.partition_cost(w.part)
        keep("costs of a partition", w.costs)
        keep("solutions of a partition", w.sols)
    if op == "feasible":
        x = keep("a point checked", w.point(r))
        if r.random() < 0.5:
            keep("the verdict on a point", w.ci.is_feasible(x))
        else:
            w.ci.check_feasibility(x)
            keep("the feasible scenarios", w.ci.get_feasible_scenarios())
            keep("the violations", w.ci.get_sum_infeasibility())
    elif op == "costs":
        g = keep("a subset", r.sample(range(d["N"]), r.randint(1, min(4, d["N"]))))
        keep("cost and solution of a subset", w.ev.subset_cost(g))
        keep("single costs", w.ev.scenario_costs(g))
    elif op == "view":
        w.view.load_partition(len(w.part), keep("the partition of the view", w.part))
    elif op == "violations":
        f = sut.cpp_violations if r.random() < 0.7 or d["N"] > 8 else sut.py_violations
        keep("pairwise violations", f(w.ci.get_matrices_A(), w.ci.get_vectors_b()))
    elif op == "bounds":
        form = r.choice([list, list, np.array])
        keep("the quantile bound", w.ub.ahmed_et_al_bound(
            keep("single costs", form(w.ev.get_all_single_scenario_costs())), w.ci.get_proba(),
            w.ci.get_epsilon()))
        keep("the first bound", w.ub.first_iteration_bound(
            keep("costs of subsets", form(w.costs)), keep("solutions of subsets", form(w.sols))))
    elif op == "warm":
        n = r.randint(1, 9)
        z = keep("earlier indicators", np.array([float(r.randint(0, 1)) for _ in range(n)]))
        dele = keep("deleted subsets", r.sample(range(n), r.randint(0, n - 1)))
        keep("a hint", w.warm.get_z_start(z, dele))
    elif op == "lower":
        m = r.choice(["counter", "rescaled_max_violation"])
        if m not in w.low:
            w.low[m] = sut.LowerBounder(w.ci, m)
        low = w.low[m]
        if r.random() < 0.6:
            low.save_feasible_scenarios(keep("feasible scenarios", np.array(
                [r.random() < 0.5 for _ in range(d["N"])])))
            low.vLB = r.choice([-np.inf, min(w.costs) / 2, min(w.costs)])
            keep("a projection", low.deterministic_bound(keep("a projected point", w.point(r))))
        else:
            keep("the candidate found", low.incumbent_bound(
                keep("candidates", list(w.sols)), max(w.costs) + 1, -np.inf, verbose=False))
    elif op == "initial":
        t = r.choice(["random", "cost"])
        keep("an initial partition", sut.Initializer(w.ci, w.view).create_first_partition(
            r.randint(1, d["N"]), t))
    elif op == "merge":
        # merging changes the partition it is given, and no other
        w.view.load_partition(len(w.part), w.part)
        some = keep("subsets to merge", r.sample(range(len(w.part)), r.randint(2, len(w.part))))
        if r.random() < 0.4:
            mine = copy.deepcopy(w.part)
        else:
            # the partition an earlier operation returned
            mine = w.part
            book.release(mine)
            w.part = None
        if r.random() < 0.5:
            w.merger.merge_all(mine, some)
        else:
            w.merger.merge_feasible(mine, keep("a point", w.point(r)), some, len(some) - 1)
        keep("a merged partition", mine)
    elif op == "refine":
        # a point that violates too many scenarios, but few enough subsets
        for _ in range(12):
            x = w.point(r)
            V = set(oracle.violated_set(d, x))
            hit = [c for c, p in enumerate(w.part) if V & set(p)]
            sure = oracle.violated_set(d, x, 4e-7) == oracle.violated_set(d, x, 2.5e-6)
            if len(V) > w.k >= len(hit) >= 1 and sure:
                break
        else:
            # the first subsets hold all violated scenarios
            if not (len(V) > w.k >= 1 and sure):
                return False
            F = [s for s in range(d["N"]) if s not in V]
            if len(F) < w.k:
                return False
            V = r.sample(sorted(V), len(V))
            w.part = keep("a partition", [V] + [[s] for s in F[:w.k - 1]] + [F[w.k - 1:]])
            hit = [0]
            w.costs, w.sols = w.ev.partition_cost(w.part)
            keep("costs of a partition", w.costs)
            keep("solutions of a partition", w.sols)
        how = r.choice(["random", "cost"]) if d["N"] <= 14 else "random"
        keep("a refined point", x)
        w.refined.append((how, copy.deepcopy(w.part), list(w.costs), np.array(x)))
        w.part = refine(w, *w.refined[-1][:1], w.part, w.costs, x)
        w.costs, w.sols = w.ev.partition_cost(w.part)
        keep("costs of a partition", w.costs)
        keep("solutions of a partition", w.sols)
    elif op == "again":
        if not w.refined:
            return False
        how, part, costs, x = r.choice(w.refined)
        refine(w, how, copy.deepcopy(part), list(costs), np.array(x))
    elif op == "big_m":
        w.view.load_partition(len(w.part), w.part)
        f = sut.BigMFinder(w.view)
        f.update_big_M(len(w.part), max(w.costs), method=r.choice(["naive", "belotti", "song"]),
                       chance_instance=w.ci, partition=w.part)
    return True


def check(cs, ctx):
    d = cs["inst"]
    with ctx.sut("setting up"):
        w = World(d, ctx)
    done = set()
    for q, o in enumerate(cs["ops"]):
        r = random.Random(o["seed"])
        random.seed(o["seed"])
        with ctx.sut("operation %d (%s)" % (q, o["op"])):
            ok = run(w, o["op"], r, ctx)
        w.book.judge("operation %d (%s)" % (q, o["op"]))
        if ok is not False:
            done.add(o["op"])
            ctx.label(o["op"])
    ctx.nontrivial = len(done) >= 3


def targets(tier):
    return [dict(name="operations", strategy=case, check=check, quick=450, thorough=9000),
            dict(name="edited results", strategy=lambda: case(True), check=check,
                 quick=200, thorough=6000)]
