"""C09 Initial partitions are balanced partitions of the scenarios."""
import random

from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, kind, large=False):
    if large:
        d = draw(gen.many(N=(40, 200), n=(1, 4)) if kind == "cost" else
                 gen.many(N=(40, 400), n=(1, 1), m=(1, 1)))
    elif kind == "cost":
        d = draw(gen.instance(n=(1, 6), m=(1, 3), N=(1, 12)))
    else:
        d = draw(gen.instance(n=(1, 1), m=(1, 1), N=(1, 40)))
    calls = [draw(st.integers(1, d["N"])) for _ in range(draw(st.integers(1, 3)))]
    return dict(inst=d, calls=calls, kind=kind, seed=draw(gen.seeds()))


def check(case, ctx):
    d, N = case["inst"], case["inst"]["N"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ini = sut.Initializer(ci, sut.PartitionChanceKnapInstance(ci))
    random.seed(case["seed"])
    if case["kind"] == "cost":
        truth = [oracle.subset_opt(d, [s]) for s in range(N)]
    for q, r in enumerate(case["calls"]):
        with ctx.sut("create_first_partition"):
            parts = ini.create_first_partition(r, partition_type=case["kind"])
            parts = [[int(s) for s in p] for p in parts]
        ctx.require(len(parts) == r, "%d subsets, %d requested" % (len(parts), r))
        ctx.require(oracle.is_partition(parts, N), "not a partition: %s" % parts)
        sizes = sorted(len(p) for p in parts)
        ctx.require(sizes[-1] - sizes[0] <= 1, "unbalanced sizes %s" % sizes)
        if case["kind"] == "cost":
            with ctx.sut("scenario_costs"):
                costs = [float(v) for v in ini.scenario_costs]
            ctx.require(len(costs) == N, "%d recorded costs" % len(costs))
            for s in range(N):
                ctx.require(oracle.close(costs[s], truth[s], 1.1e-4, 1e-5),
                            "recorded cost of scenario %d is %r, optimum %r" % (
                                s, costs[s], truth[s]))
            # ranks: the j-th most expensive of every subset, subset by subset
            dealt = [sorted((costs[s] for s in p), reverse=True) for p in parts]
            flat = [p[j] for j in range(sizes[-1]) for p in dealt if j < len(p)]
            ctx.require(all(x >= y - 1e-9 for x, y in zip(flat, flat[1:])),
                        "dealing order is not by decreasing cost: %s" % flat)
            # larger subsets come first, as in dealing cards
            ln = [len(p) for p in parts]
            ctx.require(ln == sorted(ln, reverse=True) or N % r == 0,
                        "the last incomplete block is not dealt in subset order: %s" % ln)
            if len(set(round(v, 6) for v in costs)) > r > 1:
                ctx.nontrivial = True
        elif 1 < r < N:
            ctx.nontrivial = True
        if N % r:
            ctx.label("sizes differ")
        if q:
            ctx.label("repeated call")


def targets(tier):
    return [dict(name="random", strategy=lambda: case("random"), check=check,
                 quick=3000, thorough=20000),
            dict(name="cost", strategy=lambda: case("cost"), check=check,
                 quick=1080, thorough=7000),
            dict(name="random, many scenarios", strategy=lambda: case("random", True),
                 check=check, quick=400, thorough=3000),
            dict(name="cost, many scenarios", strategy=lambda: case("cost", True),
                 check=check, quick=60, thorough=500)]
