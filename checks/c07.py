"""C07 Subset costs are exact optima of the deterministic problem."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, flat=False, large=False):
    d = draw(gen.flat_binary() if flat else gen.bulk(n=(1, 9), m=(1, 5), N=(30, 90)) if large
             else gen.instance(n=(1, 9), m=(1, 4), N=(1, 10)))
    N = d["N"]
    reqs = []
    for _ in range(draw(st.integers(1, 2 if large else 3))):
        kind = draw(st.sampled_from(["subset", "subset", "scenario", "list", "all", "partition"]))
        r = dict(kind=kind)
        if kind == "subset":
            r["arg"] = sorted(draw(st.permutations(range(N)))[:draw(st.integers(1, N))])
            if draw(st.booleans()):
                r["arg"] = draw(st.permutations(r["arg"]))
        elif kind == "scenario":
            r["arg"] = draw(st.integers(0, N - 1))
        elif kind == "list":
            r["arg"] = draw(st.lists(st.integers(0, N - 1), min_size=1,
                                     max_size=60 if large else 5))
        elif kind == "partition":
            r["arg"] = draw(gen.partition(N, kmax=12 if large else None))
        reqs.append(r)
    return dict(inst=d, reqs=reqs)


def judge(ctx, d, subset, cost, sol, what):
    want = oracle.subset_opt(d, subset)
    ctx.require(oracle.close(cost, want, 1.1e-4 if d["cont"] else 3e-6, 1e-5), "%s: cost %r of scenarios %s, optimum %r"
                % (what, cost, subset, want))
    if sol is not None:
        ctx.require(oracle.in_box(sol, d["cont"]), "%s: solution %s outside its domain" % (
            what, sol))
        A, b, _ = oracle.arrays(d)
        E = oracle.excess(d, sol)[list(subset)]
        ctx.require(bool((E <= 1e-5 * (1 + A.max())).all()), "%s: solution %s violates scenarios "
                    "%s" % (what, sol, subset))
        ctx.require(oracle.close(oracle.obj(d, sol), cost, 1e-6, 1e-5),
                    "%s: solution has objective %r, cost is %r" % (what, oracle.obj(d, sol), cost))
    return want


def check(case, ctx):
    d = case["inst"]
    N = d["N"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ev = sut.Evaluator(ci)
    tot = sum(d["c"]) / 10.0
    for r in case["reqs"]:
        kind = r["kind"]
        with ctx.sut(kind):
            if kind in ("subset", "scenario"):
                arg = list(r["arg"]) if kind == "subset" else r["arg"]
                cost, sol = ev.subset_cost(arg)
                items = [(r["arg"] if kind == "subset" else [r["arg"]], float(cost),
                          [float(v) for v in sol])]
            elif kind == "list":
                costs = [float(v) for v in ev.scenario_costs(list(r["arg"]))]
                ctx.require(len(costs) == len(r["arg"]), "%d costs" % len(costs))
                items = [([s], v, None) for s, v in zip(r["arg"], costs)]
            elif kind == "all":
                costs = [float(v) for v in ev.get_all_single_scenario_costs()]
                ctx.require(len(costs) == N, "%d costs" % len(costs))
                items = [([s], v, None) for s, v in enumerate(costs)]
            else:
                costs, sols = ev.partition_cost([list(p) for p in r["arg"]])
                ctx.require(len(costs) == len(r["arg"]) == len(sols), "%d costs" % len(costs))
                items = [(p, float(v), [float(u) for u in x])
                         for p, v, x in zip(r["arg"], costs, sols)]
        for p, v, x in items:
            want = judge(ctx, d, p, v, x, kind)
            if 0 < want < tot - 1e-6 and (len(p) > 1 or len(items) > 1):
                ctx.nontrivial = True
        ctx.label(kind)
    ctx.label("continuous" if d["cont"] else "binary")


def targets(tier):
    return [dict(name="costs", strategy=case, check=check, quick=2800, thorough=15000),
            dict(name="flat objectives", strategy=lambda: case(True), check=check,
                 quick=60, thorough=2500),
            dict(name="many scenarios", strategy=lambda: case(large=True), check=check,
                 quick=36, thorough=1000)]
