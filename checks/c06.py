"""C06 Objective-bounded big-M values are the tightest possible."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, cont, large=False):
    if large:
        d = draw(gen.bulk(n=(4, 24 if cont else 11), m=(1, 6), N=(8, 40), cont=cont))
    else:
        d = draw(gen.instance(n=(1, 8), m=(1, 3), N=(1, 6), cont=cont))
    k = gen.tolerated(d["eps"], d["N"])
    steps = []
    tot = sum(d["c"])
    for _ in range(draw(st.integers(1, 3))):
        steps.append(dict(part=draw(gen.partition(d["N"], kmin=k + 1)),
                          # hundredths; half the time off the grid of objectives
                          ub=draw(st.integers(0, tot + 20)) * 10
                          + draw(st.sampled_from([0, 5, 5])),
                          direct=draw(st.booleans())))
    return dict(inst=d, steps=steps, plain=draw(st.booleans()))


def check(case, ctx):
    d = case["inst"]
    N, m, n = d["N"], d["m"], d["n"]
    A, b, c = oracle.ints(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        if case["plain"]:
            target = ci
        else:
            target = sut.PartitionChanceKnapInstance(ci)
            target.load_partition(len(case["steps"][0]["part"]), case["steps"][0]["part"])
        finder = sut.BigMFinder(target)
    if not d["cont"]:
        X = oracle.all_points(n)
        cx = X @ c
        lhs = np.einsum("smn,xn->xsm", A, X)
    for q, stp in enumerate(case["steps"]):
        part = [[s] for s in range(N)] if case["plain"] else stp["part"]
        ub = stp["ub"] / 100.0
        with ctx.sut("objective-bounded big-M"):
            if stp["direct"] and (q == 0 or case["plain"]):
                finder.run_belotti_et_al_big_M(ub)
            else:
                if not case["plain"]:
                    target.load_partition(len(part), part)
                finder.update_big_M(len(part), ub, method="belotti", chance_instance=ci,
                                    partition=None if case["plain"] else part)
            M = [[float(v) for v in finder.get_vector_big_M(t)] for t in range(len(part))]
        ctx.require(len(M) == len(part), "big-M of %d subsets" % len(M))
        for t, p in enumerate(part):
            ctx.require(len(M[t]) == m * len(p), "subset %d has %d values" % (t, len(M[t])))
            for w, s in enumerate(p):
                for i in range(m):
                    if d["cont"]:
                        want = oracle.frac_knapsack(
                            [int(v) for v in A[s, i]], [int(v) for v in c],
                            Fraction(stp["ub"], 10)) - int(b[i])
                        want = float(want) / 10
                    else:
                        want = (lhs[cx * 10 <= stp["ub"], s, i].max() - b[i]) / 10.0
                    got = M[t][w * m + i]
                    tol = 1e-6 * (1 + float(A[s, i].sum()) / 10) + 1e-6
                    ctx.require(abs(got - want) <= tol, "step %d: big-M of scenario %d row %d "
                                "is %r, largest excess with objective <= %r is %r" % (
                                    q, s, i, got, ub, want))
                    if want < (A[s, i].sum() - b[i]) / 10.0 - 1e-9:
                        ctx.nontrivial = True
        ctx.label("plain" if case["plain"] else "partitioned", "step %d" % q)


def targets(tier):
    return [dict(name="continuous", strategy=lambda: case(True), check=check,
                 quick=4800, thorough=20000),
            dict(name="binary", strategy=lambda: case(False), check=check,
                 quick=2000, thorough=10000),
            dict(name="large continuous", strategy=lambda: case(True, True), check=check,
                 quick=80, thorough=1500),
            dict(name="large binary", strategy=lambda: case(False, True), check=check,
                 quick=30, thorough=800)]
