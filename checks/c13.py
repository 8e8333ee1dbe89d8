"""C13 The quantile bound is a valid upper bound."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


def ub():
    return sut.UpperBounder(None, None, None)


@st.composite
def costs(draw, large=False):
    N = draw(st.integers(60, 1000) if large else st.integers(1, 60))
    by = gen.bytes_(draw, N)
    style = draw(st.sampled_from(["ties", "free"]))
    v = [(x % 5) * 10.0 if style == "ties" else x * 1.7 for x in by]
    eps = draw(gen.risk(N))
    if not large and draw(st.integers(0, 4)) == 0:
        eps, N = draw(st.sampled_from(gen.INEXACT + [(0.1, 10), (1 - 0.9, 10), (0.2, 5)]))
        by = gen.bytes_(draw, N)
        v = [x * 1.7 for x in by]
    return dict(v=v, eps=eps, as_list=draw(st.booleans()))


def check_costs(case, ctx):
    v, eps = case["v"], case["eps"]
    N = len(v)
    k = gen.tolerated(eps, N)
    want = sorted(v)[k]
    given = list(v) if case["as_list"] else np.array(v)
    with ctx.sut("ahmed_et_al_bound"):
        got = ub().ahmed_et_al_bound(given, np.full(N, 1 / N), eps)
    ctx.require(got is not None and abs(float(got) - want) <= 1e-9,
                "quantile bound %r, the (%d+1)-th smallest cost is %r" % (got, k, want))
    ctx.require(list(given) == list(v), "the bound reordered the costs it was given")
    if 0 < k < N - 1 and len(set(v)) > 2:
        ctx.nontrivial = True


@st.composite
def inst(draw, large=False):
    if large:
        d = draw(gen.many(N=(40, 160), n=(2, 4)))
    else:
        d = draw(gen.instance(n=(2, 6), m=(1, 3), N=(2, 11), kmax=4))
    k = gen.tolerated(d["eps"], d["N"])
    return dict(inst=d, part=draw(gen.partition(d["N"], kmin=k + 1, kmax=k + 1)))


def check_inst(case, ctx):
    d, part = case["inst"], case["part"]
    opt = oracle.cc_opt(d)
    k = oracle.K(d)
    with ctx.sut("quantile bound"):
        ci = oracle.load(d)
        ev = sut.Evaluator(ci)
        cs = ev.get_all_single_scenario_costs()
        q = float(ub().ahmed_et_al_bound(cs, ci.get_proba(), ci.get_epsilon()))
    tol = 1.1e-4 * max(1.0, abs(opt)) + 1e-5
    ctx.require(q >= opt - tol, "quantile bound %r below the optimum %r" % (q, opt))
    ref = sorted(oracle.subset_opt(d, [s]) for s in range(d["N"]))[k]
    ctx.require(oracle.close(q, ref, 1.1e-4, 1e-5), "quantile bound %r, (%d+1)-th smallest "
                "optimum %r" % (q, k, ref))
    with ctx.sut("first_iteration_bound"):
        pc, ps = ev.partition_cost([list(p) for p in part])
        x, z, vo, vb = ub().first_iteration_bound(pc, ps)
        vo, vb, z = float(vo), float(vb), [float(t) for t in z]
        x = [float(t) for t in x]
    best = max(oracle.subset_opt(d, p) for p in part)
    ctx.require(vb >= opt - tol, "first bound %r below the optimum %r" % (vb, opt))
    ctx.require(oracle.close(vb, best, 1.1e-4, 1e-5) and oracle.close(vo, best, 1.1e-4, 1e-5),
                "first bound %r / %r, largest subset cost %r" % (vo, vb, best))
    ctx.require(oracle.in_box(x, d["cont"]) and oracle.close(oracle.obj(d, x), vo, 1e-6, 1e-5),
                "first solution %s does not attain %r" % (x, vo))
    A, b, _ = oracle.arrays(d)
    E = oracle.excess(d, x)
    sat = [c for c, p in enumerate(part) if (E[list(p)] <= 1e-5 * (1 + A.max())).all()]
    on = [c for c, t in enumerate(z) if t == 1]
    ctx.require(len(z) == len(part) and len(on) >= 1 and set(on) <= set(sat)
                and all(t in (0.0, 1.0) for t in z),
                "indicators %s, satisfied subsets %s" % (z, sat))
    if k and q > opt + 1e-3:
        ctx.nontrivial = True
    ctx.label("k=%d" % k)


def targets(tier):
    return [dict(name="cost vectors", strategy=costs, check=check_costs,
                 quick=5600, thorough=40000),
            dict(name="instances", strategy=inst, check=check_inst,
                 quick=1200, thorough=6000),
            dict(name="long cost vectors", strategy=lambda: costs(True), check=check_costs,
                 quick=1500, thorough=10000),
            dict(name="many scenarios", strategy=lambda: inst(True), check=check_inst,
                 quick=60, thorough=500)]
