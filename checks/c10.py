"""C10 Refining a partition excludes the point with minimal splits."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.core import Skip
from vlib.env import sut


@st.composite
def setup(draw, nN=(4, 14), nn=(1, 5), nm=(1, 3)):
    """Instance, point, partition meeting the precondition by construction."""
    d = draw(gen.data(n=nn, m=nm, N=nN))
    N = d["N"]
    d["cont"] = draw(st.booleans())
    x = draw(gen.point(d["n"], d["cont"]))
    if not any(x):
        x[0] = 1.0
    A = np.array(d["A"], dtype=float).reshape(N, d["m"], d["n"])
    lhs = A @ np.array(x)
    # right-hand side of the first row: order statistic of the left-hand sides,
    # so that a chosen number of scenarios is violated; the others loose or not
    want = draw(st.integers(2, N - 1))
    srt = np.sort(lhs[:, 0])
    d["b"] = [int(srt[N - 1 - want])] + [
        int(A[:, i].sum(1).max()) if draw(st.integers(0, 2)) else int(np.sort(lhs[:, i])[-1 - (want // 3)])
        for i in range(1, d["m"])]
    d["eps"] = 0.0
    V = oracle.violated_set(d, x)
    F = [s for s in range(N) if s not in V]
    # subsets with violated scenarios v <= k < |V|, and k+1-v free subsets at least
    ks = [k for k in range(1, len(V)) if max(1, k + 1 - len(F)) <= k]
    if not ks:
        return None
    k = draw(st.sampled_from(ks))
    v = draw(st.integers(max(1, k + 1 - len(F)), k))
    frac = draw(st.sampled_from([0, 0.5]))
    d["eps"] = (k + frac) / N
    if draw(st.booleans()):
        d["eps"] = 1 - (N - k) / N
    V, F = draw(st.permutations(V)), draw(st.permutations(F))
    groups = [[V[i]] for i in range(v)]
    for s in V[v:]:
        groups[draw(st.integers(0, v - 1))].append(s)
    free = k + 1 - v + draw(st.integers(0, max(0, len(F) - (k + 1 - v))))
    groups += [[F[i]] for i in range(free)]
    for s in F[free:]:
        groups[draw(st.integers(0, len(groups) - 1))].append(s)
    order = draw(st.permutations(range(len(groups))))
    part = [draw(st.permutations(groups[c])) for c in order]
    more = [draw(gen.point(d["n"], d["cont"])) for _ in range(draw(st.integers(0, 2)))]
    return dict(inst=d, part=part, xs=[x] + more, seed=draw(gen.seeds()),
                rounds=draw(st.integers(1, 4)), pick=draw(st.integers(0, 40)))


def eligible(d, part, x):
    """The violated scenarios, if a refinement at x is called for."""
    k = oracle.K(d)
    V = set(oracle.violated_set(d, x))
    hit = [c for c, p in enumerate(part) if V & set(p)]
    if len(V) <= k or len(hit) > k or not hit:
        return None
    if oracle.violated_set(d, x, 4e-7) != oracle.violated_set(d, x, 2.5e-6):
        return None
    return V


def next_point(case, part, q, pool):
    """The first point is given; later ones are picked among the points that
    call for another refinement of the partition reached."""
    d = case["inst"]
    if q == 0:
        return case["xs"][0]
    some = pool[(case["pick"] * q) % len(pool):] + pool
    for x in some:
        if eligible(d, part, x):
            return x
    return None


def pool_of(case):
    n = case["inst"]["n"]
    return case["xs"][1:] + [[float(v >> j & 1) for j in range(n)] for v in range(1, 2 ** n)]


def check(case, ctx, kind):
    if case is None:
        ctx.label("no valid tolerance")
        return
    d = case["inst"]
    N, k = d["N"], oracle.K(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        if kind == "random":
            ref = sut.RandomRefiner(ci, use_acc_obj=False)
        else:
            ref = sut.CostRefiner(ci, use_acc_obj=True)
        ev = sut.Evaluator(ci)
    random.seed(case["seed"])
    part = [list(p) for p in case["part"]]
    pool = pool_of(case)
    for q in range(case["rounds"]):
        x = next_point(case, part, q, pool)
        V = x and eligible(d, part, x)
        if not V:
            break
        hit = [c for c, p in enumerate(part) if V & set(p)]
        mu = k + 1 - len(hit)
        given = copy.deepcopy(part)
        with ctx.sut("refine (%s)" % kind):
            feas = ci.check_feasibility(np.array(x, dtype=float))
            ctx.require(not feas, "point accepted although it violates %d > %d" % (len(V), k))
            if kind == "cost":
                costs, _ = ev.partition_cost(copy.deepcopy(part))
                ref.subset_costs = list(costs)
                ref.vUB = max(costs)
            nb, new = ref.refine(given, np.array(x, dtype=float))
            new = [[int(s) for s in p] for p in new]
            fresh = sorted(set(int(c) for c in ref.new_subsets))
            fs = sorted(int(c) for c in ref.feasible_subsets)
        ctx.require(given == part, "refine modified the partition it was given")
        ctx.require(oracle.is_partition(new, N), "not a partition: %s" % new)
        ctx.require(int(nb) == len(new), "reported %s subsets, has %d" % (nb, len(new)))
        ctx.require(len(new) == len(part) + mu, "%d subsets became %d, %d splits were needed" % (
            len(part), len(new), mu))
        owner = {s: c for c, p in enumerate(part) for s in p}
        for c, p in enumerate(new):
            o = set(owner[s] for s in p)
            ctx.require(len(o) == 1, "subset %s mixes scenarios of old subsets %s" % (p, o))
            if c < len(part):
                ctx.require(o == {c}, "subset %d holds scenarios of old subset %s" % (c, o))
        now = [c for c, p in enumerate(new) if V & set(p)]
        ctx.require(len(now) == k + 1, "the point violates %d subsets after refining, %d tolerated"
                    % (len(now), k))
        changed = [c for c in range(len(new))
                   if c >= len(part) or set(new[c]) != set(part[c])]
        ctx.require(fresh == changed, "reported new subsets %s, changed are %s" % (fresh, changed))
        ctx.require(fs == [c for c in range(len(new)) if c not in now],
                    "reported feasible subsets %s of %s" % (fs, new))
        ctx.nontrivial = ctx.nontrivial or (mu >= 1 and len(part) > 1)
        ctx.label("splits %d" % min(mu, 4), "round %d" % q)
        part = new


def targets(tier):
    return [dict(name="random", strategy=setup, check=lambda c, x: check(c, x, "random"),
                 quick=4200, thorough=25000),
            dict(name="cost", strategy=lambda: setup((4, 9), (1, 4)),
                 check=lambda c, x: check(c, x, "cost"), quick=540, thorough=3000),
            dict(name="random, many scenarios", strategy=lambda: setup((40, 120), (1, 4), (1, 2)),
                 check=lambda c, x: check(c, x, "random"), quick=300, thorough=2000)]
