"""C15 Partitioned problems are valid, equivalent relaxations."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import e2e, gen, oracle
from vlib.env import sut


@st.composite
def case(draw, hard):
    if hard == "many":
        d = draw(gen.many(N=(60, 160), n=(4, 8), kmax=12))
    elif hard == "large continuous":
        d = draw(gen.large_cont(N=(16, 36), n=(6, 10), kmax=4))
    elif hard == "near":
        d = draw(gen.near(N=(6, 14), n=(3, 7), m=(1, 3), kmax=3))
    elif hard:
        d = draw(gen.hard_instance(N=(6, 14), n=(3, 7), m=(1, 3), kmax=3))
    else:
        d = draw(gen.instance(n=(1, 6), m=(1, 3), N=(2, 10), kmax=3))
    N, k = d["N"], oracle.K(d)
    first = draw(gen.partition(N, kmin=k + 1))
    chain = [first]
    for _ in range(draw(st.integers(0, 2))):
        p = copy.deepcopy(chain[-1])
        big = [c for c, g in enumerate(p) if len(g) > 1]
        if not big:
            break
        c = draw(st.sampled_from(big))
        cut = draw(st.integers(1, len(p[c]) - 1))
        p.append(p[c][cut:])
        p[c] = p[c][:cut]
        chain.append(p)
    if draw(st.integers(0, 4)) == 0:
        chain.append([[s] for s in draw(st.permutations(range(N)))])
    steps = []
    for p in chain:
        runs = []
        for _ in range(draw(st.integers(1, 3))):
            old = draw(st.integers(0, len(p) + 2))
            runs.append(dict(
                big_m=draw(st.sampled_from([None, "naive", "belotti", "song"])),
                lazy=draw(st.booleans()) or (hard == "near" and draw(st.booleans())),
                slack=draw(st.sampled_from([1e-6, 0.03, 0.5, 100])),
                # current lower bound, in percent of the true optimum
                lb=draw(st.sampled_from([None, 50, 90, 100])),
                via=draw(st.sampled_from(["bounder", "bounder", "solver"])),
                hint=[draw(st.integers(0, 1)) for _ in range(len(p))],
                deleted=old))
        steps.append(dict(part=p, runs=runs))
    return dict(inst=d, steps=steps)


def solve(cs_inst, M, ci, view, finder, part, r, opt, popt, costs, hinted):
    """One solve of the partitioned problem. Returns x, z, objective, bound."""
    M.xUB, M.vUB, M.did_merge = np.full(cs_inst["n"], -5.0), np.inf, False
    if r["big_m"] is not None:
        finder.update_big_M(len(part), popt * (1 + r["slack"]) + 1e-5, method=r["big_m"],
                            chance_instance=ci, partition=part)
    vLB = -np.inf if r["lb"] is None else opt * r["lb"] / 100.0
    if r["via"] == "bounder":
        # positions that existed before some subsets were deleted
        zs, dele, q = [], [], 0
        for i in range(len(part) + 2):
            if i == r["deleted"] or q >= len(part):
                zs.append(float(r["hint"][i % len(part)]))
                dele.append(i)
            else:
                zs.append(float(r["hint"][q]))
                q += 1
        return M.upperbounder.partition_bound(
            M, list(costs), vLB, np.array(zs), dele, finder, 600, r["big_m"] is not None,
            r["lazy"])
    prune = [c for c, v in enumerate(costs) if v <= vLB - 1e-3]
    return M.solve_cclp_model(
        view, finder, z_start={i: 1 for i, h in enumerate(r["hint"]) if h},
        prune_indices=prune, time_limit=600, gap=1e-8,
        use_big_M=r["big_m"] is not None, use_lazy=r["lazy"])


def check(cs, ctx):
    d = cs["inst"]
    k = oracle.K(d)
    big = d["cont"] and d["N"] > 15
    opt_of = oracle.big_opt if big else oracle.cc_opt
    opt = opt_of(d)
    err = 6e-5 if big else 1e-6
    # the last term: coordinates accurate to 1e-6 only matter if the optimum is tiny
    tol = (2e-5 + err) * max(1.0, opt) + 2e-4 + 1e-6 * sum(d["c"]) / 10
    with ctx.sut("loading"):
        ci = oracle.load(d)
        M = e2e.make_adaptive(ci, dict(seed=1, split="random", init="random",
                                       proj="rescaled_max_violation", gap=1e-4))
        view = M.chance_instance_part
        finder = sut.BigMFinder(view)
    last = np.inf
    for stp in cs["steps"]:
        part = stp["part"]
        popt = opt_of(d, part)
        costs = [oracle.subset_opt(d, g) for g in part]
        if popt < opt - err * max(1, opt) or popt > last + err * max(1, opt):
            raise oracle.HarnessError("reference optima are not monotone")
        last = popt
        for r in stp["runs"]:
            what = "partition %s with %s" % (part, r)
            with ctx.sut(what):
                view.load_partition(len(part), copy.deepcopy(part))
                x, z, vo, vb = solve(d, M, ci, view, finder, part, r, opt, popt, costs, None)
                x = None if x is None else [float(v) for v in x]
                z = None if z is None else [float(v) for v in z]
                vo, vb = float(vo), float(vb)
            ctx.require(x is not None, "%s: no solution" % what)
            ctx.require(abs(vo - popt) <= tol and vb >= popt - tol and vb <= popt + tol,
                        "%s: objective %r, bound %r, optimum of the partitioned problem %r" % (
                            what, vo, vb, popt))
            ctx.require(oracle.in_box(x, d["cont"]), "%s: %s out of bounds" % (what, x))
            ctx.require(oracle.close(oracle.obj(d, x), vo, 1e-6, 1e-4),
                        "%s: solution of objective %r for %r" % (what, oracle.obj(d, x), vo))
            A, b, _ = oracle.arrays(d)
            bad = (oracle.excess(d, x) > 1e-5 * (1 + np.abs(A).sum(2)) / 10 + 5e-6).any(1)
            hit = [c for c, g in enumerate(part) if bad[list(g)].any()]
            on = [c for c, t in enumerate(z) if t > 0.5]
            # (the sum: with lazy constraints Gurobi can return an indicator of 2)
            ctx.require(len(hit) <= k and len(z) == len(part)
                        and sum(z) >= len(part) - k - 1e-6
                        and not set(on) & set(hit),
                        "%s: subsets %s violated, indicators %s, %d tolerated" % (what, hit, z, k))
            ctx.label("%s big-M %s" % ("continuous" if d["cont"] else "binary", r["big_m"]),
                      "via " + r["via"])
            if r["lb"] is not None and any(v <= opt * r["lb"] / 100.0 - 1e-3 for v in costs):
                ctx.label("subsets fixed as violated")
        ctx.label("subsets %s" % (len(part) if len(part) < 8 else "8+"))
        if k >= 1 and opt + 1e-3 < popt:
            ctx.nontrivial = True
            ctx.label("strict relaxation")


def targets(tier):
    return [dict(name="broad", strategy=lambda: case(False), check=check,
                 quick=300, thorough=6000),
            dict(name="hard", strategy=lambda: case(True), check=check,
                 quick=550, thorough=10000),
            dict(name="near scenarios", strategy=lambda: case("near"), check=check,
                 quick=110, thorough=3000),
            dict(name="many scenarios", strategy=lambda: case("many"), check=check,
                 quick=40, thorough=600),
            dict(name="large continuous", strategy=lambda: case("large continuous"),
                 check=check, quick=10, thorough=300)]
