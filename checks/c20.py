"""C20 Warm-start hints follow the surviving subsets."""
import inspect

import numpy as np
from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut

LIMIT = 4000


@st.composite
def call(draw, large=False):
    n = draw(st.integers(15, 200) if large else st.integers(0, 14))
    z = draw(st.lists(st.sampled_from([0.0, 0.0, 1.0, 1.0, -0.0]),
                      min_size=n, max_size=n))
    dele = draw(st.permutations(range(n)))[:draw(st.integers(0, n))] if n else []
    return dict(z=z, deleted=list(dele), kind=draw(st.sampled_from(["list", "array", "ints"])))


def strat(large=False):
    return st.lists(call(large), min_size=1, max_size=4)


def check(case, ctx):
    with ctx.sut("Warmstarter()"):
        w = sut.Warmstarter()
    results = []
    for q, c in enumerate(case):
        z = list(c["z"])
        if c["kind"] == "array":
            z = np.array(z, dtype=float)
        elif c["kind"] == "ints":
            z = [int(v) for v in z]
        dele = list(c["deleted"])
        with ctx.sut("get_z_start"):
            h = w.get_z_start(z, dele)
            got = {int(a): float(b) for a, b in dict(h).items()}
        want = {i - sum(1 for e in c["deleted"] if e < i): 1.0
                for i, v in enumerate(c["z"]) if v == 1 and i not in c["deleted"]}
        ctx.require(got == want, "call %d: hint %s, expected %s for z=%s deleted=%s" % (
            q, got, want, c["z"], c["deleted"]))
        ctx.require([float(v) for v in z] == [float(v) for v in c["z"]]
                    and dele == c["deleted"], "get_z_start modified its arguments")
        results.append((h, want))
        for h0, w0 in results:
            ctx.require({int(a): float(b) for a, b in h0.items()} == w0,
                        "a later call changed an earlier hint")
        if c["deleted"] and want:
            ctx.nontrivial = True
            if len(c["deleted"]) > 1:
                ctx.label("several deleted")
            if c["deleted"] != sorted(c["deleted"]):
                ctx.label("deleted not sorted")


@st.composite
def solve_case(draw, kind):
    if kind == "several iterations":
        d = draw(gen.lengthy())
    elif kind == "grouped":
        d = draw(gen.grouped())
    elif kind == "crowded":
        d = draw(gen.crowded(cont=draw(st.sampled_from([False, False, True]))))
    else:
        d = draw(gen.hard_instance())
    o = draw(e2e.adaptive_options(gaps=(1e-4, 1e-4, 1e-2)))
    o["merge"] = draw(st.integers(0, 5)) > 0
    return dict(inst=d, opt=o)


def check_solve(cs, ctx):
    """The hints of every partitioned problem of a solve: a subset that the last upper
    bound selected, and that is still a subset, is hinted at its position; one that it
    did not select, and that is still a subset, is not. Subsets that were split or
    merged may be hinted or not."""
    d, o = cs["inst"], cs["opt"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    last = []
    sizes = []

    def note(M, z):
        if z is not None and len(z) == len(M.partition):
            last[:] = [([frozenset(int(s) for s in p) for p in M.partition],
                        [float(v) for v in z])]
        else:
            last[:] = []

    with ctx.sut(what), clock.virtual(tick=1.0):
        M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
        inner, sign = M.solve_cclp_model, inspect.signature(M.solve_cclp_model)
        ub = M.upperbounder
        first = ub.first_iteration_bound

        def first_bound(*a, **k):
            out = first(*a, **k)
            note(M, out[1])
            return out

        def solve_cclp(*a, **k):
            h = sign.bind(*a, **k).arguments.get("z_start")
            h = {int(p): float(v) for p, v in dict(h).items()} if h is not None else {}
            part = [frozenset(int(s) for s in p) for p in M.partition]
            ctx.require(all(0 <= p < len(part) for p in h),
                        "hints %s for %d subsets" % (h, len(part)))
            if last:
                old, z = last[0]
                for p, q in enumerate(part):
                    if q not in old:
                        continue
                    v = z[old.index(q)]
                    if v == 1:
                        ctx.require(h.get(p) == 1, "iteration %d: subset %d, %s, was selected "
                                    "last and is not hinted: %s" % (M.iteration, p, sorted(q), h))
                        ctx.label("selected subset hinted")
                    elif v < 0.5:
                        ctx.require(h.get(p, 0) < 0.5, "iteration %d: subset %d, %s, was not "
                                    "selected last and is hinted: %s" % (
                                        M.iteration, p, sorted(q), h))
                if any(p < q for p in old for q in part):
                    ctx.label("after a merge")
                ctx.nontrivial = True
            sizes.append(len(part))
            out = inner(*a, **k)
            note(M, out[1])
            return out

        ub.first_iteration_bound = first_bound
        M.solve_cclp_model = solve_cclp
        M.solve(sut.BigMFinder(M.chance_instance_part), use_big_M=o["big_m"] is not None,
                big_m_method=o["big_m"] or "naive", use_merger=o["merge"], use_lazy=o["lazy"])
    ctx.label("problems %d" % min(len(sizes), 6))


def targets(tier):
    extra = [dict(name="solve, " + k, strategy=lambda k=k: solve_case(k), check=check_solve,
                  quick=q, thorough=t)
             for k, q, t in (("hard", 120, 2000), ("crowded", 40, 2000), ("grouped", 40, 2000),
                             ("several iterations", 120, 2000))]
    return extra + [dict(name="hints", strategy=strat, check=check, quick=9000, thorough=60000),
            dict(name="long hints", strategy=lambda: strat(True), check=check,
                 quick=400, thorough=5000)]
