"""C16 The extended-formulation solver finds the true optimum."""
from hypothesis import strategies as st

from vlib import e2e, gen, oracle
from vlib.env import sut


@st.composite
def case(draw, hard):
    if hard == "many":
        d = draw(gen.many(n=(3, 7), kmax=20))
    elif hard == "large":
        d = draw(gen.large_binary())
    elif hard == "large continuous":
        d = draw(gen.large_cont())
    elif hard == "near":
        d = draw(gen.near(n=(3, 10), N=(8, 24)))
    elif hard == "items":
        d = draw(gen.hard_instance(cont=False, n=(12, 24), m=(2, 4), N=(6, 14), kmax=3))
    elif hard:
        d = draw(gen.hard_instance(zero_c=True))
    else:
        d = draw(gen.instance(n=(1, 7), m=(1, 4), N=(2, 14), kmax=5))
    if draw(st.integers(0, 5)) == 0:
        f = draw(st.sampled_from([10, 100]))
        d["c"] = [v * f for v in d["c"]]   # steep
    return dict(inst=d, runs=[draw(e2e.milp_options())
                              for _ in range(draw(st.integers(1, 3)))])


def check(cs, ctx):
    d = cs["inst"]
    opt = oracle.big_opt(d) if d["n"] > 8 or d["N"] > 20 else oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    worst = oracle.subset_opt(d, range(d["N"]))
    for o in cs["runs"]:
        what = "solve with %s" % o
        with ctx.sut(what):
            M = sut.MilpSolver(ci, time_limit=600, gap=o["gap"])
            e2e.run_milp(M, o)
            vLB, vUB, x = float(M.vLB), float(M.vUB), M.xLB
        e2e.require_optimal(ctx, d, opt, o["gap"], vLB, vUB, x, what)
        ctx.label("%s %s" % ("continuous" if d["cont"] else "binary", o["big_m"]),
                  "k=%d" % min(oracle.K(d), 5))
    if opt > worst + 1e-3 and opt < oracle.obj(d, [1] * d["n"]) - 1e-3:
        ctx.nontrivial = True


def targets(tier):
    return [dict(name="broad", strategy=lambda: case(False), check=check,
                 quick=360, thorough=4000),
            dict(name="hard", strategy=lambda: case(True), check=check,
                 quick=240, thorough=3000),
            dict(name="large", strategy=lambda: case("large"), check=check,
                 quick=90, thorough=1500),
            dict(name="many scenarios", strategy=lambda: case("many"), check=check,
                 quick=40, thorough=600),
            dict(name="large continuous", strategy=lambda: case("large continuous"),
                 check=check, quick=15, thorough=400),
            dict(name="near scenarios", strategy=lambda: case("near"), check=check,
                 quick=40, thorough=1500),
            dict(name="many items", strategy=lambda: case("items"), check=check,
                 quick=16, thorough=500)]
