"""C17 Adaptive partitioning terminates with the true optimum."""
from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut

# The clock advances by 1 s per reading, so the limit is a bound on the work
# that does not depend on the speed of the machine.
LIMIT = 6000


@st.composite
def case(draw, hard):
    if hard == "ties":
        # many points of the same objective: the bound stands still for a while
        d = draw(gen.many(N=(12, 80), n=(4, 8), m=(1, 3), kmax=10, styles=("int",)))
        o = draw(e2e.adaptive_options())
        return dict(inst=d, opt=dict(o, merge=draw(st.integers(0, 3)) > 0))
    if hard == "crowded":
        # several subsets are split and merged at a time
        d = draw(gen.crowded(cont=draw(st.sampled_from([False, False, True]))))
        return dict(inst=d, opt=dict(draw(e2e.adaptive_options()),
                                     merge=draw(st.integers(0, 4)) > 0))
    if hard == "many":
        d = draw(gen.many(N=(60, 160), n=(4, 8), kmax=12))
    elif hard == "large":
        d = draw(gen.large_binary())
    elif hard == "large continuous":
        d = draw(gen.large_cont())
    elif hard == "flat":
        d = draw(gen.flat_binary(
            n=(36, 44), N=(4, 8), kmax=2, nested=draw(st.integers(0, 2)) > 0))
    elif hard == "lengthy":
        d = draw(gen.lengthy())
    elif hard == "near":
        d = draw(gen.near(n=(3, 10), N=(8, 24)))
    elif hard == "grouped":
        d = draw(gen.grouped(cont=draw(st.sampled_from([False, False, True]))))
    elif hard == "items":
        d = draw(gen.hard_instance(cont=False, n=(12, 24), m=(2, 4), N=(6, 14), kmax=3))
    elif hard:
        d = draw(gen.hard_instance())
    else:
        d = draw(gen.instance(n=(1, 6), m=(1, 4), N=(2, 12), kmax=5))
    if draw(st.integers(0, 5)) == 0:
        f = draw(st.sampled_from([10, 100]))
        d["c"] = [v * f for v in d["c"]]   # steep
    return dict(inst=d, opt=draw(e2e.adaptive_options()))


def check(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.big_opt(d) if d["n"] > 8 or d["N"] > 20 else oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    with ctx.sut(what), clock.virtual(tick=1.0):
        M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
        e2e.run_adaptive(M, o)
        spent = LIMIT - sut.TimeManager.get_remaining_time()
        vLB, vUB, x = float(M.vLB), float(M.vUB), M.xLB
        it = int(M.iteration)
    ctx.require(spent < LIMIT - 1, "%s: still running after %d iterations" % (what, it))
    e2e.require_optimal(ctx, d, opt, o["gap"], vLB, vUB, x, what)
    ctx.nontrivial = it >= 2
    ctx.label("iterations %s" % (it if it < 6 else "6+"),
              "split %s" % o["split"], "init %s" % o["init"], "big-M %s" % o["big_m"],
              "continuous" if d["cont"] else "binary", "merge" if o["merge"] else "no merge")


def targets(tier):
    return [dict(name="broad", strategy=lambda: case(False), check=check,
                 quick=160, thorough=3000),
            dict(name="hard", strategy=lambda: case(True), check=check,
                 quick=360, thorough=7000),
            dict(name="large", strategy=lambda: case("large"), check=check,
                 quick=100, thorough=2000),
            dict(name="many scenarios", strategy=lambda: case("many"), check=check,
                 quick=100, thorough=1500),
            dict(name="equal objectives", strategy=lambda: case("ties"), check=check,
                 quick=120, thorough=2000),
            dict(name="crowded", strategy=lambda: case("crowded"), check=check,
                 quick=80, thorough=3000),
            dict(name="large continuous", strategy=lambda: case("large continuous"),
                 check=check, quick=15, thorough=500),
            dict(name="near scenarios", strategy=lambda: case("near"), check=check,
                 quick=60, thorough=2500),
            dict(name="grouped", strategy=lambda: case("grouped"), check=check,
                 quick=60, thorough=3000),
            dict(name="several iterations", strategy=lambda: case("lengthy"), check=check,
                 quick=60, thorough=2500),
            dict(name="many items", strategy=lambda: case("items"), check=check,
                 quick=16, thorough=800),
            dict(name="flat objectives", strategy=lambda: case("flat"), check=check,
                 quick=60, thorough=2500)]
