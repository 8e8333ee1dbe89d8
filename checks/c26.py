"""C26 Equivalent problems have equal optima; relaxing never lowers them.

No reference optimum: bounds of related problems are compared with each other,
on instances larger than the oracle's. Bounds are valid whenever a solve stops,
so the short time limit of the solves cannot cause an alarm.
"""
import copy
import math

from hypothesis import strategies as st

from vlib import e2e, gen, oracle
from vlib.env import sut

LIMIT = 6

EQUAL = ["scenarios", "items", "rows", "dup row", "sum row", "zero row", "dup scenarios",
         "free scenarios", "scale row", "scale objective", "free item", "useless item"]
MORE = ["risk", "capacity", "coefficients", "objective", "drop row", "drop scenarios",
        "add item", "continuous"]


def widen(d, k):
    """Risk tolerance that tolerates exactly k scenarios."""
    d["eps"] = k / d["N"]


def apply(d, step):
    """The transformed instance; its optimum is at least (equal to, for steps
    in EQUAL) factor * optimum + shift. back maps its points to points of d,
    None if its points need not be feasible for d."""
    kind, r = step["kind"], step["r"]
    e = copy.deepcopy(d)
    n, m, N, k = d["n"], d["m"], d["N"], oracle.K(d)
    f, shift, back = 1, 0, lambda x: x
    i, j = r[0] % m, r[1] % m
    if kind == "scenarios":
        p = sorted(range(N), key=lambda s: (r[s % len(r)] * (s + 7)) % 251)
        e["A"] = [d["A"][s] for s in p]
    elif kind == "items":
        p = sorted(range(n), key=lambda s: (r[s % len(r)] * (s + 7)) % 251)
        e["A"] = [[[row[q] for q in p] for row in sc] for sc in d["A"]]
        e["c"] = [d["c"][q] for q in p]
        inv = [p.index(q) for q in range(n)]
        back = lambda x: [x[q] for q in inv]
    elif kind == "rows":
        p = sorted(range(m), key=lambda s: (r[s % len(r)] * (s + 7)) % 251)
        e["A"] = [[sc[q] for q in p] for sc in d["A"]]
        e["b"] = [d["b"][q] for q in p]
    elif kind == "dup row":
        for sc in e["A"]:
            sc.append(list(sc[i]))
        e["b"].append(d["b"][i])
    elif kind == "sum row":
        for sc in e["A"]:
            sc.insert(0, [u + v for u, v in zip(sc[i], sc[j])])
        e["b"].insert(0, d["b"][i] + d["b"][j])
    elif kind == "zero row":
        for sc in e["A"]:
            sc.insert(i, [0] * n)
        e["b"].insert(i, r[1] % 2 * 10)
    elif kind == "dup scenarios":
        e["A"] = e["A"] + copy.deepcopy(d["A"])
        e["N"] = 2 * N
        widen(e, 2 * k)
    elif kind == "free scenarios":
        for q in range(1 + r[0] % 3):
            e["A"].insert(r[1] % N, [[0] * n for _ in range(m)])
        e["N"] = len(e["A"])
        widen(e, k)
    elif kind == "scale row":
        g = [2, 3, 10, 100][r[2] % 4]
        for sc in e["A"]:
            sc[i] = [v * g for v in sc[i]]
        e["b"][i] *= g
    elif kind == "scale objective":
        f = [2, 3, 10][r[2] % 3]
        e["c"] = [v * f for v in d["c"]]
    elif kind == "free item":
        q = r[0] % (n + 1)
        shift = 10 * (r[1] % 60)
        for sc in e["A"]:
            for row in sc:
                row.insert(q, 0)
        e["c"].insert(q, shift)
        back = lambda x: x[:q] + x[q + 1:]
    elif kind == "useless item":
        q = r[0] % (n + 1)
        for sc in e["A"]:
            for row in sc:
                row.insert(q, r[1] % 40 * 10)
        e["c"].insert(q, 0)
        back = lambda x: x[:q] + x[q + 1:]
    elif kind == "risk":
        widen(e, min(N - 1, k + 1 + r[0] % 2))
        back = None
    elif kind == "capacity":
        e["b"][i] += max(10, d["b"][i] * (1 + r[1] % 10) // 100)
        back = None
    elif kind == "coefficients":
        for q, sc in enumerate(e["A"]):
            if r[q % len(r)] % 2:
                sc[i] = [v * 9 // 10 for v in sc[i]]
        back = None
    elif kind == "objective":
        e["c"][r[0] % n] += 10 + r[1]
    elif kind == "drop row":
        if m > 1:
            for sc in e["A"]:
                del sc[i]
            del e["b"][i]
        back = None
    elif kind == "drop scenarios":
        q = min(1 + r[0] % 3, N - 1 - k)
        del e["A"][:q]
        e["N"] = N - q
        widen(e, k)
        back = None
    elif kind == "add item":
        q = r[0] % (n + 1)
        for s, sc in enumerate(e["A"]):
            for row in sc:
                row.insert(q, 10 + r[s % len(r)])
        e["c"].insert(q, 10 + 5 * r[1])
        back = lambda x: x[:q] + x[q + 1:]
    elif kind == "continuous":
        e["cont"] = True
        back = None
    e["n"], e["m"], e["N"] = len(e["c"]), len(e["b"]), len(e["A"])
    return e, f, shift, back


@st.composite
def method(draw):
    if draw(st.integers(0, 2)):
        return dict(draw(e2e.adaptive_options(gaps=(1e-4, 1e-4, 1e-3))), solver="adaptive")
    return dict(draw(e2e.milp_options(gaps=(1e-4, 1e-4, 1e-3))), solver="milp")


@st.composite
def case(draw, size):
    styles = ("pert", "pert", "fail", "fail", "sparse", "dup", "wide")
    if size == "small":
        d = draw(gen.instance(n=(3, 8), m=(1, 4), N=(6, 20), kmax=5, kmin=1, styles=styles,
                              b_frac=st.integers(15, 70), zero_c=False))
    elif size == "crowded":
        d = draw(gen.crowded())
    elif size == "medium":
        d = draw(gen.instance(n=(8, 20), m=(2, 6), N=(20, 50), kmax=8, kmin=1, styles=styles,
                              b_frac=st.integers(15, 65), zero_c=False))
    else:
        d = draw(gen.instance(n=(5, 12), m=(1, 3), N=(80, 200), kmax=12, kmin=2, styles=styles,
                              b_frac=st.integers(15, 65), zero_c=False))
    steps = draw(st.lists(st.sampled_from(EQUAL), max_size=3))
    if not steps or draw(st.booleans()):
        steps.append(draw(st.sampled_from(MORE)))
    return dict(inst=d, first=draw(method()), second=draw(method()),
                steps=[dict(kind=s, r=list(draw(st.binary(min_size=8, max_size=8))))
                       for s in steps])


def solve(ctx, d, o):
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    with ctx.sut(what):
        if o["solver"] == "milp":
            M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
            e2e.run_milp(M, o)
            it = 2
        else:
            M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
            e2e.run_adaptive(M, o)
            it = int(M.iteration)
        vLB, vUB, x = float(M.vLB), float(M.vUB), M.xLB
    ctx.require(vUB >= vLB - e2e.tol_of(vLB) if math.isfinite(vLB) else not math.isnan(vUB),
                "%s: bounds %r, %r" % (what, vLB, vUB))
    if x is not None:
        x = [float(v) for v in x]
        e2e.require_lower(ctx, d, math.inf, vLB, x, what)
    return vLB, vUB, x, it


def check(cs, ctx):
    d = cs["inst"]
    e, f, shift = d, 1, 0
    equal, backs, kinds = True, [], []
    for step in cs["steps"]:
        new, g, h, back = apply(e, step)
        if new["N"] * (new["m"] + 1) > 1700:      # licence
            continue
        e = new
        equal = equal and step["kind"] in EQUAL
        f, shift = f * g, shift * g + h
        backs.append((back, e["c"]))
        kinds.append(step["kind"])
    LB, UB, x, it1 = solve(ctx, d, cs["first"])
    LB2, UB2, y, it2 = solve(ctx, e, cs["second"])
    lo, hi = f * LB + shift / 10.0, f * UB + shift / 10.0
    what = "%s solve: %r, %r; after %s, %s solve: %r, %r" % (
        cs["first"]["solver"], LB, UB, ", ".join(kinds), cs["second"]["solver"], LB2, UB2)
    if math.isfinite(lo) and math.isfinite(UB2):
        ctx.require(UB2 >= lo - e2e.tol_of(lo), "optimum lower: " + what)
    if equal and math.isfinite(hi) and math.isfinite(LB2):
        ctx.require(LB2 <= hi + e2e.tol_of(hi), "optimum higher: " + what)
    # a solution of the equivalent problem is one of the first
    if y is not None and all(b is not None for b, _ in backs):
        for b, _ in reversed(backs):
            y = b(y)
        nv = oracle.surely_violated(d, y)
        ctx.require(nv <= oracle.K(d), "%s: solution %s violates %d scenarios" % (what, y, nv))
    ctx.nontrivial = min(it1, it2) >= 2 and oracle.K(d) > 0
    ctx.label(*kinds)
    ctx.label("%s-%s" % (cs["first"]["solver"], cs["second"]["solver"]),
              "continuous" if d["cont"] else "binary", "equal" if equal else "relaxed")


def targets(tier):
    return [dict(name="small", strategy=lambda: case("small"), check=check,
                 quick=60, thorough=2500),
            dict(name="crowded", strategy=lambda: case("crowded"), check=check,
                 quick=30, thorough=1500),
            dict(name="medium", strategy=lambda: case("medium"), check=check,
                 quick=30, thorough=1500),
            dict(name="many scenarios", strategy=lambda: case("many"), check=check,
                 quick=15, thorough=800)]
