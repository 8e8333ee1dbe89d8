"""C02 Feasibility verdicts match the chance constraint."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle

DELTAS = [1e-3, 1e-4, 1e-5, 5e-6, 1e-7, 1e-8, 0.0, -1e-8, -1e-6, -1e-5, -1e-3]


@st.composite
def case(draw, large=False):
    if large:
        d = draw(gen.many())
        d["cont"] = draw(st.booleans())
    else:
        d = draw(gen.instance(n=(1, 7), m=(1, 4), N=(1, 14)))
    if not large and draw(st.booleans()):
        for N, e in [draw(st.sampled_from([(10, 1 - 0.9), (10, 1 - 0.7), (5, 1 - 0.8),
                                           (20, 1 - 0.9), (22, 15 / 22),
                                           (25, 0.28), (25, 0.56), (50, 0.58)]))]:
            style = draw(gen.data(n=(1, 3), m=(1, 2), N=(N, N)))
            style["cont"], style["eps"] = d["cont"], e
            d = style
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        x = draw(gen.point(d["n"], True))
        op = dict(x=x, call=draw(st.sampled_from(["check", "check", "is_feasible"])))
        if draw(st.integers(0, 2)) == 0:
            op["near"] = [draw(st.integers(0, d["N"] - 1)), draw(st.integers(0, d["m"] - 1)),
                          draw(st.integers(0, d["n"] - 1)), draw(st.sampled_from(DELTAS))]
        ops.append(op)
    # aim right-hand sides at the points, so that verdicts vary around the
    # tolerated number of violated scenarios
    if draw(st.booleans()):
        k = gen.tolerated(d["eps"], d["N"])
        A = np.array(d["A"], dtype=float).reshape(d["N"], d["m"], d["n"])
        lhs = sorted((A[:, 0, :] @ np.array(ops[0]["x"])).tolist())
        pos = max(0, min(d["N"] - 1, d["N"] - 1 - k + draw(st.integers(-1, 1))))
        d["b"] = [int(lhs[pos])] + [int(A[:, i, :].sum(1).max()) for i in range(1, d["m"])]
    return dict(inst=d, ops=ops, one_array=draw(st.booleans()))


def place(d, op):
    x = np.array(op["x"], dtype=float)
    if "near" in op:
        s, i, j, delta = op["near"]
        A, b, _ = oracle.arrays(d)
        if A[s, i, j] > 0:
            rest = float(A[s, i] @ x) - A[s, i, j] * x[j]
            v = (b[i] + delta - rest) / A[s, i, j]
            if -1e-6 <= v <= 1 + 1e-6:
                x[j] = v
    return x


def reference(d, x):
    """None if too close to the tolerance to call."""
    A, b, _ = oracle.arrays(d)
    E = oracle.excess(d, x)
    if ((E > 4e-7) & (E < 2.5e-6)).any():
        return None
    bad = E > 1e-6
    norm = np.sqrt((A ** 2).sum(2))
    inf = np.where(bad, E / np.where(norm > 0, norm, 1), 0.0).max(1)
    return bad.any(1), inf


def check(case, ctx):
    d = case["inst"]
    N, k = d["N"], oracle.K(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    last, buf = None, np.zeros(d["n"])
    for q, op in enumerate(case["ops"]):
        x = place(d, op)
        ref = reference(d, x)
        if ref is None:
            ctx.label("too close to tolerance")
            continue
        viol, inf = ref
        cnt = int(viol.sum())
        given = x.copy()
        if case.get("one_array"):
            buf[:] = x                  # the caller reuses its array
            given = buf
        with ctx.sut(op["call"]):
            if op["call"] == "check":
                verdict = bool(ci.check_feasibility(given))
                last = (viol, inf)
            else:
                out = ci.is_feasible(given)
                verdict, flags = bool(out[0]), [bool(v) for v in out[3]]
                ctx.require(flags == viol.tolist(), "is_feasible reports violated %s, "
                            "truth is %s" % (flags, viol.tolist()))
                ctx.require(int(out[1]) == cnt, "is_feasible counts %s violated, truth %d"
                            % (out[1], cnt))
        ctx.require(verdict == (cnt <= k), "call %d (%s): verdict %s with %d violated of %d, "
                    "epsilon %r tolerates %d" % (q, op["call"], verdict, cnt, N, d["eps"], k))
        if cnt in (k, k + 1):
            ctx.nontrivial = True
            ctx.label("at the tolerated number" if cnt == k else "one too many")
        if "near" in op:
            ctx.label("near a boundary")
        if last is not None:
            viol, inf = last
            with ctx.sut("reading results of the last check"):
                got_inf = np.array(ci.get_sum_infeasibility(), dtype=float)
                feas = [bool(v) for v in ci.get_feasible_scenarios()]
                lst = [int(s) for s in ci.infeasible_scenarios]
                flags = [bool(v) for v in ci.is_scenario_infeasible]
            ctx.require(lst == [s for s in range(N) if viol[s]],
                        "violated scenarios %s, truth %s" % (lst, np.where(viol)[0].tolist()))
            ctx.require(flags == viol.tolist(), "violation flags %s" % flags)
            ctx.require(feas == (~viol).tolist(), "get_feasible_scenarios %s" % feas)
            ctx.require(got_inf.shape == (N,) and bool(
                (np.abs(got_inf - inf) <= 1e-9 + 1e-7 * inf).all()),
                "infeasibility %s, truth %s" % (got_inf.tolist(), inf.tolist()))
            if op["call"] != "check":
                ctx.label("read after a later is_feasible")


def targets(tier):
    return [dict(name="verdict", strategy=case, check=check, quick=7200, thorough=40000),
            dict(name="many scenarios", strategy=lambda: case(True), check=check,
                 quick=1200, thorough=8000)]
