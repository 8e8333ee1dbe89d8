"""C18 Logged bounds bracket the optimum and never regress."""
import math

from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut
from checks import c16, c17

R = 1.001e-3        # the log has three decimals


OLD = "earlier,run\n1,2.5\n-100000.000,-200000.000,1\n"


def reused(name):
    """A path at which an earlier run left a file."""
    p = e2e.fresh(name)
    with open(p, "w") as f:
        f.write(OLD * 200)
    return p


def num(s):
    return float(s)


def gap_ok(vLB, vUB, g):
    """g is the relative gap, in percent, of the bounds, all rounded."""
    if math.isinf(vLB) or math.isinf(vUB):
        return g == math.inf
    if abs(vLB) <= R:
        return g == math.inf or abs(vUB) <= 2 * R or vUB / max(abs(vLB), 1e-12) * 100 >= g - 1
    err = 100 * (2 * R / vLB + R * abs(vUB - vLB) / vLB ** 2) + R
    return abs(g - 100 * (vUB - vLB) / vLB) <= err + 1e-6 * abs(g)


def judge_rows(ctx, rows, d, opt, what):
    N, k = d["N"], oracle.K(d)
    tol = e2e.tol_of(opt) + R
    last = None
    ctx.require(len(rows) >= 1, "%s: empty log" % what)
    for q, raw in enumerate(rows):
        w = "%s: row %d %s" % (what, q, raw)
        ctx.require(len(raw) == 6, w + ": six fields expected")
        it, t, ml, mu, g, size = [num(v) for v in raw]
        vLB, vUB = -ml, -mu
        ctx.require(vLB <= opt + tol and vUB >= opt - tol,
                    "%s: bounds do not bracket the optimum %r" % (w, opt))
        ctx.require(gap_ok(vLB, vUB, g), w + ": not the relative gap")
        ctx.require(k + 1 <= size <= N and size == int(size), w + ": number of subsets")
        ctx.require(t >= 0 and it >= 1 and it == int(it), w + ": time or iteration number")
        if last is None:
            ctx.require(it == 1 and size == k + 1, w + ": does not start at the minimum")
        else:
            ctx.require(vUB <= last[1] + R, "%s: upper bound rose from %r" % (w, last[1]))
            ctx.require(vLB >= last[0] - R, "%s: lower bound fell from %r" % (w, last[0]))
            ctx.require(t >= last[2] - R, "%s: time fell from %r" % (w, last[2]))
            ctx.require(0 <= it - last[3] <= 1, "%s: iteration after %r" % (w, last[3]))
            ctx.require(it > last[3] or size == last[4], "%s: subsets changed within the "
                        "iteration from %r" % (w, last[4]))
        last = (vLB, vUB, t, it, size)
    return last


def check_adaptive(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.big_opt(d) if d["n"] > 8 or d["N"] > 20 else oracle.cc_opt(d)
    what = "log of a solve with %s" % o
    with ctx.sut("loading"):
        ci = oracle.load(d)
    with ctx.sut(what), clock.virtual(tick=0.25):
        M = e2e.make_adaptive(ci, o, time_limit=c17.LIMIT)
        e2e.run_adaptive(M, o)
        p = reused("log-iter.csv")
        M.write_iteration_details(p)
        rows = e2e.read_rows(p)
        M.write_iteration_details(p)
        twice = e2e.read_rows(p)
        it, vLB, vUB = int(M.iteration), float(M.vLB), float(M.vUB)
    last = judge_rows(ctx, rows, d, opt, what)
    ctx.require(twice == rows, "%s: %s, written again: %s" % (what, rows, twice))
    ctx.require(last[3] == it, "%s: ends at iteration %r, the solve at %d" % (what, last[3], it))
    ctx.require(abs(last[1] - vUB) <= R + 1e-9 * abs(vUB),
                "%s: ends at upper bound %r, the solve at %r" % (what, last[1], vUB))
    ctx.require(last[0] <= vLB + R, "%s: logged lower bound %r, reported %r" % (what, last[0], vLB))
    ctx.nontrivial = len(rows) >= 3
    ctx.label("rows %s" % (len(rows) if len(rows) < 8 else "8+"),
              "merge" if o["merge"] else "no merge")


def check_milp(cs, ctx):
    d = cs["inst"]
    opt = oracle.cc_opt(d)
    tol = e2e.tol_of(opt)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    for o in cs["runs"]:
        what = "bound log of a solve with %s" % o
        with ctx.sut(what), clock.virtual(tick=0.01):
            M = sut.MilpSolver(ci, time_limit=5000, gap=o["gap"])
            p = reused("log-milp.csv")
            e2e.run_milp(M, o, path=p)
            raw = e2e.read_rows(p)
            vLB, vUB = float(M.vLB), float(M.vUB)
        ctx.require(["earlier", "run"] not in raw, "%s: holds rows of an earlier file" % what)
        rows = [[float(v) for v in r] for r in raw]
        last = None
        for q, row in enumerate(rows):
            w = "%s: row %d %s" % (what, q, row)
            ctx.require(len(row) == 3, w + ": three fields expected")
            t, lo, up = row[0], -row[1], -row[2]
            ctx.require(lo <= opt + tol and up >= opt - tol, "%s: optimum %r" % (w, opt))
            ctx.require(lo <= vLB + tol and up >= vUB - tol, "%s: better than the reported %r, %r"
                        % (w, vLB, vUB))
            ctx.require(t >= 0, w + ": negative time")
            if last is not None:
                ctx.require(lo >= last[1] - 1e-6 * (1 + abs(lo)) and
                            up <= last[2] + 1e-6 * (1 + abs(up)) and t >= last[0] - 1e-9,
                            "%s: worse than before %s" % (w, last))
            last = (t, lo, up)
        ctx.nontrivial = ctx.nontrivial or len(rows) >= 3
        ctx.label("rows %s" % (len(rows) if len(rows) < 5 else "5+"))


def targets(tier):
    return [dict(name="adaptive", strategy=lambda: c17.case(True), check=check_adaptive,
                 quick=500, thorough=10000),
            dict(name="several iterations", strategy=lambda: c17.case("lengthy"),
                 check=check_adaptive, quick=60, thorough=2500),
            dict(name="milp", strategy=lambda: c16.case(True), check=check_milp,
                 quick=160, thorough=3000)]
