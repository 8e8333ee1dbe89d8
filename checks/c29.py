"""C29 The printed account of a solve is true."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut
from checks import c17

NUM = r"[-+]?(?:\d[\d.]*(?:[eE][-+]?\d+)?|inf|nan)"
FOUND = re.compile(r"optimal solution[^\[\n]*\[([^\]]*)\]\s*with objective:?\s*(%s)" % NUM, re.I)
ITER = re.compile(r"-\s+Iteration (\d+) -.*?Best vUB:\s*(\S+).*?Best vLB:\s*(\S+).*?Gap:\s*(\S+)",
                  re.S)
COST = re.compile(r"with scenarios:?\s*\[([^\]]*)\]\s*(?:has cost:?|is)\s*(%s)" % NUM)
VERDICT = re.compile(r"infeasible scenarios:\s*(\d+)\s.*?infeas\. scenarios:\s*(%s)\s.*?"
                     r"feasible:\s*(True|False)" % NUM, re.S)
IMPROVED = re.compile(r"(?:increasing vLB|Improve lower bound) from\s+(%s)\s+to\s+(%s)" % (NUM, NUM))
QUANTILE = re.compile(r"Quantile upper bound is: (%s)" % NUM)


def ints(text):
    return [int(v) for v in re.findall(r"\d+", re.sub(r"np\.int\d*", "", text))]


@st.composite
def case(draw, kind):
    c = draw(c17.case(True if kind == "stopped" else kind))
    if kind == "stopped":
        c["at"] = draw(st.integers(0, 1000))
    return c


def solve(cs, ci, at, ctx, what):
    """Output, bounds and whether the clock ran out."""
    o = cs["opt"]
    buf = io.StringIO()
    limit = c17.LIMIT
    with ctx.sut(what), contextlib.redirect_stdout(buf), \
            clock.virtual(tick=1.0 if at is None else 1e-4, jump_at=at, jump=limit + 1.0) as S:
        M = e2e.make_adaptive(ci, o, time_limit=limit)
        e2e.run_adaptive(M, o)
        calls = S.calls
    return buf.getvalue(), M, calls


def check(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.big_opt(d) if d["n"] > 8 or d["N"] > 20 else oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    at = None
    if "at" in cs:
        _, _, calls = solve(cs, ci, None, ctx, what)
        at = 2 + cs["at"] * max(calls - 1, 0) // 1000
        what += " stopped at reading %d of %d" % (at, calls)
    text, M, _ = solve(cs, ci, at, ctx, what)
    vLB, vUB = float(M.vLB), float(M.vUB)
    ctx.require(not re.search(r"^Error", text, re.M), "%s reports an error: %s" % (
        what, text[max(text.find("Error"), 0):][:200]))
    judge_found(ctx, cs, d, o, opt, vLB, vUB, text, what)
    its = judge_iterations(ctx, d, opt, vLB, vUB, text, what)
    judge_costs(ctx, d, text, what)
    t = oracle.K(d)
    for n, allowed, ok in VERDICT.findall(text):
        ctx.require((int(n) <= t) == (ok == "True") and abs(float(allowed) - d["eps"] * d["N"])
                    < 1e-6 * d["N"], "%s: %s scenarios violated, %s tolerated, feasible: %s" % (
                        what, n, allowed, ok))
    for a, b in IMPROVED.findall(text):
        ctx.require(float(a) < float(b) <= opt + e2e.tol_of(opt) and float(b) <= vLB + 1e-6,
                    "%s: reports the lower bound to rise from %s to %s, final one %r, optimum %r"
                    % (what, a, b, vLB, opt))
    for v in QUANTILE.findall(text):
        ctx.require(float(v) >= opt - e2e.tol_of(opt), "%s: reports the quantile bound %s, "
                    "optimum %r" % (what, v, opt))
    ctx.nontrivial = its >= 2
    ctx.label("iterations %d" % min(its, 6))


def judge_found(ctx, cs, d, o, opt, vLB, vUB, text, what):
    found = FOUND.findall(text)
    ctx.require(len(found) <= 1, "%s announces %d optimal solutions" % (what, len(found)))
    if not found:
        # stopped, if only after the bounds had met
        ctx.require("at" in cs, "%s: bounds %r, %r, but no solution announced" % (what, vLB, vUB))
        ctx.label("nothing announced")
        return
    x = [float(v) for v in found[0][0].split()]
    v = float(found[0][1])
    w = "%s announces %s with objective %r" % (what, x, v)
    tol = e2e.tol_of(opt)
    ctx.require(len(x) == d["n"] and oracle.in_box(x, d["cont"]), w + ": outside the bounds")
    ctx.require(oracle.surely_violated(d, x) <= oracle.K(d), "%s: it violates %d scenarios, %d "
                "tolerated" % (w, oracle.surely_violated(d, x), oracle.K(d)))
    # the announced value may be either of two bounds that meet
    g = o["gap"] * abs(opt) + tol
    ctx.require(abs(oracle.obj(d, x) - v) <= g, "%s: its objective is %r" % (w, oracle.obj(d, x)))
    ctx.require(abs(v - opt) <= g, "%s: the optimum is %r" % (w, opt))
    ctx.require(vUB - vLB <= o["gap"] * abs(vLB) * (1 + 1e-6) + 1e-5 + 1e-8 * abs(vLB),
                "%s, the bounds are %r and %r" % (w, vLB, vUB))
    ctx.label("announced" if "at" not in cs else "announced, stopped")


def judge_iterations(ctx, d, opt, vLB, vUB, text, what):
    rows = ITER.findall(text)
    tol = e2e.tol_of(opt) + 6e-3            # two decimals
    last = (-math.inf, math.inf)
    for q, (it, ub, lb, gap) in enumerate(rows):
        w = "%s: reports %s" % (what, (it, ub, lb, gap))
        ub, lb, gap = float(re.sub(r"^0+(?=inf)", "", ub)), float(
            re.sub(r"^0+(?=inf)", "", lb)), float(re.sub(r"^0+(?=inf)", "", gap))
        ctx.require(int(it) == q + 1, w + " as iteration number %d" % (q + 1))
        ctx.require(lb <= opt + tol and ub >= opt - tol, "%s: optimum %r" % (w, opt))
        ctx.require(lb >= last[0] - 1e-9 and ub <= last[1] + 1e-9, "%s after %s" % (w, last))
        ctx.require(lb <= vLB + 6e-3 + 1e-9 * abs(opt) and ub >= vUB - 6e-3 - 1e-9 * abs(opt),
                    "%s: final bounds %r, %r" % (w, vLB, vUB))
        if not math.isfinite(ub) or not math.isfinite(lb) or lb <= 1e-6:
            ctx.require(not gap < 0, w + ": negative gap")
        else:
            # of bounds rounded by up to 0.005
            lo = 100 * (ub - lb - .0102) / (lb + .0051)
            hi = 100 * (ub - lb + .0102) / max(lb - .0051, 1e-9)
            ctx.require(lo - .0052 <= gap <= hi + .0052, w + ": gap of the bounds in [%r, %r]" % (
                lo, hi))
        last = (lb, ub)
    return len(rows)


def judge_costs(ctx, d, text, what):
    memo = {}
    for sub, v in COST.findall(text)[:40]:
        key = tuple(sorted(ints(sub)))
        ctx.require(len(key) > 0 and key[-1] < d["N"] and len(set(key)) == len(key),
                    "%s: reports the subset %s" % (what, sub))
        if key not in memo:
            memo[key] = oracle.subset_opt(d, list(key))
        ctx.require(oracle.close(float(v), memo[key], 1.1e-4, 1e-5), "%s: reports the cost %s of "
                    "scenarios %s, optimum %r" % (what, v, list(key), memo[key]))
        ctx.label("cost")


@st.composite
def points(draw):
    d = draw(gen.many() if draw(st.integers(0, 3)) == 0 else gen.instance(N=(1, 14)))
    return dict(inst=d, xs=draw(st.lists(gen.point(d["n"], d["cont"]), min_size=1, max_size=4)))


def check_points(cs, ctx):
    d = cs["inst"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
    for x in cs["xs"]:
        V = oracle.violated_set(d, x)
        if V != oracle.violated_set(d, x, 4e-7) or V != oracle.violated_set(d, x, 2.5e-6):
            continue
        buf = io.StringIO()
        with ctx.sut("check_feasibility"), contextlib.redirect_stdout(buf):
            ci.check_feasibility(np.array(x))
        m = VERDICT.findall(buf.getvalue())
        ctx.require(len(m) == 1, "%d summaries of one point" % len(m))
        n, allowed, ok = m[0]
        ctx.require(int(n) == len(V) and (ok == "True") == (len(V) <= oracle.K(d))
                    and abs(float(allowed) - d["eps"] * d["N"]) < 1e-6 * d["N"],
                    "point %s: summary %s, violated are %d, tolerated %r" % (
                        x, m[0], len(V), d["eps"] * d["N"]))
        if V and len(V) < d["N"]:
            ctx.nontrivial = True


def targets(tier):
    return [dict(name="hard", strategy=lambda: case(True), check=check,
                 quick=300, thorough=6000),
            dict(name="crowded", strategy=lambda: case("crowded"), check=check,
                 quick=60, thorough=2500),
            dict(name="equal objectives", strategy=lambda: case("ties"), check=check,
                 quick=60, thorough=2000),
            dict(name="many scenarios", strategy=lambda: case("many"), check=check,
                 quick=40, thorough=1000),
            dict(name="near scenarios", strategy=lambda: case("near"), check=check,
                 quick=40, thorough=2000),
            dict(name="several iterations", strategy=lambda: case("lengthy"), check=check,
                 quick=40, thorough=2000),
            dict(name="stopped", strategy=lambda: case("stopped"), check=check,
                 quick=200, thorough=4000),
            dict(name="summary of a point", strategy=points, check=check_points,
                 quick=900, thorough=6000)]
