"""C01 Loading an instance file reproduces its data."""
import csv
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def raw_file(draw, large=False):
    if large:
        n, m, N = draw(st.integers(1, 24)), draw(st.integers(1, 12)), draw(st.integers(10, 150))
        rnd = random.Random(draw(gen.seeds()))
        if n * m * N > 9000:
            m = max(1, 9000 // (n * N))
    else:
        n, m, N = draw(st.integers(1, 8)), draw(st.integers(1, 5)), draw(st.integers(1, 12))
        rnd = None
    unit = draw(st.sampled_from([10000, 1000, 100, 10, 1]))
    size = draw(st.sampled_from([1, 1, 7, 300]))

    def block(k):
        by = rnd.randbytes(2 * k) if rnd else gen.bytes_(draw, 2 * k)
        return [((by[2 * q] << 8) + by[2 * q + 1]) * size + by[2 * q] % size for q in range(k)]
    # plain non-negative numbers of 'unit' decimals; unit 10000 is 4 decimals
    return dict(n=n, m=m, N=N, unit=unit, c=block(n),
                A=[[block(n) for _ in range(m)] for _ in range(N)], b=block(m),
                extra=draw(st.lists(st.integers(0, 99), max_size=2)),
                eol=draw(st.sampled_from(["\n", "\r\n"])),
                cont=draw(st.booleans()), eps=draw(gen.risk(N)),
                name=draw(st.sampled_from(["inst", "ccmknap-3-2-5-1", "a.b-2", "x y"])))


def strat(large=False):
    return st.lists(raw_file(large), min_size=1, max_size=3 - large)


def write(f, path):
    u = f["unit"]
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh, lineterminator=f["eol"])
        w.writerow([f["n"], f["m"], f["N"]] + f["extra"])
        w.writerow([v / u for v in f["c"]])
        for s in f["A"]:
            for row in s:
                w.writerow([v / u for v in row])
        w.writerow([v / u for v in f["b"]])


def rounded(ctx, got, raw, unit, what):
    got = np.asarray(got, dtype=float)
    raw = np.asarray(raw, dtype=float) / unit
    ctx.require(got.shape == raw.shape, "%s has shape %s, file has %s" % (
        what, got.shape, raw.shape))
    ctx.require(bool((np.abs(got - raw) <= 0.05 + 1e-9 * (1 + np.abs(raw))).all()),
                "%s differs from the file" % what)
    t = got * 10
    ctx.require(bool((np.abs(t - np.round(t)) <= 1e-9 * (1 + np.abs(t))).all()),
                "%s not rounded to one decimal" % what)


def verify(ctx, ci, f, when):
    n, m, N = f["n"], f["m"], f["N"]
    with ctx.sut("reading getters"):
        dims = (int(ci.get_nb_vars()), int(ci.get_nb_scenarios()),
                [int(ci.get_nb_constraints(s)) for s in range(N)])
        A_all = np.array(ci.get_matrices_A(), dtype=float)
        b_all = np.array(ci.get_vectors_b(), dtype=float)
        A_s = [np.array(ci.get_matrix_A(s), dtype=float) for s in range(N)]
        b_s = [np.array(ci.get_vector_b(s), dtype=float) for s in range(N)]
        c = np.array(ci.get_vector_c(), dtype=float)
        pr = np.array(ci.get_proba(), dtype=float)
        eps = float(ci.get_epsilon())
        vt = [bool(v) for v in ci.get_var_type()]
        lb = [float(v) for v in ci.get_var_lb()]
        ub = [float(v) for v in ci.get_var_ub()]
        name = ci.get_file_name()
    ctx.require(dims == (n, N, [m] * N), "%s: dimensions %s" % (when, dims))
    rounded(ctx, A_all, f["A"], f["unit"], when + ": constraint tensor")
    rounded(ctx, b_all, [f["b"]] * N, f["unit"], when + ": right-hand sides")
    rounded(ctx, c, f["c"], f["unit"], when + ": objective")
    for s in range(N):
        rounded(ctx, A_s[s], f["A"][s], f["unit"], "%s: rows of scenario %d" % (when, s))
        rounded(ctx, b_s[s], f["b"], f["unit"], "%s: rhs of scenario %d" % (when, s))
    ctx.require(pr.shape == (N,) and bool((np.abs(pr - 1 / N) < 1e-9).all())
                and abs(pr.sum() - 1) < 1e-9, "%s: probabilities %s" % (when, pr))
    ctx.require(eps == f["eps"], "%s: epsilon %r" % (when, eps))
    ctx.require(vt == [f["cont"]] * n, "%s: variable types %s" % (when, vt))
    if f["cont"]:
        ctx.require(lb == [0] * n and ub == [1] * n, "%s: bounds %s %s" % (when, lb, ub))
    else:
        ctx.require(len(lb) == n and len(ub) == n and max(lb) <= 0 and min(ub) >= 1,
                    "%s: bounds cut off binary values" % when)
    ctx.require(name == f["name"], "%s: file name %r" % (when, name))


def check(case, ctx):
    loaded = []
    for f in case:
        p = oracle.path_of(f["name"] + ".csv")
        write(f, p)
        with ctx.sut("loading a well-formed file"):
            ci = sut.ChanceKnapInstance(p, f["cont"], f["eps"])
        loaded.append((ci, f))
        for q, (ci, g) in enumerate(loaded):
            verify(ctx, ci, g, "file %d after %d loads" % (q, len(loaded)))
    ctx.label("files %d" % len(case))
    if any(f["N"] > 1 and f["m"] > 1 and f["n"] > 1 for f in case):
        ctx.nontrivial = True
    if any(f["unit"] >= 100 for f in case):
        ctx.label("more than one decimal")


def targets(tier):
    return [dict(name="load", strategy=strat, check=check, quick=2800, thorough=12000),
            dict(name="large files", strategy=lambda: strat(True), check=check,
                 quick=120, thorough=2000)]
