"""C23 Generated instances are faithful samples of their source."""
import contextlib
import csv
import glob
import os
import runpy
import shutil
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import REPO, sut

SCRIPT = os.path.join(REPO, "data", "cc-instances", "knapsack", "instance-generator.py")


@st.composite
def case(draw):
    n, m = draw(st.integers(1, 12)), draw(st.integers(1, 8))
    raw = gen.bytes_(draw, n * m)
    scale = draw(st.sampled_from([1, 1, 10]))       # integers or tenths
    A = [[0 if raw[i * n + j] < 60 else raw[i * n + j] - 55 for j in range(n)]
         for i in range(m)]
    return dict(n=n, m=m, A=A, scale=scale,
                c=[draw(st.integers(1, 2000)) for _ in range(n)],
                b=[draw(st.integers(0, 3000)) for _ in range(m)],
                N=draw(st.sampled_from([1, 2, 3, 7, 20, 60])), count=draw(st.integers(1, 4)),
                extra=draw(st.booleans()), tail=draw(st.booleans()),
                seed=draw(st.integers(0, 2 ** 31)))


@contextlib.contextmanager
def seeded(seed):
    """The generator takes fresh entropy; a fixed seed makes cases repeatable."""
    real = np.random.default_rng
    ss = np.random.SeedSequence(seed)

    def rng(s=None):
        return real(ss.spawn(1)[0] if s is None else s)
    np.random.default_rng = rng
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        yield
    finally:
        np.random.default_rng = real
        np.random.set_state(state)


def generate(cs, where):
    src = os.path.join(where, "source.txt")

    def num(v):
        return str(v) if cs["scale"] == 1 else "%g" % (v / cs["scale"])
    with open(src, "w") as f:
        f.write(" ".join([str(cs["n"]), str(cs["m"])] + (["3800"] if cs["extra"] else [])) + "\n")
        f.write(" ".join(num(v) for v in cs["c"]) + "\n")
        for row in cs["A"]:
            f.write(" ".join(num(v) for v in row) + "\n")
        f.write(" ".join(num(v) for v in cs["b"]) + "\n")
        if cs["tail"]:
            f.write("3800\n")
    argv, cwd = sys.argv, os.getcwd()
    os.chdir(where)
    try:
        sys.argv = [SCRIPT, src, str(cs["N"]), str(cs["count"])]
        with seeded(cs["seed"]):
            runpy.run_path(SCRIPT, run_name="__main__")
    finally:
        sys.argv = argv
        os.chdir(cwd)
        os.remove(src)


def check(cs, ctx):
    n, m, N = cs["n"], cs["m"], cs["N"]
    where = oracle.path_of("generated")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    with ctx.sut("generating", allow=()):
        generate(cs, where)
    names = ["ccmknap-%d-%d-%d-%d.csv" % (n, m, N, i) for i in range(1, cs["count"] + 1)]
    got = sorted(os.path.basename(p) for p in glob.glob(os.path.join(where, "*")))
    ctx.require(got == sorted(names), "wrote %s, expected %s" % (got, names))
    src = np.array(cs["A"], dtype=float) / cs["scale"]
    seen = []
    for name in names:
        p = os.path.join(where, name)
        with open(p, newline="") as f:
            rows = [r for r in csv.reader(f) if r]
        ctx.require(len(rows) == 3 + N * m, "%s has %d rows" % (name, len(rows)))
        try:
            rows = [[float(v) for v in r] for r in rows]
        except ValueError:
            ctx.fail("%s is not numeric" % name)
        ctx.require(rows[0][:3] == [n, m, N], "%s: header %s" % (name, rows[0]))
        ctx.require(np.allclose(rows[1], np.array(cs["c"]) / cs["scale"], atol=1e-9)
                    and len(rows[1]) == n, "%s: objective %s" % (name, rows[1]))
        ctx.require(len(rows[-1]) == m and np.allclose(
            rows[-1], np.array(cs["b"]) / cs["scale"], atol=1e-9),
            "%s: right-hand side %s" % (name, rows[-1]))
        ctx.require(all(len(r) == n for r in rows[2:-1]), "%s: row lengths" % name)
        A = np.array(rows[2:-1]).reshape(N, m, n)
        ctx.require((A >= 0).all(), "%s: negative coefficient" % name)
        ctx.require((A[:, src == 0] == 0).all(), "%s: a zero coefficient became positive" % name)
        for j in range(n):
            pos = src[:, j] > 0
            if not pos.any():
                continue
            Z = A[:, pos, j] == 0
            ctx.require((Z.any(1) == Z.all(1)).all(), "%s: item %d fails in some constraints only"
                        % (name, j))
            alive = ~Z.all(1)
            ratio = A[alive][:, pos, j] / src[pos, j]
            ctx.require(((ratio > 0.15) & (ratio < 1.85)).all(),
                        "%s: item %d: coefficient %r times its source" % (
                            name, j, float(ratio[(ratio <= .15) | (ratio >= 1.85)][0])
                            if ratio.size and not ((ratio > .15) & (ratio < 1.85)).all() else 0))
            if alive.sum() >= 5:
                ctx.require(len(np.unique(ratio)) > 1, "%s: item %d is not perturbed" % (name, j))
            q = ratio.size
            if q >= 20:
                ctx.require(abs(ratio.mean() - 1) < 0.1 * 8 / np.sqrt(q), "%s: item %d: mean "
                            "perturbation %r over %d values" % (name, j, ratio.mean(), q))
        if (A > 0).sum() >= 4:
            ctx.require(not any(B.shape == A.shape and np.array_equal(A, B)
                                for B in seen), "%s repeats another instance" % name)
        seen.append(A)
        with ctx.sut("loading " + name):
            ci = sut.ChanceKnapInstance(p, True, 0.1)
            ok = (ci.get_nb_vars() == n and ci.get_nb_scenarios() == N
                  and ci.get_nb_constraints(0) == m
                  and np.abs(np.array(ci.get_matrices_A()) - A).max() <= 0.0501
                  and np.abs(np.array(ci.get_vectors_b())[0] - rows[-1]).max() <= 0.0501
                  and np.abs(np.array(ci.get_vector_c()) - rows[1]).max() <= 0.0501)
        ctx.require(ok, "%s does not load as written" % name)
    ctx.nontrivial = N > 1 and m > 1 and bool((src == 0).any()) and cs["count"] > 1
    ctx.label("scenarios %d" % N, "instances %d" % cs["count"])


@st.composite
def sample(draw):
    """Large enough for statistics."""
    n, m = draw(st.integers(10, 14)), draw(st.integers(2, 3))
    raw = gen.bytes_(draw, n * m)
    return dict(n=n, m=m, A=[[20 + raw[i * n + j] for j in range(n)] for i in range(m)],
                scale=1, c=[1] * n, b=[1] * m, N=draw(st.sampled_from([1500, 2000])),
                count=draw(st.integers(4, 5)), extra=False, tail=False,
                seed=draw(st.integers(0, 2 ** 31)))


def check_sample(cs, ctx):
    """All limits are more than six standard deviations away."""
    n, m, N, Q = cs["n"], cs["m"], cs["N"], cs["count"]
    where = oracle.path_of("sampled")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    with ctx.sut("generating", allow=()):
        generate(cs, where)
    src = np.array(cs["A"], dtype=float)
    rates, everything = [], []
    for q in range(1, Q + 1):
        p = os.path.join(where, "ccmknap-%d-%d-%d-%d.csv" % (n, m, N, q))
        A = np.loadtxt(p, delimiter=",", skiprows=2, max_rows=N * m).reshape(N, m, n)
        os.remove(p)
        R = A / src
        dead = (R == 0).all(1)                        # N x n
        rates.append(dead.mean(0))
        everything.append(R)
        X = dead - dead.mean(0)
        some = (dead.sum(0) >= 100) & (dead.sum(0) <= N - 100)
        C = np.corrcoef(X[:, some].T) if some.sum() > 1 else np.eye(1)
        worst = np.abs(C - np.eye(len(C))).max()
        ctx.require(worst < 0.25, "instance %d: failures of two items are correlated by %.2f"
                    % (q, worst))
        for j in range(n):
            V = R[~dead[:, j]][:, :, j]
            if len(V) < 600:
                continue
            sd = V.std(0)
            ctx.require(((sd > 0.08) & (sd < 0.12)).all() and
                        (np.abs(V.mean(0) - 1) < 0.03).all(),
                        "instance %d: item %d is perturbed by mean %s, deviation %s" % (
                            q, j, V.mean(0), sd))
            ctx.require(abs(np.corrcoef(V.T)[0, 1]) < 0.27 and
                        abs(np.corrcoef(V[1:, 0], V[:-1, 0])[0, 1]) < 0.27,
                        "instance %d: perturbations of item %d depend on each other" % (q, j))
            ok = ~dead[:, j] & ~dead[:, (j + 1) % n]
            if ok.sum() >= 600:
                c = np.corrcoef(R[ok][:, 0, j], R[ok][:, 0, (j + 1) % n])[0, 1]
                ctx.require(abs(c) < 0.27, "instance %d: perturbations of items %d and %d are "
                            "correlated by %.2f" % (q, j, (j + 1) % n, c))
    F = np.array(rates)
    ctx.require(0.02 < F.mean() < 0.25, "items fail at a mean rate of %.3f" % F.mean())
    noise = (F * (1 - F) / N).mean()
    ctx.require(F.var(1).mean() > 3 * noise, "all items of an instance fail at the same rate: %s"
                % F.round(3).tolist())
    ctx.require(max(np.abs(F[0] - f).max() for f in F[1:]) > 0.06, "items fail at the same rates "
                "in all instances: %s" % F.round(3).tolist())
    ctx.nontrivial = True
    ctx.label("mean failure rate %.2f" % F.mean())


def targets(tier):
    return [dict(name="generate", strategy=case, check=check, quick=1500, thorough=8000),
            dict(name="statistics", strategy=sample, check=check_sample, quick=14, thorough=200)]
