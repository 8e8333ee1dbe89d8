"""C05 Pairwise violations are exact and memory-safe."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import env, gen, oracle
from vlib.core import Violation
from vlib.env import HarnessError, sut


@st.composite
def tensor(draw, nmax=8, kmax=4, mmax=3, large=False):
    k, m, n = draw(st.integers(1, kmax)), draw(st.integers(1, mmax)), draw(st.integers(1, nmax))
    style = draw(st.sampled_from(["ties", "ties", "bytes", "wide", "equal", "prop"]))
    if large:
        raw = random.Random(draw(gen.seeds())).randbytes(k * m * n)
    else:
        raw = gen.bytes_(draw, k * m * n)
    scale = draw(st.sampled_from([1, 3, 10, 10]))

    def val(byte):
        if style == "ties":
            return (byte % 4) * scale
        if style == "bytes":
            return 0 if byte < 40 else byte
        if style == "wide":
            return 0 if byte < 30 else int(round(10 ** (byte / 64.0)))
        if style == "equal":
            return [0, 5, 5, 7][byte % 4]
        return 1 + byte
    A = [[[val(raw[(s * m + i) * n + j]) for j in range(n)] for i in range(m)]
         for s in range(k)]
    if style == "prop":      # rows proportional to each other: all ratios tie
        base = A[0][0]
        A = [[[v * (1 + (s + i) % 3) for v in base] for i in range(m)] for s in range(k)]
    per_scen = draw(st.booleans())
    b = []
    for s in range(k):
        if s and not per_scen:
            b.append(list(b[0]))
            continue
        row = []
        for i in range(m):
            tot = sum(A[s][i])
            kind = draw(st.integers(0, 5))
            if kind == 0:
                row.append(draw(st.sampled_from([0, tot, tot + 5, max(0, tot - 1)])))
            elif kind == 1:   # exactly the weight of a prefix of the items
                row.append(sum(A[s][i][:draw(st.integers(0, n))]))
            else:
                row.append(tot * draw(st.integers(0, 110)) // 100)
        b.append(row)
    return dict(k=k, m=m, n=n, A=A, b=b)


def exact(case):
    """V[s][t][i] as exact tenths."""
    k, m, A, b = case["k"], case["m"], case["A"], case["b"]
    return [[[min(oracle.frac_knapsack(A[s][i], A[t][l], b[t][l]) for l in range(m))
              - b[s][i] for i in range(m)] for t in range(k)] for s in range(k)]


def as_arrays(case):
    A = np.array(case["A"], dtype=float).reshape(case["k"], case["m"], case["n"]) / 10
    b = np.array(case["b"], dtype=float).reshape(case["k"], case["m"]) / 10
    return np.ascontiguousarray(A), np.ascontiguousarray(b)


def compare(ctx, got, case, who, diag_exact):
    k, m = case["k"], case["m"]
    ex = case["_exact"]
    ctx.require(tuple(got.shape) == (k, k, m), "%s: shape %s" % (who, got.shape))
    scale = 1e-5 * (1 + max(max(max(r) for r in A) for A in case["A"]) / 10)
    for s in range(k):
        for t in range(k):
            for i in range(m):
                e, g = float(ex[s][t][i]) / 10, float(got[s, t, i])
                tol = scale + 1e-9 * abs(e)
                if s != t or diag_exact:
                    ctx.require(abs(g - e) <= tol, "%s: violation of scenario %d row %d "
                                "against scenario %d is %r, exact %r" % (who, s, i, t, g, e))
                else:
                    ctx.require(min(e, 0) - tol <= g <= tol, "%s: diagonal (%d, row %d) is "
                                "%r, exact %r" % (who, s, i, g, e))


def check(case, ctx):
    case = dict(case)
    case["_exact"] = exact(case)
    A, b = as_arrays(case)
    A0, b0 = A.copy(), b.copy()
    with ctx.sut("compiled compute_all_violations"):
        v = np.array(sut.cpp_violations(A, b), dtype=float)
    ctx.require(np.array_equal(A, A0) and np.array_equal(b, b0),
                "the compiled routine modified its inputs")
    compare(ctx, v, case, "compiled", False)
    with ctx.sut("python compute_all_violations"):
        p = np.array(sut.py_violations(A, b), dtype=float)
    ctx.require(np.array_equal(A, A0) and np.array_equal(b, b0),
                "the Python routine modified its inputs")
    compare(ctx, p, case, "python", True)
    # another order of items and scenarios
    rs = np.random.RandomState(case["n"] * 31 + case["k"])
    pi, ps = rs.permutation(case["n"]), rs.permutation(case["k"])
    A2 = np.ascontiguousarray(A[ps][:, :, pi])
    b2 = np.ascontiguousarray(b[ps])
    with ctx.sut("compiled compute_all_violations (reordered)"):
        v2 = np.array(sut.cpp_violations(A2, b2), dtype=float)
    want = v[np.ix_(ps, ps)]
    off = ~np.eye(case["k"], dtype=bool)
    tol = 1e-5 * (1 + A.max())
    ctx.require(bool((np.abs(v2 - want)[off] <= tol + 1e-8 * np.abs(want[off])).all()),
                "reordering items and scenarios changes the result")
    if case["n"] > 16:
        ctx.label("more than 16 items")
    if case["k"] >= 2 and case["n"] >= 2:
        ctx.nontrivial = True


# ------------------------------------------------------------ memory safety
class Sanitized:
    """A child process with the address/undefined-behaviour-sanitised build."""
    proc = None

    @classmethod
    def start(cls):
        ext = env.build_ext(sanitize=True)
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        e = env.child_env()
        e["LD_PRELOAD"] = lib
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
        e["PYTHONMALLOC"] = "malloc"
        cls.err = open(os.path.join(env.scratch(), "asan.err"), "w+")
        cls.proc = subprocess.Popen([env.PY, os.path.join(env.VERIF, "vlib", "asan_child.py"), ext],
                                    env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                    stderr=cls.err, text=True)
        if cls.proc.stdout.readline().strip() != "ready":
            cls.err.seek(0)
            raise HarnessError("sanitised child did not start: " + cls.err.read()[-1500:])

    @classmethod
    def run(cls, case):
        if cls.proc is None or cls.proc.poll() is not None:
            cls.start()
        try:
            cls.proc.stdin.write(json.dumps(case) + "\n")
            cls.proc.stdin.flush()
            line = cls.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if line:
            return json.loads(line)
        rc = cls.proc.wait()
        cls.err.seek(0)
        text = cls.err.read()
        cls.proc = None
        key = [ln for ln in text.splitlines() if "ERROR:" in ln or "runtime error" in ln]
        return dict(crash="exit %s %s" % (rc, key[0][:200] if key else text[-200:]))


def check_asan(case, ctx):
    r = Sanitized.run(dict(k=case["k"], m=case["m"], n=case["n"], A=case["A"], b=case["b"]))
    ctx.require("crash" not in r, "sanitised run: %s" % r.get("crash"))
    ctx.require(r.get("inputs_unchanged", False), "inputs modified")
    if case["n"] > 16:
        ctx.label("more than 16 items")
    if case["k"] >= 2:
        ctx.nontrivial = True


def targets(tier):
    # the sanitised target comes first: it reports a memory error precisely
    return [dict(name="sanitised", strategy=lambda: tensor(40, 4), check=check_asan,
                 quick=3600, thorough=20000),
            dict(name="exact", strategy=lambda: tensor(8, 4), check=check,
                 quick=6000, thorough=30000),
            dict(name="exact-many-items", strategy=lambda: tensor(40, 3), check=check,
                 quick=2400, thorough=12000),
            dict(name="sanitised, large", strategy=lambda: tensor(70, 16, 12, True),
                 check=check_asan, quick=150, thorough=3000),
            dict(name="exact, large", strategy=lambda: tensor(10, 9, 8, True), check=check,
                 quick=150, thorough=3000)]
