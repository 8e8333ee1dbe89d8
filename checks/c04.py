"""C04 A big-M value never cuts off a feasible point."""
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, cont, large=False):
    if large:
        d = draw(gen.bulk(n=(4, 10), m=(1, 6), N=(10, 36), cont=cont))
    else:
        d = draw(gen.instance(n=(2, 6), m=(1, 3), N=(2, 9 if not cont else 7), cont=cont,
                              kmax=5 if not cont else 3))
    k = gen.tolerated(d["eps"], d["N"])
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(dict(method=draw(st.sampled_from(["song", "song", "belotti", "naive"])),
                          part=draw(gen.partition(d["N"], kmin=k + 1)),
                          ub=draw(st.integers(0, 100))))
    return dict(inst=d, steps=steps, plain=draw(st.booleans()),
                pick=draw(st.integers(0, 2 ** 16)))


def rows_of(d, part):
    """(subset, row index in the subset, scenario, row)"""
    for c, p in enumerate(part):
        for q, s in enumerate(p):
            for i in range(d["m"]):
                yield c, q * d["m"] + i, s, i


def check(case, ctx):
    d = case["inst"]
    N, m, n, k = d["N"], d["m"], d["n"], oracle.K(d)
    A, b, c = oracle.arrays(d)
    tot = float(c.sum())
    with ctx.sut("loading"):
        ci = oracle.load(d)
        if case["plain"]:
            finder, target = sut.BigMFinder(ci), ci
        else:
            target = sut.PartitionChanceKnapInstance(ci)
            target.load_partition(len(case["steps"][0]["part"]), case["steps"][0]["part"])
            finder = sut.BigMFinder(target)
    if not d["cont"]:
        X, V = oracle.bin_violated(d)
        cx = X @ oracle.ints(d)[2] / 10.0
        lhs = np.einsum("smn,xn->xsm", A, X)
    rnd = random.Random(case["pick"])
    for q, stp in enumerate(case["steps"]):
        part = [[s] for s in range(N)] if case["plain"] else stp["part"]
        ub = tot * stp["ub"] / 100.0 + 0.05
        method = stp["method"]
        with ctx.sut("big-M %s" % method):
            if case["plain"] and q == 0 and method != "naive":
                # first use: the entry points used by the extended formulation
                if method == "song":
                    finder.run_song_et_al_big_m(ci)
                else:
                    finder.run_belotti_et_al_big_M(ub)
            else:
                if not case["plain"]:
                    target.load_partition(len(part), part)
                finder.update_big_M(len(part), ub, method=method, chance_instance=ci,
                                    partition=None if case["plain"] else part)
            M = [[float(v) for v in finder.get_vector_big_M(t)] for t in range(len(part))]
        naive = A.sum(2) - b[None, :]
        tight = []
        for t, j, s, i in rows_of(d, part):
            ctx.require(len(M[t]) == m * len(part[t]), "subset %d has %d big-M values" % (
                t, len(M[t])))
            tol = 1e-6 * (1 + abs(naive[s, i])) + 2e-6
            ctx.require(M[t][j] <= max(naive[s, i], 0.0) + tol, "step %d: %s big-M %r of scenario %d "
                        "row %d above the naive one %r" % (q, method, M[t][j], s, i, naive[s, i]))
            if method == "naive":
                ctx.require(abs(M[t][j] - naive[s, i]) <= tol, "naive big-M %r, sum of the "
                            "coefficients less rhs is %r" % (M[t][j], naive[s, i]))
            elif M[t][j] < naive[s, i] - tol:
                tight.append((t, j, s, i))
        ctx.label(method, "plain" if case["plain"] else "partitioned")
        if tight:
            ctx.nontrivial = True
            ctx.label("tightened " + method)
        if not d["cont"]:
            G = np.stack([V[:, p].any(1) for p in part], axis=1)
            ok = G.sum(1) <= k
            if method == "belotti":
                ok &= cx <= ub - 1e-7
            if not ok.any():
                continue
            for t, j, s, i in tight:
                e = lhs[ok, s, i].max() - b[i]
                tol = 1e-5 * (1 + abs(e))
                ctx.require(e <= M[t][j] + tol, lambda: "step %d: %s big-M %r of scenario %d row"
                            " %d, but a feasible point exceeds the rhs by %r (%s)" % (
                                q, method, M[t][j], s, i, e,
                                X[ok][lhs[ok, s, i].argmax()].tolist()))
        else:
            rnd.shuffle(tight)
            tight.sort(key=lambda r: M[r[0]][r[1]] - naive[r[2], r[3]])
            for t, j, s, i in tight[:2] + tight[-2:]:
                worst(ctx, d, part, k, A, b, c, ub if method == "belotti" else None,
                      s, i, M[t][j], "step %d: %s" % (q, method))


def worst(ctx, d, part, k, A, b, c, ub, s, i, M, what):
    """Largest excess of row (s, i) over all points that may be feasible."""
    tree = oracle.LPTree(d, part, limit=400)
    tree.c = A[s, i]
    if ub is not None:     # one more group, never dropped, for the objective
        for g in range(len(tree.rows)):
            tree.rows[g] = np.concatenate([tree.rows[g], c[None, :]])
            tree.rhs[g] = np.concatenate([tree.rhs[g], [ub]])
        if k >= len(part):
            return
        # rows of dropped groups carry the bound as well, so repeat it: keep it
        # in every group; at least one group stays as k < number of groups
    v, x, _ = tree.best(k)
    e = v - b[i]
    tol = 1e-5 * (1 + abs(e)) + 1e-6 * float(A.max())
    ctx.require(e <= M + tol, lambda: "%s big-M %r of scenario %d row %d, but a feasible point "
                "exceeds the rhs by %r (%s)" % (what, M, s, i, e, x.tolist()))


def targets(tier):
    return [dict(name="binary", strategy=lambda: case(False), check=check,
                 quick=1750, thorough=12000),
            dict(name="continuous", strategy=lambda: case(True), check=check,
                 quick=1000, thorough=6000),
            dict(name="large binary", strategy=lambda: case(False, True), check=check,
                 quick=60, thorough=1500)]
