"""Reference computations, independent of the code under test. They work on
the case data (integers in tenths), not on what the code loaded."""
import csv
import itertools
import math
import os

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, linprog, milp

from vlib import env
from vlib.core import Skip
from vlib.env import HarnessError, sut
from vlib.gen import tolerated

_count = [0]


def path_of(name):
    return os.path.join(env.scratch(), name)


def write_instance(case, path, header_extra=()):
    with open(path, "w", newline="\n") as f:
        w = csv.writer(f)
        w.writerow([case["n"], case["m"], case["N"]] + list(header_extra))
        w.writerow([v / 10 for v in case["c"]])
        for s in range(case["N"]):
            for row in case["A"][s]:
                w.writerow([v / 10 for v in row])
        w.writerow([v / 10 for v in case["b"]])


def load(case, name="inst.csv", cont=None, eps=None):
    p = path_of(name)
    write_instance(case, p)
    return sut.ChanceKnapInstance(
        p, case["cont"] if cont is None else cont,
        case["eps"] if eps is None else eps)


def arrays(case):
    """A (N,m,n), b (m,), c (n,) in natural units."""
    return (np.array(case["A"], dtype=float).reshape(
        case["N"], case["m"], case["n"]) / 10,
        np.array(case["b"], dtype=float) / 10,
        np.array(case["c"], dtype=float) / 10)


def ints(case):
    return (np.array(case["A"], dtype=np.int64).reshape(
        case["N"], case["m"], case["n"]),
        np.array(case["b"], dtype=np.int64), np.array(case["c"], dtype=np.int64))


def K(case):
    return tolerated(case["eps"], case["N"])


# ---------------------------------------------------------------- binary
def all_points(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=np.int64)


def bin_violated(case):
    """X (all points), V[x, s] whether scenario s is violated (exact)."""
    A, b, c = ints(case)
    X = all_points(case["n"])
    lhs = np.einsum("smn,xn->xsm", A, X)
    return X, (lhs > b[None, None, :]).any(2)


# ---------------------------------------------------------------- LP
def lp_max(c, rows, rhs, ub=1.0):
    """max c x, rows x <= rhs, 0 <= x <= ub. Returns value, x, row duals."""
    n = len(c)
    rows = np.asarray(rows, dtype=float).reshape(-1, n)
    rhs = np.asarray(rhs, dtype=float).reshape(-1)
    r = linprog(-np.asarray(c, dtype=float), A_ub=rows if len(rows) else None,
                b_ub=rhs if len(rows) else None, bounds=[(0, ub)] * n,
                method="highs")
    if r.status != 0:
        raise HarnessError("reference LP failed: %s" % r.message)
    du = -r.ineqlin.marginals if len(rows) else np.zeros(0)
    return -r.fun, r.x, du


def subset_opt(case, subset, cont=None):
    """Optimum of the deterministic problem over the scenarios in subset."""
    cont = case["cont"] if cont is None else cont
    if not cont and case["n"] > 14:
        return big_opt(dict(case, N=len(subset), cont=False,
                            A=[case["A"][s] for s in subset]), k=0)
    if not cont:
        X, V = bin_violated(case)
        c = ints(case)[2]
        ok = ~V[:, list(subset)].any(1)
        return float((X[ok] @ c).max()) / 10
    A, b, c = arrays(case)
    rows = A[list(subset)].reshape(-1, case["n"])
    return lp_max(c, rows, np.tile(b, len(subset)))[0]


class LPTree:
    """Continuous optimum when up to k groups of scenarios may be dropped.

    To improve on an LP optimum, a dropped set must contain a group with a
    positive dual (otherwise the dual solution stays feasible). Branching on
    these groups is therefore exact.
    """
    def __init__(self, case, groups, limit=4000):
        A, b, c = arrays(case)
        self.c = c
        self.groups = [list(g) for g in groups]
        self.rows = [A[g].reshape(-1, case["n"]) for g in self.groups]
        self.rhs = [np.tile(b, len(g)) for g in self.groups]
        self.memo = {}
        self.limit = limit

    def node(self, dropped):
        if dropped in self.memo:
            return self.memo[dropped]
        if len(self.memo) > self.limit:
            raise Skip("reference optimum too expensive")
        keep = [g for g in range(len(self.groups)) if g not in dropped]
        if keep:
            rows = np.concatenate([self.rows[g] for g in keep])
            rhs = np.concatenate([self.rhs[g] for g in keep])
        else:
            rows, rhs = np.zeros((0, len(self.c))), np.zeros(0)
        v, x, du = lp_max(self.c, rows, rhs)
        active, p = [], 0
        for g in keep:
            q = p + len(self.rhs[g])
            if (du[p:q] > 1e-9).any():
                active.append(g)
            p = q
        self.memo[dropped] = (v, x, active)
        return self.memo[dropped]

    def best(self, k, dropped=frozenset()):
        todo, seen, best = [dropped], {dropped}, (-1.0, None, None)
        while todo:
            d = todo.pop()
            v, x, active = self.node(d)
            if v > best[0]:
                best = (v, x, d)
            if len(d) - len(dropped) < k:
                for g in active:
                    e = d | {g}
                    if e not in seen:
                        seen.add(e)
                        todo.append(e)
        return best


def cc_opt(case, partition=None, k=None):
    """Optimum of the (partitioned) chance-constrained problem."""
    N = case["N"]
    groups = [[s] for s in range(N)] if partition is None else partition
    k = K(case) if k is None else k
    if not case["cont"]:
        X, V = bin_violated(case)
        c = ints(case)[2]
        G = np.stack([V[:, list(g)].any(1) for g in groups], axis=1)
        return float((X[G.sum(1) <= k] @ c).max()) / 10
    return LPTree(case, groups).best(k)[0]


def cc_point(case):
    """An optimal point of the chance-constrained problem."""
    k = K(case)
    if not case["cont"]:
        X, V = bin_violated(case)
        v = np.where(V.sum(1) <= k, X @ ints(case)[2], -1)
        return X[int(v.argmax())].astype(float)
    return LPTree(case, [[s] for s in range(case["N"])]).best(k)[1]


def _milp(case, groups, k, integral):
    """HiGHS on the naive big-M formulation: result object."""
    A, b, c = arrays(case)
    n, G = case["n"], len(groups)
    big = np.maximum(A.sum(2) - b[None, :], 0.0)
    rows, rhs = [], []
    for g, p in enumerate(groups):
        for s in p:
            for i in range(case["m"]):
                r = np.zeros(n + G)
                r[:n], r[n + g] = A[s, i], -big[s, i]
                rows.append(r)
                rhs.append(b[i])
    r = np.zeros(n + G)
    r[n:] = 1.0
    rows.append(r)
    rhs.append(float(k))
    r = milp(-np.concatenate([c, np.zeros(G)]),
             constraints=LinearConstraint(np.array(rows), -np.inf, np.array(rhs)),
             integrality=np.array([int(integral)] * n + [1] * G), bounds=Bounds(0, 1),
             options=dict(mip_rel_gap=1e-9 if integral else 1e-7, time_limit=60))
    if r.status != 0:
        raise Skip("reference optimum too expensive")
    return r


_env = []


def _second_milp(case, groups, k, integral):
    """The same model solved by Gurobi: points and indicators, None if it is too
    large for the licence or not solved."""
    import gurobipy as gp
    A, b, c = arrays(case)
    n, G, m = case["n"], len(groups), case["m"]
    if n + G > 2000 or sum(len(p) for p in groups) * m + 1 > 2000:
        return None
    if not _env:
        _env.append(gp.Env(params={"OutputFlag": 0}))
    big = np.maximum(A.sum(2) - b[None, :], 0.0)
    with gp.Model(env=_env[0]) as M:
        for name, v in (("MIPGap", 1e-9), ("IntFeasTol", 1e-9), ("FeasibilityTol", 1e-9),
                        ("Threads", 1), ("TimeLimit", 60)):
            M.setParam(name, v)
        x = M.addMVar(n, ub=1, vtype="B" if integral else "C")
        z = M.addMVar(G, vtype="B")
        for g, p in enumerate(groups):
            for s in p:
                for i in range(m):
                    M.addConstr(A[s, i] @ x - big[s, i] * z[g] <= b[i])
        M.addConstr(z.sum() <= k)
        M.setObjective(c @ x, gp.GRB.MAXIMIZE)
        M.optimize()
        return (np.array(x.X), np.array(z.X)) if M.Status == 2 else None


def _verified(case, groups, k, x, z):
    """Value of a point found by a MILP solver, recomputed: exactly (binary) or
    by the LP with its indicators fixed (continuous). None if it is no good."""
    if not case["cont"]:
        A, b, c = ints(case)
        x = np.round(x).astype(np.int64)
        V = (A @ x > b[None, :]).any(1)
        if ((x < 0) | (x > 1)).any() or sum(bool(V[list(p)].any()) for p in groups) > k:
            return None
        return float(c @ x) / 10
    if (z >= 0.5).sum() > k:
        return None
    return subset_opt(case, [s for g, p in enumerate(groups) if z[g] < 0.5 for s in p])


def big_opt(case, partition=None, k=None):
    """cc_opt for instances too large for enumeration: LP branching while it is
    cheap (continuous), otherwise the better of the verified points found by two
    MILP solvers (HiGHS alone can be wrong: it has reported a poor point as
    optimal)."""
    if not case["cont"] and case["n"] <= 14:
        return cc_opt(case, partition, k)
    k = K(case) if k is None else k
    groups = [[s] for s in range(case["N"])] if partition is None else partition
    if case["cont"]:
        try:
            return LPTree(case, groups, limit=1500).best(k)[0]
        except Skip:
            pass
    n = case["n"]
    r = _milp(case, groups, k, not case["cont"])
    found = [_verified(case, groups, k, r.x[:n], r.x[n:])]
    other = _second_milp(case, groups, k, not case["cont"])
    if other is not None:
        found.append(_verified(case, groups, k, *other))
    if None in found or max(found) < -r.fun - 2e-5 * max(1.0, abs(r.fun)):
        raise Skip("reference optimum not accurate")
    return max(found)


# ---------------------------------------------------------------- knapsack
def frac_knapsack(profit, weight, cap):
    """max profit.x, weight.x <= cap, 0<=x<=1, exact on Fractions/ints."""
    from fractions import Fraction
    tot = Fraction(0)
    items = []
    for p, w in zip(profit, weight):
        if p <= 0:
            continue
        if w == 0:
            tot += p
        else:
            items.append((Fraction(p, w) if isinstance(p, int) else Fraction(p) / w,
                          p, w))
    items.sort(key=lambda t: t[0], reverse=True)
    rem = Fraction(cap)
    for _, p, w in items:
        if rem <= 0:
            break
        if w <= rem:
            tot += p
            rem -= w
        else:
            tot += Fraction(p) * rem / w
            rem = Fraction(0)
    return tot


# ---------------------------------------------------------------- points
def excess(case, x):
    """E[s, i] = A[s,i] x - b[i] in natural units (float64)."""
    A, b, _ = arrays(case)
    return A @ np.asarray(x, dtype=float) - b[None, :]


def violated_set(case, x, tol=1e-6):
    return [s for s, r in enumerate((excess(case, x) > tol).any(1)) if r]


def surely_violated(case, x):
    """Number of scenarios violated beyond any solver tolerance."""
    A, b, _ = arrays(case)
    E = excess(case, x)
    tol = 1e-5 * (1 + np.abs(A).sum(2)) / 10 + 5e-6
    return int((E > tol).any(1).sum())


def obj(case, x):
    return float(arrays(case)[2] @ np.asarray(x, dtype=float))


def close(a, b, rel=2e-4, ab=1e-4):
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def in_box(x, cont, tol=1e-5):
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        return False
    if (x < -tol).any() or (x > 1 + tol).any():
        return False
    return cont or bool((np.abs(x - np.round(x)) <= tol).all())


def is_partition(parts, N):
    flat = [int(s) for p in parts for s in p]
    return sorted(flat) == list(range(N)) and all(len(p) > 0 for p in parts)


def norm(parts):
    """Plain lists of ints, subset contents as sets of ints."""
    return [frozenset(int(s) for s in p) for p in parts]
