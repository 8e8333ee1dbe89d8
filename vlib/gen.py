"""Hypothesis strategies for cases. Every case is a plain JSON object, so it
shrinks, replays and can be written to a file.

An instance case has A[s][i][j], b[i], c[j] as integers in tenths, so that the
oracles can work on exact data: the code under test rounds to one decimal.
"""
import math
import random

from hypothesis import strategies as st

STYLES = ("pert", "pert", "fail", "int", "dup", "wide", "sparse")


def bytes_(draw, k):
    return draw(st.binary(min_size=k, max_size=k)) if k else b""


def _coef(style, base, byte):
    """Scenario coefficient (tenths) from the base coefficient and one byte."""
    if style == "int":
        return (byte % 5) * 10
    if style == "wide":
        if byte < 30:
            return 0
        return int(round(10 ** (byte / 64.0)))          # 3 .. 9600 tenths
    if style == "sparse":
        return 0 if byte < 150 else int(base * (0.6 + (byte - 150) / 130.0))
    # perturbation of the base, 0.5 .. 1.5
    return int(round(base * (0.5 + byte / 255.0)))


@st.composite
def data(draw, n=(1, 7), m=(1, 4), N=(2, 12), styles=STYLES, b_frac=None,
         zero_c=True):
    nn = draw(st.integers(*n))
    mm = draw(st.integers(*m))
    NN = draw(st.integers(*N))
    style = draw(st.sampled_from(styles))
    bb = bytes_(draw, mm * nn)
    base = [[0 if bb[i * nn + j] < 20 else 10 + 3 * bb[i * nn + j]
             for j in range(nn)] for i in range(mm)]
    raw = bytes_(draw, NN * mm * nn)
    A = [[[_coef(style, base[i][j], raw[(s * mm + i) * nn + j])
           for j in range(nn)] for i in range(mm)] for s in range(NN)]
    if style == "fail":
        fb = bytes_(draw, NN * nn)
        for s in range(NN):
            for j in range(nn):
                if fb[s * nn + j] < 35:
                    for i in range(mm):
                        A[s][i][j] = 0
    if style == "dup":
        db = bytes_(draw, NN)
        for s in range(1, NN):
            if db[s] % 2:
                A[s] = [row[:] for row in A[db[s] % s]]
    if b_frac is None:
        b_frac = st.one_of(st.integers(15, 75), st.integers(15, 75),
                           st.integers(0, 110))
    b = []
    for i in range(mm):
        f = draw(b_frac)
        mean = sum(sum(A[s][i]) for s in range(NN)) / NN
        v = int(mean * f / 100)
        if style == "int":
            v = v // 10 * 10
        b.append(v)
    cb = bytes_(draw, nn)
    if style == "int":
        c = [((x % 5) + (0 if zero_c and x > 230 else 1)) * 10 for x in cb]
    else:
        c = [0 if zero_c and x > 248 else 5 + 7 * x for x in cb]
    return dict(n=nn, m=mm, N=NN, style=style, A=A, b=b, c=c)


INEXACT = [(0.58, 50), (0.29, 100), (0.57, 100), (0.28, 25), (0.56, 25),
           (15 / 22, 22)]


def risk_ok(eps, N):
    """eps*N is an integer up to rounding noise, or clearly not one."""
    v = eps * N
    d = abs(v - round(v))
    return d <= 1e-9 or d >= 1e-4


def tolerated(eps, N):
    return int(math.floor(eps * N + 1e-7))


@st.composite
def risk(draw, N, kmax=None, kmin=0):
    """A risk tolerance that tolerates at most kmax < N violated scenarios."""
    hi = min(N - 1, kmax if kmax is not None else N - 1)
    k = draw(st.integers(min(kmin, hi), hi))
    kind = draw(st.integers(0, 4))
    if kind == 0:
        eps = k / N
    elif kind == 1:
        eps = (k + draw(st.integers(1, 9)) / 10.0) / N
    elif kind == 2:
        eps = 1 - (N - k) / N
    elif kind == 3:
        eps = round(k / N, 2)
    else:
        eps = k * (1.0 / N)
    eps = float(max(0.0, eps))
    if not risk_ok(eps, N) or tolerated(eps, N) >= N or \
            (kmax is not None and tolerated(eps, N) > kmax) or \
            tolerated(eps, N) < min(kmin, hi):
        eps = k / N
    return eps


@st.composite
def instance(draw, n=(1, 7), m=(1, 4), N=(2, 12), kmax=None, kmin=0, cont=None,
             **kw):
    d = draw(data(n=n, m=m, N=N, **kw))
    d["cont"] = draw(st.booleans()) if cont is None else cont
    d["eps"] = draw(risk(d["N"], kmax=kmax, kmin=kmin))
    return d


@st.composite
def hard_instance(draw, cont=None, N=(8, 20), n=(3, 8), m=(2, 4), kmax=4,
                  kmin=1, zero_c=False):
    """Skewed to instances on which adaptive solves take several iterations:
    heterogeneous scenarios, moderate capacities, at least one violation."""
    return draw(instance(n=n, m=m, N=N, kmax=kmax, kmin=kmin, cont=cont,
                         styles=("pert", "pert", "fail", "fail", "sparse"),
                         b_frac=st.integers(20, 65), zero_c=zero_c))


@st.composite
def partition(draw, N, kmin=1, kmax=None):
    """A partition of range(N) into kmin..kmax non-empty subsets."""
    kmax = N if kmax is None else kmax
    k = draw(st.integers(kmin, kmax))
    perm = draw(st.permutations(range(N)))
    extra = [draw(st.integers(0, k - 1)) for _ in range(N - k)]
    parts = [[perm[i]] for i in range(k)]
    for s, c in zip(perm[k:], extra):
        parts[c].append(s)
    return parts


@st.composite
def point(draw, n, cont):
    """A point within the bounds, in sixteenths for continuous variables."""
    if cont:
        kind = draw(st.integers(0, 2))
        if kind == 0:
            return [draw(st.integers(0, 16)) / 16.0 for _ in range(n)]
        if kind == 1:
            return [float(draw(st.sampled_from([0, 1, 1, 0.5]))) for _ in range(n)]
    return [float(draw(st.integers(0, 1))) for _ in range(n)]


def seeds():
    return st.integers(0, 2 ** 20)


@st.composite
def large_binary(draw, n=(6, 10), N=(20, 60), m=(2, 4), kmax=12):
    """Binary instances too large for LP branching but not for enumeration."""
    return draw(instance(n=n, m=m, N=N, kmax=kmax, kmin=2, cont=False,
                         styles=("pert", "fail", "fail", "sparse"),
                         b_frac=st.integers(20, 60), zero_c=False))


@st.composite
def many(draw, N=(60, 250), n=(1, 5), m=(1, 2), kmax=None, kmin=1, cont=False, **kw):
    """Few items, many scenarios: large counts, products of the risk tolerance
    and the count that round badly, sums over many scenarios."""
    d = draw(data(n=n, m=m, N=N, **dict(dict(
        styles=("pert", "pert", "fail", "int", "sparse", "dup"),
        b_frac=st.integers(15, 75)), **kw)))
    d["cont"] = cont
    NN = d["N"]
    d["eps"] = draw(risk(NN, kmax=kmax if kmax is not None else NN - 1, kmin=kmin))
    # right-hand sides at order statistics of what some point needs, so that it
    # violates about the tolerated number of scenarios
    if draw(st.integers(0, 3)):
        x = [draw(st.integers(0, 3)) > 0 for _ in range(d["n"])]
        k, off = tolerated(d["eps"], NN), draw(st.sampled_from([-2, -1, 0, 0, 0, 1]))
        for i in range(d["m"]):
            lhs = sorted(sum(a for a, t in zip(d["A"][s][i], x) if t) for s in range(NN))
            want = k + off if d["m"] == 1 else (k + off) * (i + 1) // (d["m"] + 1)
            d["b"][i] = lhs[max(0, min(NN - 1, NN - 1 - want))]
    return d


@st.composite
def large_cont(draw, n=(6, 12), N=(16, 45), m=(2, 4), kmax=5):
    """Continuous instances too large for LP branching; see oracle.big_opt."""
    return draw(instance(n=n, m=m, N=N, kmax=kmax, kmin=2, cont=True,
                         styles=("pert", "fail", "sparse"),
                         b_frac=st.integers(20, 60), zero_c=False))


@st.composite
def flat_binary(draw, n=(30, 44), N=(2, 8), kmax=3, nested=None):
    """Binary instances of many items whose objectives differ little in
    proportion: many points lie within a relative gap of 1e-4. In nested ones,
    each scenario requires more than the next."""
    nn, NN = draw(st.integers(*n)), draw(st.integers(*N))
    off = draw(st.sampled_from([10000, 10000, 10000, 3000, 300, 0]))
    base = [50 + 2 * v for v in bytes_(draw, nn)]
    if draw(st.booleans()) if nested is None else nested:
        t = sorted(draw(st.lists(st.integers(80, 120), min_size=NN, max_size=NN)), reverse=True)
        A = [[[v * f // 100 for v in base]] for f in t]
        if NN > 1:
            p = draw(st.permutations(range(NN)))
            A = [A[q] for q in p]
    else:
        raw = bytes_(draw, NN * nn)
        A = [[[v * (218 + raw[s * nn + j]) // 320 for j, v in enumerate(base)]]
             for s in range(NN)]
    b = [sum(base) * draw(st.integers(35, 65)) // 100 // 10 * 10 + draw(st.integers(0, 9))]
    c = [v * (230 + w) // 350 + off for v, w in zip(base, bytes_(draw, nn))]
    d = dict(n=nn, m=1, N=NN, style="flat", A=A, b=b, c=c, cont=False)
    d["eps"] = draw(risk(NN, kmax=kmax))
    return d


@st.composite
def near(draw, cont=None, **kw):
    """Scenarios that differ little: solutions close to each other, constraints
    violated or satisfied by little."""
    d = draw(hard_instance(cont=cont, **kw))
    f, g = draw(st.sampled_from([1, 10, 30])), draw(st.sampled_from([1, 5, 20]))
    base = d["A"][0]
    raw = bytes_(draw, d["N"] * d["m"] * d["n"])
    d["A"] = [[[max(0, base[i][j] * f + (raw[(s * d["m"] + i) * d["n"] + j] % 3 - 1) * g)
                for j in range(d["n"])] for i in range(d["m"])] for s in range(d["N"])]
    if draw(st.integers(0, 2)) == 0:
        # few different scenarios: equal columns, which presolve aggregates
        few = draw(st.integers(1, 3))
        d["A"] = [d["A"][raw[s] % few] for s in range(d["N"])]
    d["b"] = [sum(row) * f * draw(st.integers(20, 65)) // 100 for row in base]
    d["style"] = "near"
    return d


@st.composite
def crowded(draw, cont=None, n=(3, 7), m=(1, 2), N=(12, 44)):
    """A few more demanding scenarios than are tolerated among easy ones: random
    subsets hold several or none of them, so that refinements split and merge
    several subsets at a time."""
    nn, mm, NN = draw(st.integers(*n)), draw(st.integers(*m)), draw(st.integers(*N))
    k = draw(st.integers(2, min(9, NN // 3)))
    bad = min(NN, k + draw(st.integers(1, k)))
    base = [[20 + (v % 60) * 5 for v in bytes_(draw, nn)] for _ in range(mm)]
    raw = bytes_(draw, NN * mm * nn)
    step = draw(st.sampled_from([1, 1, 32, 64]))       # 64: many equal coefficients
    lo, hi = draw(st.sampled_from([(60, 150), (80, 130), (90, 110), (40, 220)]))
    A = [[[v * ((hi if s < bad else lo) + raw[(s * mm + i) * nn + j] // step * step // 5) // 100
           for j, v in enumerate(base[i])] for i in range(mm)] for s in range(NN)]
    p = draw(st.permutations(range(NN)))
    A = [A[q] for q in p]
    b = [sum(row) * draw(st.integers(25, 75)) // 100 for row in base]
    if draw(st.booleans()):
        c = [(1 + v % 5) * 10 for v in bytes_(draw, nn)]
    else:
        c = [5 + 7 * v for v in bytes_(draw, nn)]
    d = dict(n=nn, m=mm, N=NN, style="crowded", A=A, b=b, c=c,
             cont=draw(st.booleans()) if cont is None else cont)
    d["eps"] = k / NN
    return d


@st.composite
def grouped(draw, cont=None, n=(4, 10), m=(1, 3), N=(16, 56)):
    """A few kinds of scenarios that demand different items: a point that suits some
    kinds violates the others altogether, so that few subsets hold many violated
    scenarios, also after several iterations."""
    nn, mm, NN = draw(st.integers(*n)), draw(st.integers(*m)), draw(st.integers(*N))
    k = draw(st.integers(2, min(9, NN // 3)))
    kinds = draw(st.integers(2, 9))
    base = [[20 + (v % 61) * 5 for v in bytes_(draw, nn)] for _ in range(mm)]
    levels = draw(st.sampled_from([(50, 60, 100, 170, 250), (0, 20, 100, 150, 300),
                                   tuple(range(40, 220, 9))]))
    raw = bytes_(draw, kinds * mm * nn)
    profile = [[[levels[raw[(g * mm + i) * nn + j] % len(levels)] for j in range(nn)]
                for i in range(mm)] for g in range(kinds)]
    of = bytes_(draw, NN)
    noise = bytes_(draw, NN * mm * nn)
    A = [[[v * (profile[of[s] % kinds][i][j] + noise[(s * mm + i) * nn + j] % 21) // 100
           for j, v in enumerate(base[i])] for i in range(mm)] for s in range(NN)]
    b = [sum(row) * draw(st.integers(25, 75)) // 100 for row in base]
    if draw(st.booleans()):
        c = [(1 + v % 5) * 10 for v in bytes_(draw, nn)]
    else:
        c = [5 + 4 * v for v in bytes_(draw, nn)]
    return dict(n=nn, m=mm, N=NN, style="grouped", A=A, b=b, c=c, eps=k / NN,
                cont=draw(st.booleans()) if cont is None else cont)


def lengthy():
    """Instances whose adaptive solves take several iterations."""
    return st.one_of(
        crowded(cont=True), large_cont(n=(8, 12), N=(12, 24), kmax=3),
        bulk(n=(8, 13), m=(2, 4), N=(16, 50), kmin=2, kmax=8, cont=False))


@st.composite
def bulk(draw, n, m, N, kmax=None, kmin=0, cont=None):
    """Instances large in every dimension, expanded from a drawn seed."""
    nn, mm, NN = draw(st.integers(*n)), draw(st.integers(*m)), draw(st.integers(*N))
    style = draw(st.sampled_from(["pert", "pert", "fail", "int", "dup", "sparse", "wide"]))
    rnd = random.Random(draw(seeds()))
    base = [[rnd.choice([0, 1, 1, 1, 1, 1, 1, 1]) * rnd.randint(10, 700) for _ in range(nn)]
            for _ in range(mm)]
    A = [[[_coef(style, v, rnd.randrange(256)) for v in row] for row in base] for _ in range(NN)]
    for s in range(NN):
        if style == "dup" and s and rnd.random() < 0.5:
            A[s] = [row[:] for row in A[rnd.randrange(s)]]
        if style == "fail":
            for j in range(nn):
                if rnd.random() < 0.15:
                    for row in A[s]:
                        row[j] = 0
    b = [sum(sum(A[s][i]) for s in range(NN)) * draw(st.integers(10, 80)) // 100 // NN
         for i in range(mm)]
    c = [rnd.randint(1, 9) * 10 if style == "int" else rnd.randint(5, 900) for _ in range(nn)]
    d = dict(n=nn, m=mm, N=NN, style="bulk", A=A, b=b, c=c,
             cont=draw(st.booleans()) if cont is None else cont)
    d["eps"] = draw(risk(NN, kmax=kmax, kmin=kmin))
    return d
