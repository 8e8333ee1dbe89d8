"""C14 Lower bounds always come with a feasible solution."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def proj(draw, large=False):
    if large == "bulk":
        d = draw(gen.bulk(n=(4, 8), m=draw(st.sampled_from([(1, 3), (8, 40)])), N=(20, 80),
                          kmin=1, cont=False))
    elif large:
        d = draw(gen.many(N=(40, 160), n=(2, 5)))
    else:
        d = draw(gen.instance(n=(2, 7), m=(1, 3), N=(2, 9), kmin=1))
    steps = []
    for _ in range(draw(st.integers(1, draw(st.sampled_from([3, 3, 12]))))):
        top = draw(st.sampled_from([9, 4])) if large else 0
        steps.append(dict(x=draw(gen.point(d["n"], d["cont"])) if not large else
                          [min(16, 4 * draw(st.integers(top // 9, top))) / 16
                           for _ in range(d["n"])],
                          feas=[draw(st.booleans()) for _ in range(d["N"])],
                          # current bound as a percentage of the optimum
                          raise_to=draw(st.sampled_from([None, None, 20, 95, 105]))))
    return dict(inst=d, steps=steps,
                method=draw(st.sampled_from(["rescaled_max_violation"] * 2 + ["counter"])))


def index_of(d, x):
    """Rescaled maximal violation; violations under 1e-3 count as none.
    None where a violation is too close to that limit to call."""
    A, b, _ = oracle.arrays(d)
    E = oracle.excess(d, x)
    if ((E > 0.999e-3) & (E < 1.001e-3)).any():
        return None
    nrm = np.sqrt((A ** 2).sum(2))
    return np.where(E >= 1e-3, E / np.where(nrm > 0, nrm, 1), 0.0).max(1)


def check_proj(case, ctx):
    d = case["inst"]
    N, k = d["N"], oracle.K(d)
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        lb = sut.LowerBounder(ci, case["method"])
    counter = np.zeros(N)
    cur = -np.inf
    for q, stp in enumerate(case["steps"]):
        x = np.array(stp["x"], dtype=float)
        counter += np.array(stp["feas"])
        if stp["raise_to"] is not None and opt > 1:
            cur = max(cur, opt * stp["raise_to"] / 100.0)
        idx = -counter if case["method"] == "counter" else index_of(d, x)
        with ctx.sut("deterministic_bound"):
            lb.save_feasible_scenarios(np.array(stp["feas"]))
            lb.vLB = cur
            sx, v = lb.deterministic_bound(x.copy())
            v = float(v)
        if idx is None:
            continue
        r = N - k                       # scenarios kept
        srt = np.sort(idx)
        lim = srt[r - 1]
        sure = [s for s in range(N) if idx[s] < lim - 1e-9]
        tied = [s for s in range(N) if abs(idx[s] - lim) <= 1e-9]
        need = r - len(sure)
        combos = list(itertools.islice(itertools.combinations(tied, need), 41))
        if len(combos) <= 40:
            vals = [oracle.subset_opt(d, sorted(sure + list(c))) for c in combos]
        else:
            vals = None
            lo, hi = oracle.subset_opt(d, sorted(sure + tied)), oracle.subset_opt(d, sure) \
                if sure else (oracle.subset_opt(d, sorted(sure + tied)), np.inf)[1]
        edge = 1.1e-4 * abs(cur) + 1e-5 if np.isfinite(cur) else 0.0
        if sx is None:
            ctx.require(v < -1e5, "no solution but value %r" % v)
            ctx.require(np.isfinite(cur), "call %d: no solution without a bound to reach" % q)
            if vals is not None:
                ctx.require(min(vals) < cur + edge, "call %d: no solution although the kept "
                            "scenarios allow %s and the bound is %r" % (q, vals, cur))
            ctx.label("bound not reachable")
            continue
        x2 = [float(t) for t in sx]
        ctx.require(oracle.in_box(x2, d["cont"]), "solution %s outside its domain" % x2)
        ctx.require(oracle.surely_violated(d, x2) <= k, "call %d: solution violates %d scenarios,"
                    " %d tolerated" % (q, oracle.surely_violated(d, x2), k))
        ctx.require(oracle.close(oracle.obj(d, x2), v, 1e-6, 1e-5), "call %d: objective %r, value "
                    "%r" % (q, oracle.obj(d, x2), v))
        ctx.require(v >= cur - edge, "call %d: value %r below the current bound %r" % (q, v, cur))
        if vals is not None:
            ctx.require(any(oracle.close(v, w, 1.2e-4, 1e-5) for w in vals),
                        "call %d: value %r; the scenarios to keep allow %s (kept for sure %s, "
                        "tied %s)" % (q, v, sorted(set(vals))[:6], sure, tied))
            if len(set(round(w, 6) for w in [oracle.subset_opt(d, range(N))] + vals)) > 1 and \
                    len(combos) < 4:
                ctx.nontrivial = True
                ctx.label("selection matters")
        else:
            ctx.require(lo - 1e-4 - 1.2e-4 * abs(lo) <= v <= hi + 1e-4 + 1.2e-4 * abs(hi),
                        "call %d: value %r outside [%r, %r]" % (q, v, lo, hi))
        ctx.label(case["method"])


@st.composite
def cands(draw):
    d = draw(gen.instance(n=(1, 6), m=(1, 3), N=(1, 9)))
    exact = draw(st.booleans())
    if exact:     # all objectives are exact binary fractions
        d["c"] = [(v // 10) * 10 for v in d["c"]]
    calls = []
    most = draw(st.sampled_from([6, 6, 6, 24]))
    for _ in range(draw(st.integers(1, 3))):
        xs = [draw(gen.point(d["n"], d["cont"])) for _ in range(draw(st.integers(0, most)))]
        calls.append(dict(xs=xs, lo=draw(st.one_of(st.none(), st.integers(0, most + 1))),
                          hi=draw(st.one_of(st.none(), st.integers(0, most + 1))),
                          dlo=draw(st.sampled_from([0, 0, -0.5, 0.5])),
                          dhi=draw(st.sampled_from([0, 0, -0.5, 0.5])),
                          arr=draw(st.booleans())))
    return dict(inst=d, calls=calls, exact=exact)


def check_cands(case, ctx):
    d, k = case["inst"], oracle.K(case["inst"])
    with ctx.sut("loading"):
        ci = oracle.load(d)
        lb = sut.LowerBounder(ci)
    amb = 0.0 if case["exact"] else 1e-6
    for q, cl in enumerate(case["calls"]):
        xs = cl["xs"]
        objs = [oracle.obj(d, x) for x in xs]
        nv = [len(oracle.violated_set(d, x)) for x in xs]
        if any(oracle.violated_set(d, x, 4e-7) != oracle.violated_set(d, x, 2.5e-6) for x in xs):
            continue
        vLB = -np.inf if cl["lo"] is None or not xs else objs[cl["lo"] % len(xs)] + cl["dlo"]
        vUB = np.inf if cl["hi"] is None or not xs else objs[cl["hi"] % len(xs)] + cl["dhi"]
        with ctx.sut("incumbent_bound"):
            found, x, obj = lb.incumbent_bound([np.array(t, dtype=float) for t in xs],
                                               vUB, vLB, verbose=cl["arr"])
            found = bool(found)
        # improving by at least 1e-8, not above the upper bound, feasible
        sure = [o for o, n in zip(objs, nv) if n <= k and o <= vUB - amb and o >= vLB + 1e-7 + amb]
        may = [o for o, n in zip(objs, nv) if n <= k and o <= vUB + amb and o > vLB - amb]
        if not found:
            ctx.require(x is None and obj is None, "nothing found but something returned")
            ctx.require(not sure, "call %d: none reported, but candidates with objectives %s are "
                        "feasible and improve %r (upper bound %r)" % (q, sure, vLB, vUB))
        else:
            ctx.require(any(np.array_equal(np.asarray(x, dtype=float), np.array(t))
                            for t in xs), "returned solution is not a candidate")
            o = oracle.obj(d, x)
            ctx.require(abs(o - float(obj)) <= 1e-9 * (1 + abs(o)), "objective %r of the returned "
                        "solution reported as %r" % (o, obj))
            ctx.require(len(oracle.violated_set(d, x)) <= k, "returned candidate violates too "
                        "many scenarios")
            ctx.require(any(abs(o - w) <= 1e-9 * (1 + abs(o)) for w in may), "returned candidate "
                        "(objective %r) not within bounds (%r, %r]" % (o, vLB, vUB))
            ctx.require(not sure or o >= max(sure) - 1e-9 * (1 + abs(o)), "call %d: returned %r, "
                        "best candidate %r" % (q, o, max(sure) if sure else None))
            ctx.label("found")
        if may and len(may) < len(xs):
            ctx.nontrivial = True


def targets(tier):
    return [dict(name="projection", strategy=proj, check=check_proj,
                 quick=1000, thorough=10000),
            dict(name="candidates", strategy=cands, check=check_cands,
                 quick=2000, thorough=20000),
            dict(name="projection, many scenarios", strategy=lambda: proj(True),
                 check=check_proj, quick=250, thorough=1000),
            dict(name="projection, large instances", strategy=lambda: proj("bulk"),
                 check=check_proj, quick=250, thorough=2000)]
