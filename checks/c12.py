"""C12 A cost-driven split minimises the worst relaxed cost."""
import copy
import itertools
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut
from checks import c10


@st.composite
def single(draw):
    d = draw(gen.instance(n=(1, 6), m=(1, 3), N=(4, 9)))
    size = min(d["N"], draw(st.sampled_from([2, 3, 3, 4, 4, 5, 5, 6, 6])))
    sub = draw(st.permutations(range(d["N"])))[:size]
    r = draw(st.integers(2, size))
    bad = draw(st.permutations(sub))[:r]
    return dict(inst=d, calls=[dict(sub=sub, bad=sorted(bad))])


@st.composite
def repeated(draw):
    """The same subsets with other violated scenarios, through one object."""
    c = draw(single())
    sub = c["calls"][0]["sub"]
    for _ in range(draw(st.integers(1, 2))):
        r = draw(st.integers(2, len(sub)))
        c["calls"].append(dict(sub=draw(st.permutations(sub)),
                               bad=sorted(draw(st.permutations(sub))[:r])))
    return c


@st.composite
def large(draw):
    """Larger subsets, compared with a sample of the allowed bipartitions."""
    d = draw(gen.bulk(n=(2, 12), m=(1, 5), N=(7, 16)))
    calls = []
    for _ in range(draw(st.integers(1, 2))):
        sub = draw(st.permutations(range(d["N"])))[:draw(st.integers(7, min(13, d["N"])))]
        calls.append(dict(sub=sub, bad=sorted(sub[:draw(st.integers(2, len(sub)))])))
    return dict(inst=d, calls=calls, pick=draw(gen.seeds()))


def check_large(case, ctx):
    d = case["inst"]
    cost = Costs(d)
    rnd = random.Random(case["pick"])
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ref = sut.CostRefiner(ci, use_acc_obj=True)
    for cl in case["calls"]:
        sub, bad = cl["sub"], cl["bad"]
        with ctx.sut("accurate_obj_split"):
            v, left, right = ref.accurate_obj_split(list(sub), list(bad))
            v = float(v)
        L, R = set(int(s) for s in left), set(int(s) for s in right)
        ctx.require(len(left) + len(right) == len(sub) and L | R == set(sub) and not L & R,
                    "%s and %s do not divide %s" % (left, right, sub))
        ctx.require(bool(L & set(bad)) and bool(R & set(bad)), "a part of %s / %s has no violated "
                    "scenario (%s)" % (left, right, bad))
        got = max(cost(L), cost(R))
        tol = 1.2e-4 * max(1.0, abs(got)) + 1e-4
        ctx.require(abs(got - v) <= tol, "reported %r, the parts cost %r" % (v, got))
        # one scenario moved, a violated scenario alone, and random ones
        some = [L ^ {s} for s in sub] + [{s} for s in bad] + [set(sub) - {s} for s in bad]
        some += [set(s for s in sub if rnd.random() < 0.5) for _ in range(12)]
        for other in some:
            rest = set(sub) - other
            if other & set(bad) and rest & set(bad):
                alt = max(cost(other), cost(rest))
                ctx.require(got <= alt + tol, "split %s / %s costs %r, %s / %s costs %r" % (
                    sorted(L), sorted(R), got, sorted(other), sorted(rest), alt))
                if alt > got + 1e-3:
                    ctx.nontrivial = True
        ctx.label("subset of %d" % len(sub))


class Costs:
    def __init__(self, d):
        self.d, self.memo = d, {}

    def __call__(self, part):
        key = frozenset(part)
        if key not in self.memo:
            self.memo[key] = oracle.subset_opt(self.d, sorted(key), cont=True)
        return self.memo[key]

    def best(self, sub, bad):
        """Smallest possible larger cost over the allowed bipartitions."""
        sub, bad, best = list(sub), set(bad), np.inf
        for r in range(len(sub)):
            for left in itertools.combinations(sub[1:], r):
                L = set(left) | {sub[0]}
                R = set(sub) - L
                if L & bad and R & bad:
                    best = min(best, max(self(L), self(R)))
        return best


def judge(ctx, cost, sub, bad, left, right, what, reported=None):
    L, R = set(int(s) for s in left), set(int(s) for s in right)
    ctx.require(len(left) + len(right) == len(sub) and L | R == set(sub) and not L & R,
                "%s: %s and %s do not divide %s" % (what, left, right, sub))
    ctx.require(bool(L & set(bad)) and bool(R & set(bad)), "%s: a part of %s / %s has no violated "
                "scenario (%s)" % (what, left, right, bad))
    best, got = cost.best(sub, bad), max(cost(L), cost(R))
    tol = 1.2e-4 * max(1.0, abs(best)) + 1e-4
    ctx.require(got <= best + tol, "%s: split %s / %s costs %r, best possible %r" % (
        what, left, right, got, best))
    if reported is not None:
        ctx.require(abs(reported - best) <= tol and abs(reported - got) <= tol,
                    "%s: reported %r, the parts cost %r, best possible %r" % (
                        what, reported, got, best))
    return best, got


def check_split(case, ctx):
    d = case["inst"]
    cost = Costs(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ref = sut.CostRefiner(ci, use_acc_obj=True)
    for cl in case["calls"]:
        with ctx.sut("accurate_obj_split"):
            v, left, right = ref.accurate_obj_split(list(cl["sub"]), list(cl["bad"]))
            v = float(v)
        judge(ctx, cost, cl["sub"], cl["bad"], list(left), list(right), "split", v)
        worst = max(max(cost(set(L)), cost(set(cl["sub"]) - set(L)))
                    for L in [[cl["bad"][0]], cl["sub"][:-1]])
        if worst > cost.best(cl["sub"], cl["bad"]) + 1e-3:
            ctx.nontrivial = True
        ctx.label("continuous" if d["cont"] else "binary", "subset of %d" % len(cl["sub"]))


@st.composite
def rounds(draw):
    """A history of refinements of one partition (not chained), so that
    subsets come back with the same or other violated scenarios."""
    base = draw(c10.setup((4, 8), (2, 4)))
    if base is None:
        return None
    base["xs"] = base["xs"] + [draw(gen.point(base["inst"]["n"], base["inst"]["cont"]))
                               for _ in range(draw(st.integers(1, 3)))]
    base["xs"].append(base["xs"][0])
    return base


def check_rounds(case, ctx):
    if case is None:
        return
    d = case["inst"]
    k = oracle.K(d)
    cost = Costs(d)
    part = case["part"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ref = sut.CostRefiner(ci, use_acc_obj=True)
        costs, _ = sut.Evaluator(ci).partition_cost(copy.deepcopy(part))
    seen = 0
    for q, x in enumerate(case["xs"]):
        if oracle.violated_set(d, x, 4e-7) != oracle.violated_set(d, x, 2.5e-6):
            continue
        V = set(oracle.violated_set(d, x))
        hit = [c for c, p in enumerate(part) if V & set(p)]
        if len(V) <= k or len(hit) > k:
            continue
        with ctx.sut("refine"):
            ci.check_feasibility(np.array(x, dtype=float))
            ref.subset_costs, ref.vUB = list(costs), max(costs)
            _, new = ref.refine(copy.deepcopy(part), np.array(x, dtype=float))
            new = [[int(s) for s in p] for p in new]
        owner = {s: c for c, p in enumerate(part) for s in p}
        for c, p in enumerate(part):
            pieces = [u for u in new if owner[u[0]] == c]
            if len(pieces) != 2 or len(p) > 7:
                continue
            bad = sorted(V & set(p))
            best, got = judge(ctx, cost, p, bad, pieces[0], pieces[1], "refinement %d" % q)
            if seen:
                ctx.nontrivial = True
                ctx.label("after an earlier refinement")
            ctx.label("judged split")
        seen += 1


@st.composite
def merging(draw):
    base = draw(c10.setup((4, 8), (2, 4)))
    if base is None:
        return None
    base["ops"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 40),
                                          st.permutations(range(8))),
                                min_size=2, max_size=8))
    return base


def check_merging(case, ctx):
    """Refinements and merges in turn, the partition handed from one to the
    other as the adaptive solve does."""
    if case is None:
        return
    d = case["inst"]
    N, k = d["N"], oracle.K(d)
    cost = Costs(d)
    part = [list(p) for p in case["part"]]
    pool = case["xs"][:1] + c10.pool_of(case)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        cip = sut.PartitionChanceKnapInstance(ci)
        ref = sut.CostRefiner(ci, use_acc_obj=True)
        mer = sut.Merger(ci, cip)
        ev = sut.Evaluator(ci)
    done = refined = 0
    for kind, pick, perm in case["ops"]:
        if kind and len(part) > k + 1:
            # unite subsets, leaving enough of them
            cand = [c for c in perm if c < len(part)][:min(kind + 1, len(part) - k)]
            if len(cand) < 2:
                continue
            with ctx.sut("merge"):
                part, nb = mer.merge_all(part, cand)
            ctx.require(oracle.is_partition(part, N) and nb == len(part), "merged: %s" % part)
            done += 1
            continue
        x = next((x for x in pool[pick % 3:] + pool if c10.eligible(d, part, x)), None)
        if x is None:
            continue
        V = c10.eligible(d, part, x)
        old = copy.deepcopy(part)
        with ctx.sut("refine"):
            ci.check_feasibility(np.array(x, dtype=float))
            costs, _ = ev.partition_cost(part)
            ref.subset_costs, ref.vUB = list(costs), max(costs)
            _, part = ref.refine(part, np.array(x, dtype=float))
        ctx.require(oracle.is_partition(part, N), "refined %s: %s" % (old, part))
        owner = {s: c for c, p in enumerate(old) for s in p}
        for c, p in enumerate(old):
            pieces = [u for u in part if owner[u[0]] == c]
            ctx.require(sum(map(len, pieces)) == len(p), "refined %s: %s" % (old, part))
            if len(pieces) == 2 and len(p) <= 7:
                judge(ctx, cost, p, sorted(V & set(p)), pieces[0], pieces[1],
                      "refinement after %d merges and %d refinements" % (done, refined))
                if refined and done:
                    ctx.nontrivial = True
        refined += 1
        ctx.label("refinements %d" % min(refined, 3))


@st.composite
def choosing(draw):
    """Refinements that need one or two splits, with several subsets to choose from."""
    base = draw(c10.setup((5, 11), (2, 4)))
    mu = draw(st.sampled_from([1, 1, 2]))
    if base is None:
        return None
    d, x = base["inst"], base["xs"][0]
    V = oracle.violated_set(d, x)
    F = [s for s in range(d["N"]) if s not in V]
    if len(V) < 4 or len(F) < mu:
        return None
    # as many subsets with violated scenarios as are tolerated, or one less
    groups = draw(st.integers(2 if mu == 1 else 1, len(V) // 2))
    k = groups + mu - 1
    hits = groups
    d["eps"] = (k + draw(st.sampled_from([0, 0.5]))) / d["N"]
    V = draw(st.permutations(V))
    groups = [[s] for s in V[:hits]]
    for q, s in enumerate(V[hits:]):
        groups[q % hits if q < hits else draw(st.integers(0, hits - 1))].append(s)
    groups += [[s] for s in F[:mu]]
    for s in F[mu:]:
        groups[draw(st.integers(0, len(groups) - 1))].append(s)
    base["part"] = [draw(st.permutations(groups[c])) for c in draw(
        st.permutations(range(len(groups))))]
    base["levels"] = draw(st.lists(st.tuples(
        st.sampled_from(["above", "below", "between", "between", "costs"]),
        st.integers(0, 5)), min_size=1, max_size=3))
    return base


def histories(part, new):
    """The sequences of at most two splits (subset, one part) that turn part into new."""
    pieces = {}
    owner = {s: c for c, p in enumerate(part) for s in p}
    for u in new:
        pieces.setdefault(owner[u[0]], []).append(frozenset(u))
    cut = [(frozenset(part[c]), us) for c, us in pieces.items() if len(us) > 1]
    if all(len(us) == 2 for _, us in cut):
        for order in itertools.permutations(cut):
            yield [(p, us[0]) for p, us in order]
    else:
        (p, us), = cut
        for u in us:
            yield [(p, u), (p - u, next(w for w in us if w != u))]


def allowed(cands, way, V, value, cost, vUB, tol, why):
    """Each split is of an allowed subset, and minimises the larger cost."""
    cands = list(cands)
    for p, u in way:
        if p not in cands:
            why.append("%s cannot be split" % sorted(p))
            return False
        known = [value(c) for c in cands]
        got = max(cost(u), cost(p - u))
        sure = [v for v in known if v <= vUB - tol]
        maybe = [v for v in known if v <= vUB + tol]
        small = got <= min(known) + tol
        large = got <= vUB + tol and got >= max(sure + [-np.inf]) - tol
        if not (V & u and V & (p - u) and got <= value(p) + tol):
            why.append("%s / %s costs %r, best possible %r" % (
                sorted(u), sorted(p - u), got, value(p)))
            return False
        if not (large if sure else small or (bool(maybe) and large)):
            why.append("%s costs %r, the choice is %s" % (sorted(p), got, known))
            return False
        cands.remove(p)
        cands += [w for w in (u, p - u) if len(V & w) >= 2]
    return True


def check_choice(case, ctx):
    if case is None:
        return
    d, x, part = case["inst"], case["xs"][0], case["part"]
    k = oracle.K(d)
    if oracle.violated_set(d, x, 4e-7) != oracle.violated_set(d, x, 2.5e-6):
        return
    V = set(oracle.violated_set(d, x))
    hit = [c for c, p in enumerate(part) if V & set(p)]
    cands = [frozenset(p) for p in part if len(V & set(p)) >= 2]
    mu = k + 1 - len(hit)
    if mu not in (1, 2) or len(part) < k + 1 or any(len(p) > 7 for p in cands):
        return
    cost = Costs(d)
    memo = {}

    def value(p):
        if p not in memo:
            memo[p] = cost.best(sorted(p), sorted(V & p))
        return memo[p]

    known = sorted(value(p) for p in cands)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        ref = sut.CostRefiner(ci, use_acc_obj=True)
        costs, _ = sut.Evaluator(ci).partition_cost(copy.deepcopy(part))
    owner = {s: c for c, p in enumerate(part) for s in p}
    tol = 2.5e-4 * max(1.0, max(map(abs, known))) + 2e-4
    for q, (level, at) in enumerate(case["levels"]):
        at %= len(known)
        vUB = {"above": known[-1] + 1, "below": known[0] - 1, "costs": max(costs),
               "between": (known[at] + known[(at + 1) % len(known)]) / 2}[level]
        with ctx.sut("refine"):
            ci.check_feasibility(np.array(x, dtype=float))
            ref.subset_costs, ref.vUB = list(costs), vUB
            _, new = ref.refine(copy.deepcopy(part), np.array(x, dtype=float))
            new = [[int(s) for s in p] for p in new]
        ctx.require(oracle.is_partition(new, d["N"]) and len(new) == len(part) + mu
                    and all(owner[s] == owner[u[0]] for u in new for s in u),
                    "%d splits of %s are needed, done: %s" % (mu, part, new))
        why = []
        ctx.require(any(allowed(cands, way, V, value, cost, vUB, tol, why)
                        for way in histories(part, new)),
                    "refinement %d, bound %r: %s into %s; the subsets that can be split cost "
                    "%s; %s" % (q, vUB, part, new, known, why))
        maybe = [v for v in known if v <= vUB + tol]
        ctx.label("%d candidates" % min(len(known), 4),
                  "all above the bound" if not maybe else "some within the bound",
                  "%d splits" % mu)
    if known[-1] > known[0] + 3 * tol:
        ctx.nontrivial = True


def targets(tier):
    return [dict(name="choice", strategy=choosing, check=check_choice, quick=240, thorough=3000),
            dict(name="split", strategy=single, check=check_split, quick=480, thorough=5000),
            dict(name="repeated split", strategy=repeated, check=check_split,
                 quick=200, thorough=2000),
            dict(name="refinements", strategy=rounds, check=check_rounds,
                 quick=360, thorough=4000),
            dict(name="refinements and merges", strategy=merging, check=check_merging,
                 quick=360, thorough=4000),
            dict(name="large subsets", strategy=large, check=check_large,
                 quick=40, thorough=1000)]
