"""C27 An adaptive solve keeps partition, data and costs in step."""

import numpy as np
from hypothesis import strategies as st

from checks.c07 import judge
from vlib import clock, e2e, gen, oracle
from vlib.env import sut

LIMIT = 4000


@st.composite
def case(draw, kind):
    if kind == "big-M":
        d = draw(gen.lengthy())
    elif kind == "crowded":
        d = draw(gen.crowded(cont=draw(st.sampled_from([False, False, True]))))
    elif kind == "grouped":
        d = draw(gen.grouped(cont=draw(st.sampled_from([False, False, False, True]))))
    elif kind == "ties":
        d = draw(gen.many(N=(12, 50), n=(3, 7), m=(1, 3), kmax=10, styles=("int",)))
    else:
        d = draw(gen.hard_instance())
    o = draw(e2e.adaptive_options(gaps=(1e-4, 1e-4, 1e-2)))
    o["merge"] = draw(st.integers(0, 4)) > 0
    if kind == "big-M":
        o["big_m"] = draw(st.sampled_from(["belotti", "belotti", "song"]))
        o["split"], o["merge"] = "random", draw(st.booleans())
    # sometimes the limit expires on the way
    return dict(inst=d, opt=o, limit=draw(st.sampled_from([LIMIT] * 3 + [30, 60, 120, 250])))


class Book:
    """Judges the state of the solve M."""
    def __init__(self, ctx, d, ci):
        self.ctx, self.d, self.ci = ctx, d, ci
        self.A, self.b, _ = oracle.arrays(d)
        self.known = {}
        self.parts = []
        self.best = None

    def judge(self, M, when, costs=True):
        ctx, d = self.ctx, self.d
        part = [[int(s) for s in p] for p in M.partition]
        ctx.require(oracle.is_partition(part, d["N"]), "%s: not a partition: %s" % (when, part))
        ctx.require(int(M.nb_subsets) == len(part) > oracle.K(d),
                    "%s: %r subsets recorded, the partition has %d, %d violations tolerated" % (
                        when, M.nb_subsets, len(part), oracle.K(d)))
        view = M.chance_instance_part
        ctx.require(int(view.get_nb_scenarios()) == len(part),
                    "%s: the view has %d subsets, the partition %d" % (
                        when, view.get_nb_scenarios(), len(part)))
        if costs:
            for name in ("subset_costs", "subset_sols"):
                ctx.require(len(getattr(M, name)) == len(part), "%s: %d %s for %d subsets" % (
                    when, len(getattr(M, name)), name, len(part)))
        for q, p in enumerate(part):
            rows = np.asarray(view.get_matrix_A(q))
            rhs = np.asarray(view.get_vector_b(q))
            want = np.vstack([self.A[s] for s in p])
            wb = np.concatenate([self.b for _ in p])
            ctx.require(rows.shape == want.shape and np.allclose(rows, want, atol=1e-7)
                        and rhs.shape == wb.shape and np.allclose(rhs, wb, atol=1e-7),
                        "%s: the data of subset %d are not those of scenarios %s" % (when, q, p))
            if costs:
                v, x = float(M.subset_costs[q]), [float(u) for u in M.subset_sols[q]]
                # the optimum of a subset does not change
                key = (frozenset(p), v, tuple(x))
                if key not in self.known:
                    judge(ctx, d, p, v, x, when + ", subset %d" % q)
                    self.known[key] = 1
        pr = np.asarray(view.get_proba(), dtype=float)
        eps = float(view.get_epsilon())
        ctx.require(pr.shape == (len(part),) and abs(pr.sum() - 1) < 1e-9
                    and np.allclose(pr, 1.0 / len(part), atol=1e-12)
                    and int(eps * len(part) + 1e-6) == oracle.K(d),
                    "%s: probabilities %s and risk %r tolerate other than %d subsets" % (
                        when, pr, eps, oracle.K(d)))
        if not self.parts or part != self.parts[-1]:
            self.parts.append(part)

    def judge_big_m(self, M, finder, when):
        """The values admit an optimal point."""
        if self.best is None:
            try:
                self.best = oracle.cc_point(self.d)
            except oracle.Skip:
                self.best = False
        if self.best is False:
            return
        self.ctx.label("big-M values compared with the optimum")
        over = self.A @ self.best - self.b
        for q, p in enumerate(M.partition):
            m = np.asarray(finder.get_vector_big_M(q), dtype=float)
            need = np.concatenate([over[s] for s in p])
            self.ctx.require(
                m.shape == need.shape and (need <= m + 1e-4 * (1 + np.abs(m))).all(),
                "%s: big-M values %s of subset %d exclude the optimum, which exceeds by %s" % (
                    when, m, q, need))


def watch(book, M):
    """A big-M finder that looks at the solve when it is asked for values. Another
    look is taken when the iteration is logged."""
    inf = getattr(M, "informer", None)
    log = getattr(inf, "store_iteration_info", None)
    if log is not None:
        def store(*a, **k):
            book.judge(M, "iteration %d" % M.iteration)
            return log(*a, **k)
        inf.store_iteration_info = store

    class Finder(sut.BigMFinder):
        def update_big_M(self, *a, **k):
            when = "iteration %d" % M.iteration
            book.judge(M, when)
            out = super().update_big_M(*a, **k)
            book.judge_big_m(M, self, when)
            return out
    return Finder(M.chance_instance_part)


def check(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    book = Book(ctx, d, ci)
    with ctx.sut(what), clock.virtual(tick=1.0):
        M = e2e.make_adaptive(ci, o, time_limit=cs["limit"])
        book.judge(M, "before the solve", costs=False)
        M.solve(watch(book, M), use_big_M=o["big_m"] is not None,
                big_m_method=o["big_m"] or "naive", use_merger=o["merge"], use_lazy=o["lazy"])
        book.judge(M, "after the solve, iteration %d" % M.iteration)
    sizes = [len(p) for p in book.parts]
    ctx.nontrivial = len(sizes) >= 3
    ctx.label("partitions %d" % min(len(sizes), 6))
    if any(a >= b for a, b in zip(sizes, sizes[1:])):
        ctx.label("merged")


def targets(tier):
    return [dict(name="broad", strategy=lambda: case("hard"), check=check,
                 quick=200, thorough=5000),
            dict(name="crowded", strategy=lambda: case("crowded"), check=check,
                 quick=160, thorough=4000),
            dict(name="grouped", strategy=lambda: case("grouped"), check=check,
                 quick=100, thorough=4000),
            dict(name="big-M values", strategy=lambda: case("big-M"), check=check,
                 quick=120, thorough=4000),
            dict(name="equal objectives", strategy=lambda: case("ties"), check=check,
                 quick=120, thorough=3000)]
