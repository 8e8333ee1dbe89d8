"""C25 Time limits and recorded times are honoured."""
import contextlib

from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut

LIMIT = 100.0
TICK = 1e-4
EPS = 0.05          # far more than the ticks between two readings

DURATIONS = [0.0, 0.0, 0.01, 0.5, 3.0, 11.0, 40.0]


@st.composite
def case(draw, milp):
    inst = draw(gen.hard_instance(N=(5, 14), n=(2, 7), m=(1, 3), kmax=3))
    return dict(inst=inst, opt=draw(e2e.milp_options() if milp else e2e.adaptive_options()),
                # seconds an optimisation takes; None: all it is allowed, and a bit more
                dur=draw(st.lists(st.one_of(st.sampled_from(DURATIONS),
                                            st.sampled_from(DURATIONS[:4]),
                                            st.just(None) if draw(st.integers(0, 2)) == 0
                                            else st.just(0.0)),
                                  min_size=1, max_size=12)))


class Slow:
    """Lets every optimisation take a generated time of the virtual clock."""
    def __init__(self, dur, n, S, start, owner):
        self.dur, self.n, self.S, self.start, self.owner = dur, n, S, start, owner
        self.calls = []         # (from, to, allowed, variables, iteration)

    def now(self):
        return self.S.offset - self.start

    @contextlib.contextmanager
    def on(self):
        import gurobipy as gp
        base, me = gp.Model, self

        class Model(base):
            def optimize(self, callback=None):
                self.update()
                allowed = self.Params.TimeLimit
                t0, nv = me.now(), self.NumVars
                it = getattr(me.owner(), "iteration", None)
                d = me.dur[len(me.calls) % len(me.dur)]
                if d is None:
                    d = allowed + 0.1 if allowed < 1e9 else 1.0
                d = min(d, allowed + 0.1)
                rec = [t0, None, allowed, nv, it]
                me.calls.append(rec)
                me.S.offset += d / 2
                try:
                    return super().optimize() if callback is None else \
                        super().optimize(callback)
                finally:
                    me.S.offset += d / 2
                    rec[1] = me.now()
        gp.Model = Model
        try:
            yield self
        finally:
            gp.Model = base


def judge_calls(ctx, slow, what, chance):
    for t0, t1, allowed, nv, it in slow.calls:
        w = "%s: an optimisation over %d variables started after %.4f s" % (what, nv, t0)
        left = max(LIMIT - t0, 0.0)
        if allowed < 1e9:
            ctx.require(allowed <= left + EPS, "%s is allowed %r s, %r remain" % (w, allowed, left))
        else:
            ctx.require(not chance(nv), w + " without a time limit")


def row_time(ctx, M, slow, what):
    with ctx.sut(what + ": writing the results"):
        sut.TimeManager.set_final_time()
        total = slow.now()
        p = e2e.fresh("row.csv")
        M.write_all_computation_details(p)
    row = e2e.read_rows(p)[0]
    ctx.require(abs(float(row[-4]) - total) <= EPS, "%s: result row reports %s s, the run took %r"
                % (what, row[-4], total))
    return total, row


def check_adaptive(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    what = "solve with %s, optimisations of %s s" % (o, cs["dur"])
    with ctx.sut("loading"):
        ci = oracle.load(d)
    box = [None]
    with clock.virtual(tick=TICK) as S:
        slow = Slow(cs["dur"], d["n"], S, S.offset, lambda: box[0])
        with slow.on():
            with ctx.sut(what):
                M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
                box[0] = M
                e2e.run_adaptive(M, o)
            total, _ = row_time(ctx, M, slow, what)
            q = e2e.fresh("row-iter.csv")
            with ctx.sut(what + ": writing the log"):
                M.write_iteration_details(q)
    # (the models of the cost splits have more variables and no limit)
    judge_calls(ctx, slow, what, lambda nv: nv > d["n"] and o["split"] == "random")
    late = [c for c in slow.calls if c[1] >= LIMIT + EPS]
    if late:
        it = int(late[0][4] or 0)        # 0: before the first iteration
        after = sorted(set(int(c[4] or 0) for c in late))
        ctx.require(after == [it] and int(M.iteration) <= max(it, 1),
                    "%s: the limit expired in iteration %s, optimisations followed in "
                    "iterations %s, the run ended in %s" % (what, it, after, M.iteration))
        ctx.label("expired in iteration %d" % min(it, 4))
    else:
        ctx.label("in time")
    rows = e2e.read_rows(q)
    last = 0.0
    for r in rows:
        t = float(r[1])
        ctx.require(last - 1e-3 <= t <= total + EPS, "%s: logged time %r, the run took %r" % (
            what, t, total))
        last = t
        # what was optimised in earlier iterations was over by then
        before = [c[1] for c in slow.calls if c[4] is None or c[4] < int(r[0])]
        ctx.require(not before or t >= max(before) - EPS, "%s: logged time %r of iteration %s, "
                    "earlier optimisations ended at %r" % (what, t, r[0], max(before or [0])))
    ctx.nontrivial = bool(late) or len(rows) >= 3


def check_milp(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    what = "solve with %s, optimisations of %s s" % (o, cs["dur"])
    with ctx.sut("loading"):
        ci = oracle.load(d)
    path = e2e.fresh("bounds.csv")
    with clock.virtual(tick=TICK) as S:
        slow = Slow(cs["dur"], d["n"], S, S.offset, lambda: None)
        with slow.on():
            with ctx.sut(what):
                M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
                e2e.run_milp(M, o, path)
            total, row = row_time(ctx, M, slow, what)
    if not slow.calls:      # models made by other means: nothing was timed
        ctx.label("not timed")
        return
    judge_calls(ctx, slow, what, lambda nv: nv > d["n"])
    main = [c for c in slow.calls if c[3] > d["n"]]
    ctx.require(len(main) == 1, "%s: %d optimisations of the extended formulation" % (
        what, len(main)))
    ready, done = main[0][0], main[0][1]
    if o["big_m"] is not None:
        ctx.require(abs(float(row[10]) - min(ready, LIMIT)) <= EPS, "%s: big-M time %s, ready after "
                    "%r s" % (what, row[10], ready))
    for r in e2e.read_floats(path):
        ctx.require(min(ready, LIMIT) - EPS <= r[0] <= done + EPS, "%s: logged time %r, the solver "
                    "ran from %r to %r" % (what, r[0], ready, done))
        ctx.label("logged rows")
    ctx.nontrivial = ready > 0.5 or done >= LIMIT
    ctx.label("big-M %s" % o["big_m"], "expired" if done >= LIMIT else "in time")


def targets(tier):
    return [dict(name="adaptive", strategy=lambda: case(False), check=check_adaptive,
                 quick=500, thorough=8000),
            dict(name="milp", strategy=lambda: case(True), check=check_milp,
                 quick=300, thorough=4000)]
