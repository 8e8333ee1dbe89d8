"""C19 Stopping early leaves valid, writable results."""
import contextlib
import gc
import math
import os
import signal
import sys
import time

from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import REPO, sut
from checks import c18

LIMIT = 1800.0


def inst(draw, large=False):
    if large:
        return draw(gen.large_binary(N=(20, 40), n=(6, 9), m=(2, 3), kmax=6))
    return draw(gen.hard_instance(N=(5, 14), n=(2, 6), m=(1, 3), kmax=3))


@st.composite
def expire_case(draw, large=False):
    return dict(inst=inst(draw, large), opt=draw(e2e.adaptive_options()),
                at=draw(st.integers(0, 999)),
                left=draw(st.sampled_from([-1e7, -1e7, 0.0, 1e-6, 1e-3, 3e-3, 1e-2, 3e-2])))


@st.composite
def milp_case(draw, large=False):
    return dict(inst=inst(draw, large), opt=draw(e2e.milp_options()),
                at=draw(st.integers(0, 999)), log=draw(st.booleans()),
                left=draw(st.sampled_from([-1e7, 0.0, 1e-6, 1e-3, 3e-3, 1e-2, 3e-2])))


@st.composite
def interrupt_case(draw):
    return dict(inst=inst(draw), opt=draw(e2e.adaptive_options()),
                line=draw(st.integers(0, 9999)), nth=draw(st.integers(0, 999)))


@st.composite
def timer_case(draw):
    return dict(inst=inst(draw), opt=draw(e2e.adaptive_options()),
                at=draw(st.integers(0, 999)))


# ------------------------------------------------------------------ results
def results_writable(ctx, M, d, opt, what, adaptive, interrupted):
    with ctx.sut(what + ": writing the results"):
        vLB, vUB = float(M.vLB), float(M.vUB)
        x = getattr(M, "xLB", None)
        sut.TimeManager.set_final_time()
        p = e2e.fresh("row.csv")
        M.write_all_computation_details(p)
        if adaptive:
            q = e2e.fresh("row-iter.csv")
            M.write_iteration_details(q)
    row = e2e.read_rows(p)
    ctx.require(len(row) == 1, "%s: %d result rows" % (what, len(row)))
    row = row[0]
    try:
        tail = [float(v) for v in row[-4:]]
        [float(v) for v in row[1:]]
    except ValueError:
        ctx.fail("%s: result row %s is not numeric" % (what, row))
    ctx.require(tail[0] >= 0 and same(tail[1], vLB) and same(tail[2], vUB),
                "%s: result row %s for bounds %r, %r" % (what, row, vLB, vUB))
    e2e.require_upper(ctx, opt, vUB, what)
    e2e.require_lower(ctx, d, opt, vLB, x, what, attained=not interrupted)
    if adaptive:
        rows = e2e.read_rows(q)
        if rows:
            c18.judge_rows(ctx, rows, d, opt, what)
        return rows
    return None


def same(a, b):
    return a == b or abs(a - b) <= 1e-3 + 1e-9 * abs(b)


# ------------------------------------------------------------------ time limit
def jump_to(left):
    """How far to move the clock so that about left seconds remain."""
    S = clock.S
    return max(0.0, LIMIT - left - (clock._real["time"]() - S.base["time"]) - S.offset)


def check_expire(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    what = "solve with %s" % o
    with ctx.sut(what), clock.virtual(tick=1e-4) as S:
        M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
        c0 = S.calls
        e2e.run_adaptive(M, o)
        total, whole = S.calls, int(M.iteration)
    at = 2 + cs["at"] * (total - 1) // 1000
    what = "solve with %s, %g s left at reading %d of %d of the clock" % (
        o, cs["left"], at, total)
    with clock.virtual(tick=1e-7, jump_at=at,
                       jump=lambda: jump_to(cs["left"]), flow=True) as S:
        with ctx.sut(what):
            M = e2e.make_adaptive(ci, o, time_limit=LIMIT)
            e2e.run_adaptive(M, o)
        rows = results_writable(ctx, M, d, opt, what, True, False)
    ctx.nontrivial = len(rows) < 2 * whole - 1 or whole > 1
    ctx.label("while constructing" if at <= c0 else "while solving",
              "log rows %s" % min(len(rows), 5), "iterations in full %s" % min(whole, 5),
              "no solution" if getattr(M, "xLB", None) is None else "solution")


def check_milp(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    tol = e2e.tol_of(opt)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    path = e2e.fresh("bounds.csv") if cs["log"] else None
    with ctx.sut("solve with %s" % o), clock.virtual(tick=1e-4) as S:
        M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
        e2e.run_milp(M, o, path)
        total = S.calls
    at = 2 + cs["at"] * (total - 1) // 1000
    what = "extended solve with %s, %g s left at reading %d of %d of the clock" % (
        o, cs["left"], at, total)
    with clock.virtual(tick=1e-7, jump_at=at,
                       jump=lambda: jump_to(cs["left"]), flow=True):
        with ctx.sut(what):
            M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
            e2e.run_milp(M, o, path)
        results_writable(ctx, M, d, opt, what, False, False)
    if path:
        for row in e2e.read_floats(path):
            ctx.require(-row[1] <= opt + tol and -row[2] >= opt - tol,
                        "%s: logged bounds %s, optimum %r" % (what, row, opt))
    ctx.nontrivial = True
    ctx.label("no solution" if getattr(M, "xLB", None) is None else
              "optimal" if M.vUB - M.vLB <= o["gap"] * abs(M.vLB) + 1e-6 else "open gap")


# ------------------------------------------------------------------ interrupts
class Tracer:
    """Counts executed lines of the code under test, or interrupts at one."""
    def __init__(self, at=None):
        self.at, self.n, self.lines = at, 0, {}
        self.prefix = REPO.rstrip("/") + "/"

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is None:
                key = "%s:%05d" % (frame.f_code.co_filename, frame.f_lineno)
                self.lines.setdefault(key, []).append(self.n)
            elif self.n == self.at:
                sys.settrace(None)
                self.where = "%s:%d" % (frame.f_code.co_filename, frame.f_lineno)
                raise KeyboardInterrupt
        return self.local

    @contextlib.contextmanager
    def on(self):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            yield
        finally:
            sys.settrace(old)


def check_interrupt(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    dry = Tracer()
    with ctx.sut("solve with %s" % o):
        M = e2e.make_adaptive(ci, o)
        with dry.on():
            e2e.run_adaptive(M, o)
    keys = sorted(dry.lines)
    occ = dry.lines[keys[cs["line"] * len(keys) // 10000]]
    at = occ[cs["nth"] * len(occ) // 1000]
    tr = Tracer(at)
    hit = False
    what = "interrupted solve with %s" % o
    with ctx.sut(what, allow=KeyboardInterrupt):
        M = e2e.make_adaptive(ci, o)
        try:
            with tr.on():
                e2e.run_adaptive(M, o)
        except KeyboardInterrupt:
            hit = True
    what = "solve with %s interrupted at %s (line event %d)" % (o, getattr(tr, "where", "?"), at)
    rows = results_writable(ctx, M, d, opt, what, True, hit)
    ctx.nontrivial = hit
    ctx.label("interrupted" if hit else "finished", "log rows %s" % min(len(rows), 5))


def check_timer(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    t = time.time()
    with ctx.sut("solve with %s" % o):
        M = e2e.make_adaptive(ci, o)
        t = time.time()
        e2e.run_adaptive(M, o)
    delay = max(1e-4, (time.time() - t) * (cs["at"] + 1) / 1000.0)
    what = "solve with %s interrupted by a signal after %.4f s" % (o, delay)
    armed = [True]

    def handler(signum, frame):
        if armed[0]:
            signal.raise_signal(signal.SIGINT)
    hit = False
    with ctx.sut(what):
        M = e2e.make_adaptive(ci, o)
    old = signal.signal(signal.SIGALRM, handler)
    old_int = signal.signal(signal.SIGINT, signal.default_int_handler)
    gc.disable()        # a signal that arrives in a gc callback would be lost
    try:
        try:
            with ctx.sut(what, allow=KeyboardInterrupt):
                signal.setitimer(signal.ITIMER_REAL, delay)
                e2e.run_adaptive(M, o)
            armed[0] = False
        except KeyboardInterrupt:
            hit = True
        armed[0] = False
        signal.setitimer(signal.ITIMER_REAL, 0)
    except KeyboardInterrupt:
        armed[0] = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        hit = True
    finally:
        armed[0] = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        gc.enable()
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGINT, old_int)
    results_writable(ctx, M, d, opt, what, True, hit)
    ctx.nontrivial = hit
    ctx.label("interrupted" if hit else "finished")


class Terminator:
    """Counts the optimisations of the solver, or ends one of them as an
    interrupt does, at one of its callbacks."""
    def __init__(self, at=None, nth=0):
        self.at, self.nth, self.n, self.calls = at, nth, 0, []
        self.hit = False

    @contextlib.contextmanager
    def on(self):
        import gurobipy as gp
        base, me = gp.Model, self

        class Model(base):
            def optimize(self, callback=None):
                q, me.n = me.n, me.n + 1
                if me.at is None:
                    me.calls.append(0)
                elif q != me.at:
                    return super().optimize() if callback is None else \
                        super().optimize(callback)

                seen = [0]

                def cb(model, where):
                    seen[0] += 1
                    if me.at is None:
                        me.calls[q] = seen[0]
                    elif seen[0] > me.nth and not me.hit:
                        model.terminate()
                        me.hit = True
                    if callback is not None:
                        callback(model, where)
                r = super().optimize(cb)
                me.hit = me.hit and self.Status == gp.GRB.INTERRUPTED
                return r
        gp.Model = Model
        try:
            yield
        finally:
            gp.Model = base


@st.composite
def solver_case(draw, milp=False):
    return dict(inst=inst(draw, milp), opt=draw(e2e.milp_options() if milp
                                                else e2e.adaptive_options()),
                at=draw(st.integers(0, 9999)), nth=draw(st.sampled_from([0, 300, 600, 900])))


def check_solver(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    dry = Terminator()
    with ctx.sut("solve with %s" % o), dry.on():
        M = e2e.make_adaptive(ci, o)
        first = dry.n
        e2e.run_adaptive(M, o)
    if dry.n == first:
        return
    at = first + cs["at"] * (dry.n - first) // 10000
    te = Terminator(at, cs["nth"] * dry.calls[at] // 1000)
    hit = False
    what = "solve with %s, optimisation %d of %d interrupted" % (o, at, dry.n)
    with ctx.sut(what, allow=KeyboardInterrupt), te.on():
        M = e2e.make_adaptive(ci, o)
        try:
            e2e.run_adaptive(M, o)
        except KeyboardInterrupt:
            hit = True
    rows = results_writable(ctx, M, d, opt, what, True, hit)
    ctx.nontrivial = te.hit
    ctx.label("interrupted" if hit else "finished", "log rows %s" % min(len(rows), 5))


def check_solver_milp(cs, ctx):
    d, o = cs["inst"], cs["opt"]
    opt = oracle.cc_opt(d)
    tol = e2e.tol_of(opt)
    with ctx.sut("loading"):
        ci = oracle.load(d)
    path = e2e.fresh("bounds.csv")
    dry = Terminator()
    with ctx.sut("solve with %s" % o), dry.on():
        M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
        e2e.run_milp(M, o, path)
    if not dry.n:
        return
    # mostly the last optimisation, the extended formulation itself
    at = dry.n - 1 if cs["at"] > 2000 else cs["at"] * dry.n // 2001
    path = e2e.fresh("bounds.csv")
    te = Terminator(at, cs["nth"] * dry.calls[at] // 1000)
    what = "extended solve with %s, optimisation %d of %d interrupted" % (o, at, dry.n)
    with ctx.sut(what, allow=KeyboardInterrupt), te.on():
        M = sut.MilpSolver(ci, time_limit=LIMIT, gap=o["gap"])
        try:
            e2e.run_milp(M, o, path)
            ctx.label("finished")
        except KeyboardInterrupt:
            ctx.label("interrupted")
    e2e.require_upper(ctx, opt, float(M.vUB), what)
    e2e.require_lower(ctx, d, opt, float(M.vLB), getattr(M, "xLB", None), what, attained=False)
    if os.path.exists(path):
        for row in e2e.read_floats(path):
            ctx.require(-row[1] <= opt + tol and -row[2] >= opt - tol,
                        "%s: logged bounds %s, optimum %r" % (what, row, opt))
            ctx.label("logged row")
    ctx.nontrivial = te.hit


def targets(tier):
    return [dict(name="time limit", strategy=expire_case, check=check_expire,
                 quick=450, thorough=6000),
            dict(name="extended time limit", strategy=milp_case, check=check_milp,
                 quick=240, thorough=3000),
            dict(name="time limit, large", strategy=lambda: expire_case(True),
                 check=check_expire, quick=120, thorough=2000),
            dict(name="extended time limit, large", strategy=lambda: milp_case(True),
                 check=check_milp, quick=120, thorough=2000),
            dict(name="interrupt", strategy=interrupt_case, check=check_interrupt,
                 quick=240, thorough=4000),
            dict(name="interrupt in the solver", strategy=solver_case, check=check_solver,
                 quick=240, thorough=4000),
            dict(name="extended interrupt in the solver", strategy=lambda: solver_case(True),
                 check=check_solver_milp, quick=60, thorough=1500),
            dict(name="signal", strategy=timer_case, check=check_timer,
                 quick=90, thorough=1000)]
