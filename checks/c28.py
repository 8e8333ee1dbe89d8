"""C28 Experiments stopped or repeated leave valid, separate results."""
import math
import os
import shutil
import signal
import sys

from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.core import Violation
from vlib.env import REPO, sut
from checks import c18, c21

LIMIT = 3600.0


@st.composite
def risk(draw, N):
    """Whole percents, as in the names of the result files."""
    ok = [p for p in range(0, 60)
          if gen.risk_ok(p / 100, N) and gen.tolerated(p / 100, N) <= min(4, N - 1)]
    some = [p for p in ok if gen.tolerated(p / 100, N) >= 1]
    return draw(st.sampled_from(some if some and draw(st.integers(0, 4)) else ok)) / 100


@st.composite
def case(draw):
    insts = []
    for _ in range(draw(st.integers(1, 2))):
        insts.append(draw(gen.hard_instance(N=(5, 12), n=(2, 5), m=(1, 3), kmax=3)))
    if len(insts) == 2 and draw(st.booleans()):     # the same family
        a, b = insts
        insts[1] = dict(a, c=[(v + 10) for v in a["c"]], b=list(a["b"]))
    runs = []
    for _ in range(draw(st.integers(2, 4))):
        q = draw(st.integers(0, len(insts) - 1))
        old = draw(st.integers(0, 2)) == 0 and runs
        r = dict(draw(st.sampled_from(runs))) if old else dict(
            inst=q, method=draw(st.integers(1, 4)), cont=draw(st.integers(0, 1)),
            eps=draw(risk(insts[q]["N"])))
        stop = draw(st.sampled_from(["", "clock", "clock", "alarm"]))
        r.update(stop=stop if r["method"] >= 3 or stop != "alarm" else "clock",
                 at=draw(st.integers(0, 999)),
                 left=draw(st.sampled_from([-1e7, 0.0, 1e-6, 1e-3, 1e-2])))
        runs.append(r)
    return dict(insts=insts, idx=draw(st.permutations(range(1, 10)))[:len(insts)], runs=runs)


def jump_to(left):
    S = clock.S
    return max(0.0, LIMIT - left - (clock._real["time"]() - S.base["time"]) - S.offset)


class Alarm:
    """Counts the lines executed by the solve of an adaptive solver, or lets
    the alarm go off at one of them."""
    def __init__(self, at=None):
        self.at, self.n, self.root, self.hit = at, 0, None, False
        self.prefix = REPO.rstrip("/") + "/"

    def glob(self, frame, event, arg):
        code = frame.f_code
        if self.root is None:
            if code.co_name == "solve" and "bigMFinder" in code.co_varnames[:code.co_argcount] \
                    and "use_merger" in code.co_varnames[:code.co_argcount]:
                self.root = frame
                return self.local
            return None
        return self.local if code.co_filename.startswith(self.prefix) else None

    def local(self, frame, event, arg):
        if frame is self.root and event == "return":
            sys.settrace(None)
            self.root = None
            self.at = -1
        elif event == "line":
            self.n += 1
            if self.at == self.n:
                sys.settrace(None)
                if signal.getsignal(signal.SIGALRM) is not signal.SIG_DFL:
                    self.hit = True
                    signal.raise_signal(signal.SIGALRM)
                elif signal.getitimer(signal.ITIMER_REAL)[0] > 0:
                    raise Violation("an alarm is set that would end the process at %s:%d" % (
                        os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self.local


def run(args, r, at):
    """Runs the script; returns (ended well, readings or lines)."""
    if r["stop"] == "alarm":
        al = Alarm(at)
        old = sys.gettrace()
        sys.settrace(al.glob)
        try:
            return c21.in_process(args), al.n + 0.5 * al.hit
        finally:
            sys.settrace(old)
    if at is None:
        with clock.virtual(tick=1e-4) as S:
            return c21.in_process(args), S.calls
    with clock.virtual(tick=1e-7, jump_at=at, jump=lambda: jump_to(r["left"]), flow=True) as S:
        return c21.in_process(args), S.calls


def content(top):
    out = {}
    for p, _, files in os.walk(top):
        for f in files:
            with open(os.path.join(p, f), "rb") as g:
                out[os.path.relpath(os.path.join(p, f), top)] = g.read()
    return out


def check(cs, ctx):
    files, names = [], []
    for d, idx in zip(cs["insts"], cs["idx"]):
        names.append(("ccmknap-%d-%d" % (d["n"], d["m"]), d["N"], idx))
        files.append(oracle.path_of("%s-%d-%d.csv" % names[-1]))
        oracle.write_instance(d, files[-1])
    top, dry = oracle.path_of("out28"), oracle.path_of("dry28")
    for p in (top, dry):
        shutil.rmtree(p, ignore_errors=True)
    rows = {}           # key -> row as last written
    try:
        for r in cs["runs"]:
            d = dict(cs["insts"][r["inst"]], cont=bool(r["cont"]), eps=r["eps"])
            args = [files[r["inst"]], str(r["cont"]), repr(r["eps"]), str(r["method"])]
            what = "experiment with %s" % r
            at = None
            if r["stop"]:
                with ctx.sut("undisturbed " + what):
                    ok, total = run(args + [dry + "/"], r, None)
                ctx.require(ok is True, "undisturbed %s failed" % what)
                if r["stop"] == "alarm":
                    at = 1 + r["at"] * max(int(total) - 1, 0) // 1000
                else:       # after the start
                    at = min(total, 2 + r["at"] * max(total - 1, 0) // 1000)
                what += " at %d of %d" % (at, total)
            before = content(top)
            with ctx.sut(what):
                ok, n = run(args + [top + "/"], r, at) if r["stop"] else \
                    (c21.in_process(args + [top + "/"]), 0)
            ctx.require(ok is True, "%s failed" % what)
            if r["stop"] == "alarm":
                ctx.label("alarm went off" if n % 1 else "no alarm")
            after = content(top)
            key = (r["inst"], r["cont"], r["eps"], r["method"])
            judge(ctx, d, names, key, top, what, r, rows)
            # what other experiments wrote is still there
            changed = [f for f in before if after.get(f) != before[f]]
            new = [f for f in after if f not in before]
            if key in rows or len(new) == 2:
                ctx.require(len(new) + len(changed) <= 2 and
                            (not changed or key in rows),
                            "%s: changed %s, created %s" % (what, changed, new))
            for k, row in list(rows.items()):
                if k != key:
                    ctx.require(read(ctx, names, k, top, what) == row,
                                "%s: the row of experiment %s changed" % (what, k))
            if key in rows:
                ctx.label("repeated")
            rows[key] = read(ctx, names, key, top, what)
            ctx.label("%s %d" % (r["stop"] or "undisturbed", r["method"]))
    finally:
        for f in set(files):
            os.remove(f)
        for p in (top, dry):
            shutil.rmtree(p, ignore_errors=True)
    ctx.nontrivial = any(r["stop"] for r in cs["runs"]) and len(rows) >= 2


def read(ctx, names, key, top, what):
    fam, N, idx = names[key[0]]
    with ctx.sut(what + ": reading a result"):
        row = sut.format_results.read_single_experiment(
            top + "/", fam, N, idx, key[2], key[1], key[3])
    ctx.require(len(row) > 0, "%s: the reader finds no row of experiment %s; files are %s" % (
        what, key, sorted(os.listdir(top))))
    return row


def judge(ctx, d, names, key, top, what, r, rows):
    opt = oracle.cc_opt(d)
    tol = e2e.tol_of(opt)
    row = read(ctx, names, key, top, what)
    w = "%s: row %s" % (what, row)
    ctx.require(row[0] == "%s-%d-%d" % names[key[0]] and row[1] == d["n"] and row[2] == d["m"]
                and row[3] == d["N"] and row[4] == int(d["cont"])
                and abs(row[5] - d["eps"]) <= 5.1e-4, w + ": instance fields")
    ctx.require(len(row) == (15 if key[3] in (1, 2) else 18), "%s: %d fields" % (w, len(row)))
    t, vLB, vUB, gap = row[-4:]
    ctx.require(t >= 0 and not math.isnan(gap), w + ": time or gap")
    ctx.require(vLB <= opt + tol + 1e-3 and vUB >= opt - tol - 1e-3, "%s: optimum %r" % (w, opt))
    ctx.require(c18.gap_ok(vLB, vUB, gap), w + ": not the relative gap")
    if not r["stop"]:
        ctx.require(abs(vLB - opt) <= tol + 1e-3 + 1e-4 * opt
                    and abs(vUB - opt) <= tol + 1e-3 + 1e-4 * opt, "%s: optimum %r" % (w, opt))
    if r["stop"] == "clock" and r["left"] < 0:
        ctx.label("closed" if vUB - vLB <= 1e-4 * abs(vLB) + 2e-3 else
                  "no solution" if vLB == -math.inf else "open gap")
    logs = [f for f in sorted(os.listdir(top))
            if f.startswith("%s-%d-%d-" % names[key[0]])
            and f.endswith("-%d-%d-iter.csv" % (key[1], key[3]))]
    ctx.require(len(logs) >= 1, "%s: no log; files are %s" % (what, sorted(os.listdir(top))))
    if len(logs) > 1:       # of several risks
        return
    log = e2e.read_rows(os.path.join(top, logs[0]))
    if key[3] in (1, 2):
        t0 = 0.0
        for q in log:
            q = [float(v) for v in q]
            ctx.require(t0 <= q[0] + 1e-9, "%s: logged times fall from %r: %s" % (w, t0, q))
            t0 = q[0]
            ctx.require(-q[1] <= opt + tol and -q[2] >= opt - tol, "%s: logged bounds %s" % (w, q))
    elif log:
        last = c18.judge_rows(ctx, log, d, opt, what)
        ctx.require(row[-6] in (last[3], last[3] + 1), "%s: %r iterations, the log has %r" % (
            w, row[-6], last[3]))


def targets(tier):
    return [dict(name="experiments", strategy=case, check=check, quick=450, thorough=6000)]
