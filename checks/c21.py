"""C21 An experiment run writes a truthful, readable result row."""
import contextlib
import os
import random
import runpy
import shutil
import signal
import subprocess
import sys

from hypothesis import strategies as st

from vlib import e2e, env, gen, oracle
from vlib.env import REPO, sut
from checks import c18

MILP, PART = [1, 2], [3, 4]
SCRIPT = os.path.join(REPO, "main.py")
CODES = {}          # method -> option codes seen in this process


@st.composite
def case(draw, one=False):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        d = draw(gen.instance(n=(1, 6), m=(1, 4), N=(2, 12), kmax=5, zero_c=False))
    else:
        d = draw(gen.hard_instance())
    # risk tolerances as they are given on the command line: percentages,
    # some with decimals
    N = d["N"]
    pct = draw(st.one_of(st.integers(0, 99), st.integers(0, 30),
                         st.sampled_from([12.5, 33.3, 28, 29, 57, 58, 7, 14])))
    eps = float(repr(round(pct / 100, 4)))
    if not gen.risk_ok(eps, N) or gen.tolerated(eps, N) > 5 or gen.tolerated(eps, N) >= N:
        eps = gen.tolerated(d["eps"], N) / N
        eps = eps if gen.risk_ok(round(eps, 6), N) and gen.tolerated(round(eps, 6), N) else 0.0
        eps = round(eps, 6)
    d["eps"] = eps
    methods = draw(st.permutations([1, 2, 3, 4]))
    again = draw(st.integers(0, 2)) == 0        # the first experiment is run twice
    return dict(inst=d, idx=draw(st.integers(1, 9)),
                methods=methods[:1] if one else methods[:draw(st.integers(1, 4))],
                again=again and not one, depth=draw(st.integers(0, 2)))


@contextlib.contextmanager
def as_process():
    """Undoes what the script does to the process it runs in."""
    argv, environ = sys.argv, dict(os.environ)
    old = {s: signal.getsignal(s) for s in (signal.SIGALRM, signal.SIGINT)}
    state = random.getstate()
    try:
        yield
    finally:
        signal.alarm(0)
        for s, h in old.items():
            signal.signal(s, h)
        sys.argv = argv
        os.environ.clear()
        os.environ.update(environ)
        random.setstate(state)


def in_process(args):
    with as_process():
        sys.argv = [SCRIPT] + args
        try:
            runpy.run_path(SCRIPT, run_name="__main__")
        except SystemExit as e:
            return e.code in (None, 0)
    return True


def in_subprocess(args):
    e = env.child_env()
    e["PYTHONPATH"] = [p for p in sys.path if any(
        f.startswith("violations.") for f in (os.listdir(p) if os.path.isdir(p) else []))
        and p != REPO][0]
    r = subprocess.run([sys.executable, SCRIPT] + args, env=e, capture_output=True, text=True,
                       timeout=300)
    if r.returncode != 0 and "size-limited" in r.stderr:
        from vlib.core import Skip
        raise Skip("licence size limit")
    return r.returncode == 0 or r.stderr[-500:]


def check(cs, ctx, launch):
    d = cs["inst"]
    N, cont = d["N"], d["cont"]
    opt = oracle.cc_opt(d)
    tol = e2e.tol_of(opt)
    family = "ccmknap-%d-%d" % (d["n"], d["m"])
    name = "%s-%d-%d" % (family, N, cs["idx"])
    src = oracle.path_of(name + ".csv")
    oracle.write_instance(d, src)
    top = oracle.path_of("out")
    shutil.rmtree(top, ignore_errors=True)
    out = os.path.join(top, *["sub"] * cs["depth"]) + "/"
    try:
        for method in cs["methods"] + cs["methods"][:cs["again"]]:
            what = "experiment with method %d, %s, risk %r" % (
                method, "continuous" if cont else "binary", d["eps"])
            with ctx.sut(what):
                r = launch([src, str(int(cont)), repr(d["eps"]), str(method), out])
            ctx.require(r is True, "%s failed: %s" % (what, r))
            judge(ctx, d, opt, tol, family, name, cs["idx"], method, out, what)
            ctx.label("method %d" % method)
    finally:
        os.remove(src)
    k = oracle.K(d)
    if k and opt > oracle.subset_opt(d, range(N)) + 1e-3:
        ctx.nontrivial = True


def judge(ctx, d, opt, tol, family, name, idx, method, out, what):
    N, cont = d["N"], d["cont"]
    with ctx.sut(what + ": reading the result"):
        row = sut.format_results.read_single_experiment(
            out, family, N, idx, d["eps"], int(cont), method)
    files = sorted(os.listdir(out))
    ctx.require(len(row) > 0, "%s: the reader finds no row; files are %s" % (what, files))
    mine = [f for f in files if f.endswith("-%d-%d.csv" % (int(cont), method))]
    ctx.require(len(mine) == 1, "%s: result files %s" % (what, mine))
    text = e2e.read_rows(os.path.join(out, mine[0]))
    ctx.require(len(text) == 1, "%s: %d rows" % (what, len(text)))
    w = "%s: row %s" % (what, text[0])
    ctx.require(row[0] == name, w + ": instance name")
    ctx.require(row[1] == d["n"] and row[2] == d["m"] and row[3] == N
                and row[4] == int(cont) and abs(row[5] - d["eps"]) <= 5.1e-4,
                w + ": instance fields")
    ctx.require(abs(row[6] - 3600) < 1e-6 and abs(row[7] - 0.01) < 1e-9, w + ": limits")
    t, vLB, vUB, gap = row[-4:]
    ctx.require(0 <= t < 3600, w + ": time")
    ctx.require(abs(vLB - opt) <= tol + 1e-3 + 1e-4 * opt and
                abs(vUB - opt) <= tol + 1e-3 + 1e-4 * opt, "%s: optimum %r" % (w, opt))
    if vLB > 0.01:
        ctx.require(abs(gap - 100 * (vUB - vLB) / vLB) <= 2e-3 + 100 * 2.1e-3 / vLB, w + ": gap")
    code = tuple(row[8:10]) if method in MILP else tuple(row[8:12])
    ctx.require(CODES.setdefault(method, code) == code,
                "%s: option codes %s, other runs of the method wrote %s" % (w, code, CODES[method]))
    for other in (MILP if method in MILP else PART):
        ctx.require(other == method or CODES.get(other) != code,
                    "%s: option codes %s of method %d" % (w, code, other))
    ctx.require(len(row) == (15 if method in MILP else 18), "%s: %d fields" % (w, len(row)))
    log = os.path.join(out, mine[0][:-4] + "-iter.csv")
    if method in PART:
        ctx.require(os.path.exists(log), "%s: no iteration log; files are %s" % (what, files))
        rows = e2e.read_rows(log)
        last = c18.judge_rows(ctx, rows, d, opt, what)
        ctx.require(row[-6] == last[3], "%s: %r iterations, the log has %r" % (w, row[-6], last[3]))
        ctx.require(oracle.K(d) + 1 <= row[-5] <= N, w + ": partition size")
        ctx.require(row[-5] == last[4], "%s: %r subsets, the log ends with %r" % (w, row[-5], last[4]))
        ctx.label("iterations %d" % min(row[-6], 4))
    else:
        ctx.require(os.path.exists(log), "%s: no bound log; files are %s" % (what, files))
        ctx.require(0 <= row[10] <= t + 2e-3, w + ": big-M time")
        t0 = 0.0
        for r in e2e.read_floats(log):
            ctx.require(t0 <= r[0] + 1e-9, "%s: logged times fall from %r: %s" % (w, t0, r))
            t0 = r[0]
            ctx.require(-r[1] <= opt + tol and -r[2] >= opt - tol, "%s: logged bounds %s" % (w, r))
    if opt > 1:
        with ctx.sut(what + ": formatting"):
            mt, ns, mg, cells = sut.format_results.format_method(
                [row], method, range(1, 2), 1e-2, MILP, PART)
        if gap <= 0.01:
            ctx.require(ns == 1 and abs(mt - t) < 1e-9, "%s: read as %s" % (w, (mt, ns, mg, cells)))
            ctx.require(method in MILP or cells[1] == row[-6], "%s: read as %s" % (w, cells))


@st.composite
def precision_case(draw):
    d = draw(gen.hard_instance()) if draw(st.booleans()) else draw(
        gen.instance(n=(1, 6), m=(1, 4), N=(2, 12), kmax=5, zero_c=False))
    o = draw(e2e.adaptive_options(gaps=(1e-4,)))
    milp = draw(st.sampled_from([None, "naive", "belotti", "song", "indicator"]))
    return dict(inst=d, opt=o, milp=milp, gap=draw(st.sampled_from([1e-4, 1.2345e-4, 0.02, 3e-7])),
                limit=draw(st.sampled_from([60, 123.456789, 3600, 1000.00049])),
                decimals=draw(st.lists(st.integers(0, 8), min_size=1, max_size=3)))


def check_precision(cs, ctx):
    """The row of a solve through the interface, with the number of decimals asked for."""
    d, o, milp = cs["inst"], cs["opt"], cs["milp"]
    what = "MILP solve, %s" % milp if milp else "adaptive solve with %s" % o
    with ctx.sut("loading"):
        ci = oracle.load(d)
    with ctx.sut(what):
        if milp:
            M = sut.MilpSolver(ci, time_limit=cs["limit"], gap=cs["gap"])
            M.solve(use_big_m=milp != "indicator",
                    big_m_method="naive" if milp == "indicator" else milp)
        else:
            M = e2e.make_adaptive(ci, dict(o, gap=cs["gap"]), time_limit=cs["limit"])
            e2e.run_adaptive(M, o)
        sut.TimeManager.set_final_time()
        total = float(sut.TimeManager.get_total_time())
    vLB, vUB = float(M.vLB), float(M.vUB)
    path = oracle.path_of("precision.csv")
    for k in cs["decimals"]:
        with ctx.sut(what + ": writing with %d decimals" % k):
            M.write_all_computation_details(path, decimal_places=k)
        rows = e2e.read_rows(path)
        os.remove(path)
        w = "%s, %d decimals: rows %s" % (what, k, rows)
        ctx.require(len(rows) == 1 and len(rows[0]) == (15 if milp else 18), w)
        row = rows[0]
        gap = (100 * (vUB - vLB) / vLB) if abs(vLB) > 1e-6 else None
        for name, field, value in (("risk", 5, d["eps"]), ("limit", 6, cs["limit"]),
                                   ("required gap", 7, 100 * cs["gap"]), ("time", -4, total),
                                   ("lower bound", -3, vLB), ("upper bound", -2, vUB),
                                   ("gap", -1, gap)):
            if value is None:
                continue
            # half a unit of the last place
            near = 0.5000001 * 10.0 ** -k + 1e-9 * (1 + abs(value))
            ctx.require(abs(float(row[field]) - value) <= near,
                        "%s: %s is %r" % (w, name, value))
            ctx.require(len(row[field].partition(".")[2]) == k,
                        "%s: %s has %d decimals" % (w, name, len(row[field].partition(".")[2])))
    if max(cs["decimals"]) > 3 and vLB > 0.01:
        ctx.nontrivial = True
    ctx.label("MILP" if milp else "adaptive")


def targets(tier):
    return [dict(name="precision", strategy=precision_case, check=check_precision,
                 quick=60, thorough=1500),
            dict(name="run", strategy=case, check=lambda c, x: check(c, x, in_process),
                 quick=300, thorough=3000),
            dict(name="command line", strategy=lambda: case(True),
                 check=lambda c, x: check(c, x, in_subprocess), quick=20, thorough=60)]
