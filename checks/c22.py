"""C22 Summary tables aggregate exactly the result files."""
import csv
import math
import os
import random
import re
import runpy
import shutil

from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import REPO

# The experiments of run_all_experiments.sh
FAMILIES = ["ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"]
SCENARIOS = [500, 1000, 3000, 5000]
EPS = [0.1, 0.2]
IDS = [1, 2, 3, 4, 5]
METHODS = [1, 2, 3, 4]
GAP = 0.01


def keys():
    return [(c, f, s, j, e, m) for c in (0, 1) for f in FAMILIES for s in SCENARIOS
            for j in IDS for e in EPS for m in METHODS]


@st.composite
def case(draw):
    return dict(seed=draw(gen.seeds()),
                missing=draw(st.sampled_from([0, 0, 1, 5, 40])),      # percent of files
                lost=draw(st.sampled_from([0, 0, 5, 30])),            # percent of groups
                open=draw(st.sampled_from([0, 3, 20, 60])),           # percent unsolved
                edge=draw(st.booleans()), ties=draw(st.booleans()),
                big=draw(st.booleans()))


def make(cs):
    """One row per experiment, as an experiment would write it, or None."""
    r = random.Random(cs["seed"])
    res = {}
    lost = {(c, f, s, e, m): r.random() * 100 < cs["lost"] for c in (0, 1) for f in FAMILIES
            for s in SCENARIOS for e in EPS for m in METHODS}
    hard = {(c, f, s, e, m): r.choice([0, 0.3, 1, 3]) for c in (0, 1) for f in FAMILIES
            for s in SCENARIOS for e in EPS for m in METHODS}
    for key in keys():
        c, f, s, j, e, m = key
        if r.random() * 100 < cs["missing"] or lost[c, f, s, e, m]:
            res[key] = None
            continue
        if r.random() * 100 < cs["open"] * hard[c, f, s, e, m]:
            gap = r.choice([0.011, 0.012, 0.5, 7.25, 100.0]) if cs["edge"] else \
                round(r.uniform(0.02, 30), 3)
            if cs["edge"] and r.random() < 0.05:
                gap = math.inf
            t = 3600 + round(r.uniform(0, 3), 3)
        else:
            gap = r.choice([0.0, 0.01, 0.009, -0.0]) if cs["edge"] else round(r.uniform(0, .01), 3)
            t = float(r.randint(1, 4)) if cs["ties"] else round(
                r.uniform(0.01, 3600 if cs["big"] else 20), 3)
        v = round(r.uniform(10, 9000), 3)
        head = ["%s-%d-%d" % (f, s, j), int(f.split("-")[1]), int(f.split("-")[2]), s, c,
                "%.3f" % e, "3600.000", "0.010", 1]
        if m in (1, 2):
            mid = [3 if m == 1 else 2, r.choice([r.uniform(0, 900), r.uniform(0, 1)])]
        else:
            mid = [2, 2, 5] if m == 3 else [3, 3, 5]
            mid += [r.randint(1, 60), r.randint(50, s)]
        res[key] = head + mid + ["%.3f" % t, "%.3f" % v, "%.3f" % (v * (1 + gap / 100)), "%.3f" % gap]
    return res


CELL = re.compile(r"^(-?[\d.]+|inf|nan)(s|\\%\((\d+)\))$")


def bare(text):
    m = re.match(r"^\\textbf\{(.*)\}$", text)
    return (m.group(1), True) if m else (text, False)


def near(a, b):
    if math.isinf(b) or math.isnan(b):
        return a == b
    return abs(a - b) <= 0.0051 + 1e-9 * abs(b)


def check(cs, ctx):
    res = make(cs)
    root = oracle.path_of("export")
    shutil.rmtree(root, ignore_errors=True)
    tables = os.path.join(root, "results", "tables")
    os.makedirs(tables)
    shutil.copy(os.path.join(REPO, "export_results.py"), root)
    for (c, f, s, j, e, m), row in res.items():
        if row is not None:
            with open(os.path.join(tables, "%s-%d-%d-%d-%d-%d.csv" % (
                    f, s, j, round(e * 100), c, m)), "w", newline="\n") as fh:
                csv.writer(fh).writerow(row)
    with ctx.sut("exporting"):
        runpy.run_path(os.path.join(root, "export_results.py"), run_name="__main__")
    out = os.path.join(root, "results")
    want = sorted(["%s-%d-result-table.csv" % (f, c) for f in FAMILIES for c in (0, 1)]
                  + ["%s-big-m-times.csv" % f for f in FAMILIES])
    got = sorted(x for x in os.listdir(out) if x != "tables")
    ctx.require(got == want, "tables written: %s" % got)
    for f in FAMILIES:
        big_m(ctx, out, f, res)
        for c in (0, 1):
            results(ctx, out, f, c, res)
    shutil.rmtree(root, ignore_errors=True)
    ctx.nontrivial = cs["open"] > 0 and (cs["missing"] > 0 or cs["lost"] > 0)
    ctx.label("missing %d%%" % cs["missing"], "open %d%%" % cs["open"],
              "groups lost %d%%" % cs["lost"])


def read(path):
    with open(path, newline="") as fh:
        return [r for r in csv.reader(fh) if r]


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def big_m(ctx, out, f, res):
    rows = read(os.path.join(out, f + "-big-m-times.csv"))
    ctx.require(len(rows) == len(SCENARIOS), "%s: %d big-M rows" % (f, len(rows)))
    for q, (s, row) in enumerate(zip(SCENARIOS, rows)):
        w = "big-M times of %s: row %s" % (f, row)
        ctx.require(len(row) == 5 and number(row[1]) == s, w)
        ctx.require((f.replace("ccmknap", "mk") in row[0]) == (q == 0), w + ": label")
        for cell, conts, m in ((row[2], (0, 1), 1), (row[3], (1,), 2), (row[4], (0,), 2)):
            vals = [res[c, f, s, j, e, m] for c in conts for j in IDS for e in EPS]
            if None in vals:
                ctx.require(cell == "-", "%s: %r although a file is missing" % (w, cell))
            else:
                avg = sum(v[10] for v in vals) / len(vals)
                ctx.require(cell.endswith("s") and number(cell[:-1]) is not None
                            and near(float(cell[:-1]), avg), "%s: %r, average %r" % (w, cell, avg))


def results(ctx, out, f, c, res):
    rows = read(os.path.join(out, "%s-%d-result-table.csv" % (f, c)))
    ctx.require(len(rows) == len(EPS) * len(SCENARIOS), "%s: %d rows" % (f, len(rows)))
    for q, row in enumerate(rows):
        e, s = EPS[q // len(SCENARIOS)], SCENARIOS[q % len(SCENARIOS)]
        w = "results of %s, variable type %d, risk %g: row %s" % (f, c, e, row)
        ctx.require(len(row) == 9 and number(row[2]) == s, w)
        ctx.require((f.replace("ccmknap", "mk") in row[0]) == (q == 0), w + ": label")
        ctx.require(number(row[1]) == e if s == SCENARIOS[0] else row[1] == "", w + ": risk")
        stats, bold = {}, []
        for m, pos in zip(METHODS, (3, 4, 5, 7)):
            text, b = bare(row[pos])
            if b:
                bold.append(m)
            vals = [res[c, f, s, j, e, m] for j in IDS]
            it = row[pos + 1] if m > 2 else None
            if it is not None:
                ctx.require(not bare(it)[1], w + ": highlighted iterations")
            if None in vals:
                ctx.require(text in ("-", "nan") and (it is None or it in ("-", "nan")),
                            "%s: method %d %r although a file is missing" % (w, m, text))
                continue
            gaps = [float(v[-1]) for v in vals]
            solved = sum(g <= GAP + 1e-9 for g in gaps)
            mm = CELL.match(text)
            ctx.require(mm is not None, "%s: entry %r" % (w, text))
            if solved == len(IDS):
                avg = sum(float(v[-4]) for v in vals) / len(IDS)
                ctx.require(mm.group(2) == "s" and near(float(mm.group(1)), avg),
                            "%s: method %d %r, average time %r" % (w, m, text, avg))
            else:
                avg = sum(gaps) / len(IDS)
                ctx.require(mm.group(3) is not None and int(mm.group(3)) == solved
                            and near(float(mm.group(1)), avg),
                            "%s: method %d %r, average gap %r, %d solved" % (w, m, text, avg, solved))
            stats[m] = (solved, avg)
            if m > 2:
                its = sum(v[-6] for v in vals) / len(IDS)
                ctx.require(number(it) is not None and abs(float(it) - its) <= 1e-6 + 0.0051,
                            "%s: method %d %r iterations, average %r" % (w, m, it, its))
        ctx.require(len(bold) == 1, w + ": %d entries highlighted" % len(bold))
        if not stats:
            continue
        ctx.require(bold[0] in stats, w + ": a missing entry is highlighted")
        full = {m: v for m, (n, v) in stats.items() if n == len(IDS)}
        if full:
            best = min(full.values())
            okay = [m for m in full if full[m] <= best + 1e-12]
        else:
            top = max(n for n, _ in stats.values())
            tied = {m: v for m, (n, v) in stats.items() if n == top}
            best = min(tied.values())
            okay = [m for m in tied if tied[m] <= best + 1e-12]
            ctx.label("no method solves all")
        ctx.require(bold[0] in okay, "%s: method %d highlighted, best are %s" % (w, bold[0], okay))


def targets(tier):
    return [dict(name="export", strategy=case, check=check, quick=45, thorough=1500)]
