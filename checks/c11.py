"""C11 Merging keeps a partition and its bookkeeping aligned."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, large=False):
    if large:
        d = draw(gen.bulk(n=(1, 6), m=(1, 5), N=(30, 120)))
    else:
        d = draw(gen.instance(n=(1, 5), m=(1, 3), N=(3, 14)))
    N = d["N"]
    part = draw(gen.partition(N, kmin=2))
    ops, size = [], len(part)
    for _ in range(draw(st.integers(1, 4))):
        if size < 2:
            break
        kind = draw(st.sampled_from(["all", "feasible", "feasible", "pairs"]))
        order = draw(st.permutations(range(size)))
        if kind == "all":
            r = draw(st.integers(2, size))
            ops.append(dict(kind=kind, cand=order[:r]))
            size -= r - 1
        elif kind == "feasible":
            r = draw(st.integers(2, size))
            mu = draw(st.integers(1, r - 1))
            ops.append(dict(kind=kind, cand=sorted(order[:r]) if draw(st.booleans())
                            else order[:r], mu=mu, x=draw(gen.point(d["n"], d["cont"]))))
            size -= mu
        else:
            r = draw(st.integers(1, size // 2))
            ops.append(dict(kind=kind, a=order[:r], b=order[r:2 * r]))
            size -= r
    return dict(inst=d, part=part, ops=ops)


def margins(d, part, x):
    A, b, _ = oracle.arrays(d)
    slack = b[None, :] - A @ np.array(x)
    nrm = np.sqrt((A ** 2).sum(2))
    slack = slack / np.where(nrm > 0, nrm, 1)
    return [float(slack[list(p)].min()) for p in part]


def check(case, ctx):
    d = case["inst"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
        view = sut.PartitionChanceKnapInstance(ci)
        mg = sut.Merger(ci, view)
    part = [list(p) for p in case["part"]]
    for q, op in enumerate(case["ops"]):
        before = copy.deepcopy(part)
        given = copy.deepcopy(part)
        with ctx.sut("merge " + op["kind"]):
            view.load_partition(len(given), copy.deepcopy(given))
            if op["kind"] == "all":
                out, nb = mg.merge_all(given, list(op["cand"]))
            elif op["kind"] == "feasible":
                out, nb = mg.merge_feasible(given, np.array(op["x"]), list(op["cand"]), op["mu"])
            else:
                out, nb = mg.merge(given, list(op["a"]), list(op["b"]))
            out = [[int(s) for s in p] for p in out]
            deleted = sorted(int(v) for v in mg.deleted_subsets)
            tgts = sorted(int(v) for v in mg.target_subsets)
        # what was united, from the reported positions
        if op["kind"] == "pairs":
            groups = [sorted(p) for p in zip(op["a"], op["b"])]
        elif op["kind"] == "all":
            groups = [sorted(op["cand"])]
        else:
            g = sorted(set(tgts) | set(deleted))
            ctx.require(set(g) <= set(op["cand"]), "merged %s, candidates %s" % (g, op["cand"]))
            ctx.require(len(g) == op["mu"] + 1, "merged %d subsets, %d requested plus one" % (
                len(g), op["mu"]))
            mar = margins(d, before, op["x"])
            out_of = [mar[c] for c in op["cand"] if c not in g]
            if out_of:
                ctx.require(min(mar[c] for c in g) >= max(out_of) - 1e-9,
                            "merged %s although margins are %s" % (
                                g, {c: mar[c] for c in op["cand"]}))
                if len(set(round(mar[c], 9) for c in op["cand"])) > 1:
                    ctx.nontrivial = True
                    ctx.label("chosen by margin")
            groups = [g]
        want = [frozenset(p) for p in before]
        for g in groups:
            want[g[0]] = frozenset(s for c in g for s in before[c])
        dead = sorted(c for g in groups for c in g[1:])
        ctx.require(deleted == dead, "deleted positions %s, expected %s" % (deleted, dead))
        ctx.require(tgts == sorted(g[0] for g in groups), "target positions %s for groups %s" % (
            tgts, groups))
        want = [w for c, w in enumerate(want) if c not in dead]
        ctx.require(int(nb) == len(out) == len(want), "reported %s subsets, has %d, expected %d"
                    % (nb, len(out), len(want)))
        ctx.require(oracle.is_partition(out, d["N"]), "not a partition: %s" % out)
        ctx.require(oracle.norm(out) == want, "%s of %s gives %s" % (op, before, out))
        ctx.label(op["kind"], "step %d" % q)
        if len(dead) > 1 and len(out) > 1:
            ctx.nontrivial = True
        part = out


def targets(tier):
    return [dict(name="merge", strategy=case, check=check, quick=5600, thorough=30000),
            dict(name="merge, many scenarios", strategy=lambda: case(True), check=check,
                 quick=200, thorough=3000)]
