"""C24 Solves are reproducible and leave the instance untouched."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from vlib import clock, e2e, gen, oracle
from vlib.env import sut

WORK = ("adaptive", "adaptive", "milp", "expired", "expired", "costs", "belotti", "song", "naive", "lower",
        "check", "partition", "initial")


@st.composite
def job(draw):
    kind = draw(st.sampled_from(WORK))
    j = dict(kind=kind, on=draw(st.sampled_from(["same", "same", "other"])),
             seed=draw(gen.seeds()))
    if kind == "adaptive":
        j["opt"] = draw(e2e.adaptive_options())
    if kind == "milp":
        j["opt"] = draw(e2e.milp_options())
    if kind == "expired":       # a solve with no time, or hardly any
        j["milp"] = draw(st.booleans())
        j["opt"] = draw(e2e.milp_options() if j["milp"] else e2e.adaptive_options())
        j["at"] = draw(st.sampled_from([None, 1, 4, 8, 16, 30]))
    return j


@st.composite
def case(draw):
    d = draw(gen.hard_instance(N=(5, 14), n=(2, 6), m=(1, 3), kmax=3))
    e = draw(gen.instance(n=(1, 5), m=(1, 3), N=(2, 9), kmax=3))
    milp = draw(st.integers(0, 4)) == 0
    return dict(inst=d, other=e, milp=milp,
                opt=draw(e2e.milp_options() if milp else e2e.adaptive_options()),
                # work done before the solve is repeated, and some of it
                # between building and running the repeated solver
                jobs=[draw(job()) for _ in range(draw(st.integers(1, 3)))],
                inside=draw(st.integers(0, 1)), reload=draw(st.booleans()))


def snapshot(ci):
    return dict(A=np.array(ci.get_matrices_A()), b=np.array(ci.get_vectors_b()),
                c=np.array(ci.get_vector_c()), proba=np.array(ci.get_proba()),
                eps=float(ci.get_epsilon()), n=int(ci.get_nb_vars()),
                N=int(ci.get_nb_scenarios()), lb=np.array(ci.get_var_lb()),
                ub=np.array(ci.get_var_ub()), vt=np.array(ci.get_var_type()),
                m=np.array([ci.get_nb_constraints(s) for s in range(ci.get_nb_scenarios())]))


def same(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a)


def work(j, ci, d):
    """Any use of the code under test on an instance."""
    r = random.Random(j["seed"])
    kind = j["kind"]
    random.seed(j["seed"])
    N, k = d["N"], oracle.K(d)
    size = r.randint(k + 1, N)
    part = [[] for _ in range(size)]
    for i, s in enumerate(r.sample(range(N), N)):
        part[i if i < size else r.randrange(size)].append(s)
    x = np.array([float(r.randint(0, 1)) for _ in range(d["n"])])
    if kind == "adaptive":
        e2e.run_adaptive(e2e.make_adaptive(ci, j["opt"]), j["opt"])
    elif kind == "milp":
        M = sut.MilpSolver(ci, 600, j["opt"]["gap"])
        e2e.run_milp(M, j["opt"])
    elif kind == "expired":
        with clock.virtual(tick=1e-4, jump_at=j["at"], jump=1e4):
            limit = 0 if j["at"] is None else 600
            if j["milp"]:
                e2e.run_milp(sut.MilpSolver(ci, limit, j["opt"]["gap"]), j["opt"])
            else:
                e2e.run_adaptive(e2e.make_adaptive(ci, j["opt"], limit), j["opt"])
    elif kind == "costs":
        ev = sut.Evaluator(ci)
        ev.get_all_single_scenario_costs()
        ev.partition_cost(part)
    elif kind in ("belotti", "song", "naive"):
        f = sut.BigMFinder(ci)
        f.update_big_M(N, oracle.obj(d, [1] * d["n"]) * r.random(), method=kind,
                       chance_instance=ci)
        f.get_vector_big_M(0)[:] = -1.0
        v = sut.PartitionChanceKnapInstance(ci)
        v.load_partition(size, part)
        f = sut.BigMFinder(v)
        f.update_big_M(size, oracle.obj(d, [1] * d["n"]), method=kind, chance_instance=ci,
                       partition=part)
    elif kind == "lower":
        lb = sut.LowerBounder(ci)
        lb.vLB = -np.inf
        lb.deterministic_bound(x)
        lb.incumbent_bound([x], np.inf, -np.inf)
    elif kind == "check":
        ci.check_feasibility(x)
        ci.is_feasible(x)
    elif kind == "partition":
        v = sut.PartitionChanceKnapInstance(ci)
        v.load_partition(size, part)
        for c in range(size):
            v.get_matrix_A(c), v.get_vector_b(c)
    elif kind == "initial":
        sut.Initializer(ci, None).create_first_partition(
            size, r.choice(["random", "cost"]))


def solve(ci, cs, between=None):
    o = cs["opt"]
    if cs["milp"]:
        M = sut.MilpSolver(ci, 600, o["gap"])
        if between:
            between()
        e2e.run_milp(M, o)
        return dict(vLB=float(M.vLB), vUB=float(M.vUB), x=[float(v) for v in M.xLB])
    M = e2e.make_adaptive(ci, o)
    if between:
        between()
    random.seed(o["seed"] + 1)
    np.random.seed(o["seed"] % 2 ** 32)
    e2e.run_adaptive(M, o)
    return dict(vLB=float(M.vLB), vUB=float(M.vUB), x=[float(v) for v in M.xLB],
                partition=[[int(s) for s in p] for p in M.partition],
                iterations=int(M.iteration))


def check(cs, ctx):
    d, e = cs["inst"], cs["other"]
    with ctx.sut("loading"):
        ci, cj = oracle.load(d), oracle.load(e, "other.csv")
        a, b = snapshot(ci), snapshot(cj)
    what = "solve with %s" % cs["opt"]
    with ctx.sut(what):
        first = solve(ci, cs)
    ctx.require(same(a, snapshot(ci)), "%s changed the instance" % what)

    def run(js):
        for j in js:
            w = "work %s on the %s instance" % (j, j["on"])
            with ctx.sut(w):
                work(j, ci if j["on"] == "same" else cj, d if j["on"] == "same" else e)
            ctx.require(same(a, snapshot(ci)) and same(b, snapshot(cj)), "%s changed the data "
                        "of an instance" % w)
            ctx.label(j["kind"])
    # (the clock is shared: a limit that expires in between would apply)
    inside = [j for j in cs["jobs"][:cs["inside"]] if j["kind"] != "expired"]
    run([j for j in cs["jobs"] if j not in inside])
    with ctx.sut(what + " again"):
        again = solve(oracle.load(d, "again.csv") if cs["reload"] else ci, cs,
                      (lambda: run(inside)) if inside else None)
    ctx.require(first == again, "%s gave %s, and after %s gave %s" % (
        what, first, [j["kind"] for j in cs["jobs"]], again))
    ctx.require(same(a, snapshot(ci)), "%s changed the instance" % what)
    ctx.nontrivial = cs["milp"] or first["iterations"] >= 2
    ctx.label("extended" if cs["milp"] else "iterations %d" % min(first["iterations"], 5))


def targets(tier):
    return [dict(name="repeat", strategy=case, check=check, quick=960, thorough=5000)]
