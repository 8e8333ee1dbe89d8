"""Whole solves through the public interface, and what must hold of them."""
import csv
import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut

REL, ABS = 3e-4, 2e-4


@st.composite
def adaptive_options(draw, gaps=(1e-4, 1e-4, 1e-4, 1e-2, 5e-2)):
    return dict(split=draw(st.sampled_from(["random", "cost"])),
                init=draw(st.sampled_from(["random", "cost"])),
                proj=draw(st.sampled_from(["rescaled_max_violation"] * 2 + ["counter"])),
                merge=draw(st.booleans()),
                big_m=draw(st.sampled_from([None, "naive", "belotti", "song"])),
                lazy=draw(st.booleans()),
                gap=draw(st.sampled_from(gaps)),
                seed=draw(gen.seeds()))


@st.composite
def milp_options(draw, gaps=(1e-4, 1e-4, 1e-4, 1e-2, 5e-2)):
    return dict(big_m=draw(st.sampled_from([None, "naive", "belotti", "song"])),
                gap=draw(st.sampled_from(gaps)))


def make_adaptive(ci, o, time_limit=1800):
    random.seed(o["seed"])
    np.random.seed(o["seed"] % (2 ** 32))
    return sut.AdaptivePartitioner(
        ci, split_method=o["split"], initial_partition_type=o["init"],
        projection_method=o["proj"], use_acc_obj=o["split"] == "cost",
        time_limit=time_limit, gap=o["gap"])


def run_adaptive(M, o):
    M.solve(sut.BigMFinder(M.chance_instance_part),
            use_big_M=o["big_m"] is not None,
            big_m_method=o["big_m"] or "belotti",
            use_merger=o["merge"], use_lazy=o["lazy"])


def run_milp(M, o, path=None):
    M.solve(use_big_m=o["big_m"] is not None, big_m_method=o["big_m"] or "naive",
            save_bounds=path is not None, path=path)


def tol_of(opt):
    return REL * max(1.0, abs(opt)) + ABS


def require_lower(ctx, d, opt, vLB, xLB, what, attained=True):
    tol = tol_of(opt)
    ctx.require(not math.isnan(vLB), "%s: lower bound is nan" % what)
    ctx.require(vLB <= opt + tol, "%s: lower bound %r above the optimum %r" % (what, vLB, opt))
    if xLB is None:
        ctx.require(not attained or vLB == -math.inf,
                    "%s: lower bound %r without a solution" % (what, vLB))
        return
    x = [float(v) for v in xLB]
    ctx.require(len(x) == d["n"] and oracle.in_box(x, d["cont"]),
                "%s: solution %s out of bounds" % (what, x))
    nv = oracle.surely_violated(d, x)
    ctx.require(nv <= oracle.K(d), "%s: solution %s violates %d scenarios, %d tolerated" % (
        what, x, nv, oracle.K(d)))
    if attained:
        ctx.require(oracle.close(oracle.obj(d, x), vLB, 2e-4, 1e-4),
                    "%s: solution of objective %r for lower bound %r" % (
                        what, oracle.obj(d, x), vLB))


def require_upper(ctx, opt, vUB, what):
    ctx.require(vUB >= opt - tol_of(opt), "%s: upper bound %r below the optimum %r" % (
        what, vUB, opt))


def require_optimal(ctx, d, opt, gap, vLB, vUB, xLB, what):
    """The bounds are valid, close to each other and to the optimum."""
    tol = tol_of(opt)
    require_lower(ctx, d, opt, vLB, xLB, what)
    require_upper(ctx, opt, vUB, what)
    ctx.require(xLB is not None, "%s: no solution" % what)
    ctx.require(math.isfinite(vUB) and math.isfinite(vLB), "%s: bounds %r, %r" % (what, vLB, vUB))
    ctx.require(vUB - vLB <= gap * abs(vLB) * (1 + 1e-6) + 1e-5 + 1e-8 * abs(vLB),
                "%s: bounds %r and %r further apart than the gap %g" % (what, vLB, vUB, gap))
    ctx.require(vLB >= opt / (1 + gap) - tol and vUB <= opt * (1 + gap) + tol,
                "%s: bounds %r, %r, optimum %r" % (what, vLB, vUB, opt))


def read_rows(path):
    with open(path, newline="") as f:
        return [r for r in csv.reader(f) if r]


def read_floats(path):
    return [[float(v) for v in r] for r in read_rows(path)]


def fresh(name):
    p = oracle.path_of(name)
    if os.path.exists(p):
        os.remove(p)
    return p
