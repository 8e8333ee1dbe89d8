"""C08 Editing a deterministic model equals rebuilding it."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def edits(draw, large=False):
    if large:
        d = draw(gen.bulk(n=(1, 6), m=(1, 4), N=(30, 90)))
    else:
        d = draw(gen.instance(n=(1, 7), m=(1, 3), N=(2, 9)))
    N = d["N"]
    cur = set(draw(st.permutations(range(N)))[:draw(st.integers(0, N))])
    first = sorted(cur)
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        out = sorted(set(range(N)) - cur)
        kind = draw(st.sampled_from(["add", "remove", "solve"]))
        if kind == "add" and out:
            k = draw(st.integers(1, len(out)))
            arg = draw(st.permutations(out))[:k]
            single = k == 1 and draw(st.booleans())
            cur |= set(arg)
            ops.append(dict(op="add", arg=arg[0] if single else arg))
        elif kind == "remove" and cur:
            k = draw(st.integers(1, len(cur)))
            arg = draw(st.permutations(sorted(cur)))[:k]
            single = k == 1 and draw(st.booleans())
            cur -= set(arg)
            ops.append(dict(op="remove", arg=arg[0] if single else arg))
        else:
            ops.append(dict(op="solve"))
    ops.append(dict(op="solve"))
    return dict(inst=d, first=first, ops=ops)


def check_edits(case, ctx):
    d = case["inst"]
    with ctx.sut("loading"):
        ci = oracle.load(d)
        model = sut.DeterModel(ci)
        model.build(list(case["first"]))
    cur = set(case["first"])
    removed = False
    for q, op in enumerate(case["ops"]):
        if op["op"] == "solve":
            with ctx.sut("solve"):
                model.solve()
                v = float(model.get_obj_val())
                x = [float(u) for u in model.get_var_x_val()]
                fresh = sut.DeterModel(ci)
                fresh.build(sorted(cur))
                fresh.solve()
                f = float(fresh.get_obj_val())
            want = oracle.subset_opt(d, sorted(cur))
            ctx.require(oracle.close(v, want, 1.1e-4, 1e-5) and oracle.close(v, f, 1.1e-4, 1e-5),
                        "op %d: edited model gives %r, rebuilt model %r, optimum %r for "
                        "scenarios %s" % (q, v, f, want, sorted(cur)))
            ctx.require(oracle.in_box(x, d["cont"])
                        and oracle.close(oracle.obj(d, x), v, 1e-6, 1e-5),
                        "op %d: solution %s does not attain %r" % (q, x, v))
            if removed and cur:
                ctx.nontrivial = True
        else:
            a = op["arg"]
            with ctx.sut(op["op"]):
                getattr(model, op["op"])(list(a) if isinstance(a, list) else a)
            a = a if isinstance(a, list) else [a]
            cur = cur | set(a) if op["op"] == "add" else cur - set(a)
            removed |= op["op"] == "remove"
            ctx.label(op["op"])


@st.composite
def calls(draw, large=False):
    if large:
        d = draw(gen.many(N=(40, 120), n=(2, 5)))
    else:
        d = draw(gen.instance(n=(2, 7), m=(1, 3), N=(2, 9), kmin=1))
    steps = []
    for _ in range(draw(st.integers(2, 9 if large else 5))):
        steps.append(dict(x=draw(gen.point(d["n"], d["cont"])),
                          raise_to=draw(st.sampled_from([None, None, 10, 50, 90, 99, 101, 120]))))
    return dict(inst=d, steps=steps,
                method=draw(st.sampled_from(["rescaled_max_violation", "counter"])))


def check_calls(case, ctx):
    d = case["inst"]
    opt = oracle.cc_opt(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        lb = sut.LowerBounder(ci, case["method"])
    cur, hist = -np.inf, []
    for q, stp in enumerate(case["steps"]):
        x = np.array(stp["x"], dtype=float)
        if stp["raise_to"] is not None and opt > 1:
            new = opt * stp["raise_to"] / 100.0
            if new > cur:
                cur = new
        feas = np.array([s not in oracle.violated_set(d, x) for s in range(d["N"])])
        hist.append(feas)
        with ctx.sut("deterministic_bound"):
            lb.save_feasible_scenarios(feas.copy())
            lb.vLB = cur
            sx, v = lb.deterministic_bound(x.copy())
            v = float(v)
            fresh = sut.LowerBounder(ci, case["method"])
            for f in hist:
                fresh.save_feasible_scenarios(f.copy())
            fresh.vLB = cur
            fx, fv = fresh.deterministic_bound(x.copy())
            fv = float(fv)
        ctx.require((sx is None) == (v < -1e5), "no solution but value %r" % v)
        edge = 1e-4 * abs(cur) + 1e-5 if np.isfinite(cur) else 0
        if oracle.close(v, fv, 1.1e-4, 1e-5):
            pass
        elif sx is None and fx is not None and abs(fv - cur) <= edge or \
                fx is None and sx is not None and abs(v - cur) <= edge:
            ctx.label("on the edge of the current bound")
        else:
            ctx.fail("call %d: incremental lower bound %r, fresh %r (current bound %r)" % (
                q, v, fv, cur))
        if sx is not None:
            ctx.require(oracle.close(oracle.obj(d, sx), v, 1e-6, 1e-5), "call %d: solution has "
                        "objective %r, value %r" % (q, oracle.obj(d, sx), v))
            ctx.require(oracle.surely_violated(d, sx) <= oracle.K(d),
                        "call %d: solution violates too many scenarios" % q)
            if q:
                ctx.nontrivial = True
            if v > cur:
                cur = v
                ctx.label("improves")
        else:
            ctx.label("bound not reachable")


def targets(tier):
    return [dict(name="model edits", strategy=edits, check=check_edits,
                 quick=1800, thorough=12000),
            dict(name="lower-bound calls", strategy=calls, check=check_calls,
                 quick=1500, thorough=10000),
            dict(name="model edits, many scenarios", strategy=lambda: edits(True),
                 check=check_edits, quick=150, thorough=2000),
            dict(name="lower-bound calls, many scenarios", strategy=lambda: calls(True),
                 check=check_calls, quick=100, thorough=1500)]
