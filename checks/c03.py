"""C03 A partitioned view aggregates exactly its scenarios."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, oracle
from vlib.env import sut


@st.composite
def case(draw, large=False):
    if large:
        d = draw(gen.bulk(n=(1, 4), m=(1, 9), N=(30, 150), kmax=draw(st.sampled_from([0, 2, 100]))))
    else:
        d = draw(gen.instance(n=(1, 6), m=(1, 4), N=(1, 12)))
    N, k = d["N"], gen.tolerated(d["eps"], d["N"])
    most = min(N, k + draw(st.sampled_from([1, 3, N]))) if large else N
    parts = draw(st.lists(gen.partition(N, kmin=k + 1, kmax=most), min_size=1,
                          max_size=2 if large else 4))
    return dict(inst=d, parts=parts, np_ints=draw(st.booleans()))


def snapshot(ci, N):
    return dict(A=np.array(ci.get_matrices_A()), b=np.array(ci.get_vectors_b()),
                c=np.array(ci.get_vector_c()), p=np.array(ci.get_proba()),
                e=ci.get_epsilon(), n=ci.get_nb_vars(), N=ci.get_nb_scenarios(),
                m=[int(ci.get_nb_constraints(s)) for s in range(N)],
                vt=np.array(ci.get_var_type()), lb=np.array(ci.get_var_lb()),
                ub=np.array(ci.get_var_ub()), f=ci.get_file_name(),
                A_s=np.array([ci.get_matrix_A(s) for s in range(N)]),
                b_s=np.array([ci.get_vector_b(s) for s in range(N)]))


def same(a, b):
    return all(np.array_equal(a[q], b[q]) for q in a)


def check(case, ctx):
    d = case["inst"]
    N, m, n, k = d["N"], d["m"], d["n"], oracle.K(d)
    A, b, c = oracle.arrays(d)
    with ctx.sut("loading"):
        ci = oracle.load(d)
        before = snapshot(ci, N)
        view = sut.PartitionChanceKnapInstance(ci)
    for q, part in enumerate(case["parts"]):
        given = [[np.int64(s) for s in p] if case["np_ints"] else list(p) for p in part]
        with ctx.sut("load_partition"):
            view.load_partition(len(given), given)
        ctx.require([[int(s) for s in p] for p in given] == part,
                    "load_partition changed the partition it was given")
        for rep in range(2):
            with ctx.sut("getters of the view"):
                nb = int(view.get_nb_scenarios())
                pr = np.array(view.get_proba(), dtype=float)
                eps = float(view.get_epsilon())
                cons = [int(view.get_nb_constraints(t)) for t in range(nb)]
                As = [np.array(view.get_matrix_A(t), dtype=float) for t in range(nb)]
                bs = [np.array(view.get_vector_b(t), dtype=float) for t in range(nb)]
                rest = (int(view.get_nb_vars()), np.array(view.get_vector_c(), dtype=float),
                        [bool(v) for v in view.get_var_type()])
            ctx.require(nb == len(part), "%d subsets reported, %d loaded" % (nb, len(part)))
            for t, p in enumerate(part):
                ctx.require(cons[t] == m * len(p), "subset %d: %d constraints" % (t, cons[t]))
                ctx.require(np.array_equal(As[t], np.concatenate([A[s] for s in p])),
                            "load %d: rows of subset %s are not those of its scenarios" % (q, p))
                ctx.require(np.array_equal(bs[t], np.concatenate([b for _ in p])),
                            "load %d: rhs of subset %s" % (q, p))
            ctx.require(pr.shape == (nb,) and bool((np.abs(pr - 1 / nb) < 1e-9).all()),
                        "subset probabilities %s" % pr.tolist())
            allowed = max(j for j in range(nb + 1) if j / nb <= eps + 1e-9)
            ctx.require(allowed == k, "the view tolerates %d violated subsets, the instance "
                        "%d violated scenarios" % (allowed, k))
            ctx.require(rest[0] == n and np.array_equal(rest[1], c)
                        and rest[2] == [d["cont"]] * n, "other data of the view differ")
        with ctx.sut("getters of the instance"):
            ctx.require(same(before, snapshot(ci, N)), "loading a partition changed the instance")
    ctx.label("loads %d" % len(case["parts"]))
    if m > 1 and any(len(p) > 1 for part in case["parts"] for p in part):
        ctx.nontrivial = True


def targets(tier):
    return [dict(name="view", strategy=case, check=check, quick=4000, thorough=20000),
            dict(name="many scenarios", strategy=lambda: case(True), check=check,
                 quick=120, thorough=2000)]
