"""C19: the Fredholm integral is the product of every slice's matrix, whatever ranks own the slices."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import opcheck
import zoo
from core import Sub

RULE = ("kernel of 2-5 slices per rank (uneven), 1-5 rows and columns, 1-4 virtual sources, both ways of computing, stored or "
        "computed adjoint, dtype; kernels with single slices on some rank, scattered vectors; non-trivial: more than one rank")


def draw_kernel(draw, n, lo=2):
    dt = draw(st.sampled_from(gen.FLOATS))
    c = {"op": "fredholm", "slices": [draw(st.integers(lo, 5 if n < 5 else 3)) for _ in range(n)], "nx": draw(st.sampled_from((2, 3, 1, 4, 5))),
         "ny": draw(st.sampled_from((2, 3, 4, 1, 5))), "nz": draw(st.sampled_from((1, 1, 2, 3, 4))), "saveGt": draw(st.booleans()),
         "usematmul": draw(st.booleans()), "dtype": dt, "fill": gen.recipe(draw), "omit": draw(st.booleans())}
    if gen.GROWTH[0] > 1:
        k = draw(st.sampled_from(("slices", "nx", "ny", "nz")))
        f = draw(st.integers(2, max(2, 2000 // (sum(c["slices"]) * max(c["nx"], c["ny"]) * c["nz"]))))
        c[k] = [v * f for v in c[k]] if k == "slices" else c[k] * f
    s = sum(c["slices"])
    c["model"], c["data"] = zoo.space_B(s * c["ny"] * c["nz"]), zoo.space_B(s * c["nx"] * c["nz"])
    return c


def g_apply(draw, n):
    leaf = draw_kernel(draw, n)
    return opcheck.draw_apply(draw, n, leaf)


def g_refused(draw, n):
    leaf = draw_kernel(draw, n)
    what = draw(st.sampled_from(("single slice", "scattered", "fits", "wrong size")))
    c = {"leaf": leaf, "what": what, "adj": draw(st.booleans())}
    if what == "single slice":
        for r in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n)):
            leaf["slices"][r] = 1
    s = sum(leaf["slices"])
    leaf["model"], leaf["data"] = zoo.space_B(s * leaf["ny"] * leaf["nz"]), zoo.space_B(s * leaf["nx"] * leaf["nz"])
    return c


def s_refused(env, c):
    out = []
    try:
        op = zoo.leaf_make(env, c["leaf"])
    except NotImplementedError:
        return "not implemented", env.comm.allreduce(1)
    space = c["leaf"]["data" if c["adj"] else "model"]
    size = space["size"] + (3 if c["what"] == "wrong size" else 0)
    g = np.ones(size, dtype=c["leaf"]["dtype"])
    x = env.pm.DistributedArray.to_dist(g, partition=env.P.SCATTER if c["what"] == "scattered" else env.P.BROADCAST)
    try:
        out = (op.rmatvec(x) if c["adj"] else op.matvec(x)).global_shape
    except ValueError:
        return "refused", env.comm.allreduce(1)
    return tuple(int(v) for v in out), env.comm.allreduce(1)


def j_refused(c, o):
    want = {"single slice": "not implemented", "scattered": "refused", "wrong size": "refused"}.get(c["what"])
    if want is None:
        want = (c["leaf"]["model" if c["adj"] else "data"]["size"],)
    for r, v in enumerate(o.values()):
        if v != (want, c["n"]):
            return f"rank {r}: {c['what']}: {v}, expected {want}"
    return None


SUBS = [Sub("apply", g_apply, opcheck.scenario, opcheck.judge, quick=1000, big=50, thorough=40000, real=8,
            label=lambda c: opcheck.labels(c) + [f"nz={c['leaf']['nz']}", f"matmul={c['leaf']['usematmul']}",
                                                 f"saveGt={c['leaf']['saveGt']}"]),
        Sub("refused", g_refused, s_refused, j_refused, quick=300, thorough=4000, real=4,
            nontrivial=lambda c: c["n"] > 1 and c["what"] != "fits", label=lambda c: [c["what"]])]
KNOWN = {}
