"""C12: stacked block-diagonal and vertical operators of distributed operators apply every member to its part."""
import numpy as np
from hypothesis import strategies as st

import expr
import gen
import opcheck
import zoo
from core import Sub

RULE = ("1-4 random distributed operators (or small expressions of them) between scattered and replicated vectors, stacked on "
        "the diagonal or vertically, forward, adjoint and wrapped once; non-trivial: more than one rank and member")


def g_apply(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    k = draw(st.integers(1, 4))
    data = expr.space_K([zoo.draw_space(draw, n) for _ in range(k)])
    v = draw(st.booleans())
    model = zoo.draw_space(draw, n) if v else expr.space_K(
        [s if draw(st.integers(0, 2)) == 0 else zoo.draw_space(draw, n) for s in data["of"]])
    inner = draw(st.sampled_from((0, 0, 1)))
    ops = [expr.draw_tree(draw, n, model if v else model["of"][i], s, dt, inner) for i, s in enumerate(data["of"])]
    c = expr.draw_case(draw, n, {"t": "svs" if v else "sbd", "ops": ops}, model, data, draw(st.sampled_from(gen.FLOATS)),
                       draw(st.sampled_from(gen.FLOATS)))
    if v and model["kind"] == "S" and all(o["t"] == "leaf" for o in ops):
        p = opcheck.draw_layout(draw, n, model)
        c["xparts"] = p if p is None or zoo.can_shift(p, model["parts"]) else None
    return c


def g_refused(draw, n):
    """Vectors of the wrong size, members of the wrong number of columns, products that do not fit."""
    return {"what": draw(st.sampled_from(("columns", "size", "product", "members", "2-d", "scalar"))),
            "a": draw(st.integers(1, 5)), "b": draw(st.integers(1, 5)), "stack": draw(st.booleans()), "adj": draw(st.booleans())}


def s_refused(env, c):
    import pylops
    pm, n = env.pm, env.size
    a, b = c["a"], c["b"]

    def bd(m, k):
        return pm.MPIBlockDiag([pylops.MatrixMult(np.ones((m, k)))])

    def vec(m, nd=1):
        return pm.DistributedArray.to_dist(np.ones((m * n,) if nd == 1 else (m * n, 2)))
    K = pm.StackedDistributedArray

    def go():
        w = c["what"]
        sbd = pm.MPIStackedBlockDiag([bd(a, b), bd(b, a)])
        svs = pm.MPIStackedVStack([bd(a, b), bd(b, b)])
        if w == "columns":
            return pm.MPIStackedVStack([bd(2, a), bd(2, a + b)])
        if w == "size":
            x = K([vec(a), vec(b + 1)]) if c["stack"] else vec(a + b + 1)
            return (sbd.rmatvec if c["adj"] else sbd.matvec)(x)
        if w == "product":
            return svs @ svs if c["stack"] else sbd @ pm.MPIStackedBlockDiag([bd(a + 1, b), bd(b, a)])
        if w == "members":
            return sbd @ pm.MPIStackedBlockDiag([bd(a + b, a + b)])
        if w == "2-d":
            return sbd.dot(K([vec(a, 2), vec(b, 2)]))
        return sbd @ 2.0 if c["adj"] else 2.0 @ sbd
    try:
        r = go()
    except ValueError:
        return "refused", env.comm.allreduce(1)
    return type(r).__name__, env.comm.allreduce(1)


def j_refused(c, o):
    for r, v in enumerate(o.values()):
        if v[0] != "refused":
            return f"rank {r}: {c['what']}: a {v[0]} instead of being refused"
    return None


SUBS = [Sub("apply", g_apply, expr.scenario, expr.judge, quick=900, big=8, thorough=40000, real=8, ranks=(1, 6), label=expr.labels,
            nontrivial=lambda c: c["n"] > 1 and len(c["tree"]["ops"]) > 1),
        Sub("refused", g_refused, s_refused, j_refused, quick=300, thorough=2000, real=4, ranks=(1, 5),
            label=lambda c: [c["what"]])]
KNOWN = {}
