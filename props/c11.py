"""C11: vertical and horizontal stacks are the stacked matrices of all ranks' blocks; replicated results agree everywhere."""
import numpy as np
from hypothesis import strategies as st

import gen
import opcheck
import zoo
from core import Sub

RULE = ("vertical or horizontal stack, 1-3 serial operators per rank, dtype, explicit operator dtype, layout of the "
        "scattered side, broadcast or unsafe broadcast of the other; non-trivial: more than one rank")


def g_stack(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    b = zoo.space_B(draw(st.integers(1, gen.up(12))))
    s = zoo.space_S([draw(st.integers(1, gen.up(7))) for _ in range(n)])
    v = draw(st.booleans())
    leaf = zoo.draw_leaf(draw, n, *((b, s) if v else (s, b)), dt)
    c_mixed = draw(st.integers(0, 3)) == 0
    if c_mixed:
        for bs in leaf["blocks"]:
            for q in bs:
                q["dtype"] = draw(st.sampled_from([t for t in gen.FLOATS if np.result_type(t, dt) == np.dtype(dt)]))
        if draw(st.booleans()):
            leaf["opdtype"] = dt
        else:
            leaf["dtype"] = str(np.result_type(*[q["dtype"] for bs in leaf["blocks"] for q in bs]))
    c = opcheck.draw_apply(draw, n, leaf)
    if c_mixed:
        c["xdt"] = c["vdt"] = "float32"
    return c


def g_refused(draw, n):
    """Blocks that do not fit together, on one rank or between ranks."""
    v = draw(st.booleans())
    bad = draw(st.booleans())
    common = draw(st.integers(1, 6))
    blocks = []
    for r in range(n):
        bs = []
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.integers(1, 5))
            bs.append([k, common] if v else [common, k])
        blocks.append(bs)
    where = [draw(st.integers(0, n - 1)), 0]
    where[1] = draw(st.integers(0, len(blocks[where[0]]) - 1))
    if bad:
        blocks[where[0]][where[1]][1 if v else 0] += draw(st.integers(1, 3))
    return {"v": v, "blocks": blocks, "stacked": False}


def s_refused(env, c):
    import pylops
    ops = [pylops.MatrixMult(np.ones(s)) for s in c["blocks"][env.rank]]
    try:
        op = (env.pm.MPIVStack if c["v"] else env.pm.MPIHStack)(ops)
    except ValueError:
        return "refused", env.comm.allreduce(1)
    return tuple(int(v) for v in op.shape), env.comm.allreduce(1)


def fits(c):
    return len({b[1 if c["v"] else 0] for bs in c["blocks"] for b in bs}) == 1


def j_refused(c, o):
    bl = [b for bs in c["blocks"] for b in bs]
    if not fits(c):
        want = "refused"
    elif c["v"]:
        want = (sum(b[0] for b in bl), bl[0][1])
    else:
        want = (bl[0][0], sum(b[1] for b in bl))
    for r, v in enumerate(o.values()):
        if v != (want, c["n"]):
            return f"rank {r}: stack of {c['blocks']}: {v[0]}, expected {want}"
    return None


SUBS = [Sub("apply", g_stack, opcheck.scenario, opcheck.judge, quick=1200, big=25, thorough=40000, real=8, label=opcheck.labels),
        Sub("shapes", g_refused, s_refused, j_refused, quick=400, thorough=4000, real=4,
            nontrivial=lambda c: c["n"] > 1 or not fits(c), label=lambda c: ["fits" if fits(c) else "does not fit"])]
KNOWN = {}
