"""C10: a block-diagonal operator is the block-diagonal matrix of all ranks' blocks, in rank order."""
import numpy as np
from hypothesis import strategies as st

import gen
import opcheck
import zoo
from core import Sub

RULE = ("1-3 serial operators per rank (rectangular matrices, identity, zero, diagonal, flip, derivative, integration), "
        "dtype, mask, explicit operator dtype, layout of the input; non-trivial: more than one rank")


def g_bd(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    model = zoo.space_S([draw(st.integers(1, gen.up(7))) for _ in range(n)])
    data = model if draw(st.booleans()) else zoo.space_S([draw(st.integers(1, gen.up(7))) for _ in range(n)])
    leaf = zoo.draw_blockdiag(draw, n, model, data, dt)
    mixed = False
    if draw(st.integers(0, 3)) == 0:
        for bs in leaf["blocks"]:  # blocks of different types
            for b in bs:
                b["dtype"] = draw(st.sampled_from([t for t in gen.FLOATS if np.result_type(t, dt) == np.dtype(dt)]))
        mixed = True
        if draw(st.booleans()):
            leaf["opdtype"] = dt
        else:
            leaf["dtype"] = str(np.result_type(*[b["dtype"] for bs in leaf["blocks"] for b in bs]))
    leaf["mask"] = gen.mask(draw, n)
    c = opcheck.draw_apply(draw, n, leaf)
    if mixed:
        c["xdt"] = c["vdt"] = "float32"  # covered by every block
    return c


SUBS = [Sub("apply", g_bd, opcheck.scenario, lambda c, o: opcheck.judge(c, o, mask=c["leaf"]["mask"]), quick=1200, big=25,
            thorough=60000, real=10, label=opcheck.labels)]
KNOWN = {}
