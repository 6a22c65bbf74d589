"""C15: gradient and Laplacian of a distributed grid are those of the whole grid."""
import numpy as np
from hypothesis import strategies as st

import expr
import gen
import opcheck
import zoo
from core import Sub

RULE = ("grid of 1-4 dims, kind, edge treatment, per-axis sampling, axes (one of them twice, too) and weights, dtype, layout of the input; gradients "
        "also inside small expressions; non-trivial: more than one rank")
SAMP = st.sampled_from((1.0, 0.5, 2.0, 4, 0.1, 1))


def draw_dims(draw, n, lo, rest, nd):
    more = {1: 2 * n, 2: 2 * n, 3: n}.get(nd, n // 2)
    dims = [n * lo + draw(st.integers(0, more if nd > 2 else gen.up(more)))] + [draw(st.integers(rest, rest + (2 if nd < 3 else 1))) for _ in range(nd - 1)]
    if n == 1:
        dims[0] = max(dims[0], 3)
    return dims


def rows(dims, n):
    return zoo.space_S([r * int(np.prod(dims[1:])) for r in gen.balanced(dims[0], n)])


def g_grad(draw, n):
    kind = draw(st.sampled_from(("forward", "backward", "centered")))
    edge = draw(st.booleans())
    nd = draw(st.sampled_from((2, 2, 3, 3, 1, 4) if n < 4 else (2, 2, 3, 1)))
    dims = draw_dims(draw, n, zoo.min_rows("first", kind, 3, edge), 2, nd)
    dt = draw(st.sampled_from(gen.FLOATS))
    s = rows(dims, n)
    leaf = {"op": "gradient", "dims": dims, "kind": kind, "edge": edge, "dtype": dt, "model": s,
            "data": expr.space_K([s] * nd), "samp": [draw(SAMP) for _ in dims] if draw(st.booleans()) else draw(SAMP),
            "omit": draw(st.booleans())}
    L = {"t": "leaf", "leaf": leaf}
    form = draw(st.sampled_from(("G", "G", "G", "H", "HG", "GH", "scale", "conj", "T")))
    tree, m, d = {"G": (L, s, leaf["data"]), "H": ({"t": "H", "e": L}, leaf["data"], s),
                  "T": ({"t": "T", "e": L}, leaf["data"], s),
                  "HG": ({"t": "prod", "e": {"t": "H", "e": L}, "f": L, "at": True}, s, s),
                  "GH": ({"t": "prod", "e": L, "f": {"t": "H", "e": L}, "at": False}, leaf["data"], leaf["data"]),
                  "scale": ({"t": "scale", "a": draw(expr.ALPHA), "left": True, "e": L}, s, leaf["data"]),
                  "conj": ({"t": "conj", "e": L}, s, leaf["data"])}[form]
    c = expr.draw_case(draw, n, tree, m, d, zoo.x_dtype(draw, dt), zoo.x_dtype(draw, dt))
    c["form"] = form
    for k, sp in (("xparts", m), ("vparts", d)):
        if sp["kind"] == "S":
            p = opcheck.draw_layout(draw, n, sp)
            c[k] = p if p is None or zoo.can_shift(p, sp["parts"]) else None
    return c


def j_grad(c, o):
    t = expr.judge(c, o)
    dt = c["tree"].get("leaf", {}).get("dtype")
    if t or not dt:
        return t
    for r, v in enumerate(o.values()):
        for which in "xv":
            for a in v[which]["of"]:
                if np.dtype(a["dtype"]) != np.dtype(dt):
                    return f"rank {r}: {which}: result of dtype {a['dtype']}, expected {dt}"
    return None


def g_lap(draw, n):
    kind = draw(st.sampled_from(("forward", "backward", "centered", "centered")))
    edge = draw(st.booleans())
    nd = draw(st.sampled_from((2, 2, 3, 3, 1, 4) if n < 4 else (2, 2, 3, 1)))
    k = draw(st.integers(1, min(nd, 3)))
    omit = nd > 1 and draw(st.integers(0, 3)) == 0
    axes = [nd - 2, nd - 1] if omit else draw(st.permutations(range(nd)))[:k]
    twice = not omit and draw(st.integers(0, 5)) == 0
    if twice:
        axes = list(axes) + [draw(st.sampled_from(axes))]
    lo = max([zoo.min_rows("second", "centered" if i else kind, 3, edge) for i, a in enumerate(axes) if a == 0], default=1)
    dims = draw_dims(draw, n, lo, 3, nd)
    axes = [a - nd if omit or draw(st.booleans()) else a for a in axes]
    s = rows(dims, n)
    leaf = {"op": "laplacian", "dims": dims, "axes": axes, "kind": kind, "edge": edge,
            "dtype": draw(st.sampled_from(gen.FLOATS)), "weights": [draw(st.sampled_from((1, -1.0, 2.0, 0.5, 0))) for _ in axes],
            "samp": [draw(SAMP) for _ in axes], "model": s, "data": s, "omit": omit}
    if twice and draw(st.booleans()):
        for k in ("weights", "samp"):
            leaf[k] = [leaf[k][0]] * len(axes)
    for k in ("weights", "samp"):
        if omit and draw(st.booleans()):
            leaf[k] = [1, 1]
    return opcheck.draw_apply(draw, n, leaf)


SUBS = [Sub("gradient", g_grad, expr.scenario, j_grad, quick=700, big=15, thorough=30000, real=6, ranks=(1, 6),
            label=lambda c: [c["form"]] + sorted({f"{l['kind']}, {len(l['dims'])} dims" for l in expr.leaves(c["tree"])})),
        Sub("laplacian", g_lap, opcheck.scenario, lambda c, o: opcheck.judge(c, o, result_dtype=False), quick=700, big=15,
            thorough=30000, real=6, ranks=(1, 6),
            label=lambda c: opcheck.labels(c) + [c["leaf"]["kind"], f"{len(c['leaf']['dims'])} dims", f"axes={len(c['leaf']['axes'])}"])]
KNOWN = {}
