"""C04: dot products and vector norms of distributed arrays are those of the global array, on every rank."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("kind of array, shape (zero extents included), layout with empty ranks, dtypes, order, axis; non-trivial: more "
        "than one rank and at least one element")

ORDS = (None, 0, 1, 2, 3, 4, "inf", "-inf", -1, -2, 0.5, 1.5, 2.5, -0.5)


def order(o):
    return {"inf": np.inf, "-inf": -np.inf}.get(o, o)


def g_dot(draw, n):
    a = arr.draw_desc(draw, n, kinds="SSBU", masks=False)
    return {"a": a, "bdtype": draw(st.sampled_from(arr.SIGNED)), "bfill": gen.recipe(draw, tiny=True),
            "self": draw(st.integers(0, 5)) == 0}


def s_dot(env, c):
    x = arr.build(env, c["a"])
    y = x if c["self"] else arr.build(env, dict(c["a"], dtype=c["bdtype"], fill=c["bfill"]), 5)
    z = x.dot(y)
    return np.array(z), x.local_array.copy()


def j_dot(c, o):
    A = arr.value(c["a"])
    B = A if c["self"] else arr.value(dict(c["a"], dtype=c["bdtype"], fill=c["bfill"]), 5)
    Z = np.dot(A.ravel(), B.ravel())
    loc = arr.local(c["a"], A)
    for r, v in enumerate(o.values()):
        t = core.first(core.expect_close(f"rank {r}: dot product", v[0], Z, 16 * core.eps_of(A.dtype, B.dtype),
                                         max(core.TINY, float(np.sum(np.abs(A.astype(complex) * B))))),
                       core.expect_same(f"rank {r}: operand afterwards", v[1], loc[r]))
        if t:
            return t
        if not core.same(v[0], o.values()[0][0]):
            return f"dot product is {v[0]} at rank {r} but {o.values()[0][0]} at rank 0"
    return None


def g_norm(draw, n):
    a = arr.draw_desc(draw, n, kinds="SSSBU", masks=False)
    o = draw(st.sampled_from(ORDS))
    axis = draw(st.sampled_from(("flat", "dist")))
    if isinstance(o, str) or (o is not None and o < 0):
        # the maximum of no values at all is not asked for
        a["shape"] = [max(1, s) for s in a["shape"]]
        a["parts"] = None if a["parts"] is None else gen.sizes(draw, n, a["shape"][a["axis"]])
    if draw(st.integers(0, 3)) == 0:
        a["fill"][0] = "extreme"
    return {"a": a, "ord": o, "axis": axis, "pos": draw(st.booleans())}


def s_norm(env, c):
    x = arr.build(env, c["a"])
    kw = {} if c["axis"] == "flat" else {"axis": c["a"]["axis"]}
    if c["axis"] == "flat" and c["pos"]:
        kw["axis"] = -1
    z = x.norm(**kw) if c["ord"] is None else x.norm(order(c["ord"]), **kw)
    return np.array(z), x.local_array.copy()


def j_norm(c, o):
    A = arr.value(c["a"])
    B = A.astype(complex if A.dtype.kind == "c" else float)
    ax = c["a"]["axis"]
    with np.errstate(all="ignore"):
        if c["axis"] == "flat" or A.ndim == 1:
            Z = np.linalg.norm(B.ravel(), order(c["ord"]))
        else:
            Z = np.linalg.norm(B, order(c["ord"]), axis=ax)
    loc = arr.local(c["a"], A)
    eps = max(core.eps_of("float64"), core.eps_of(A.dtype))
    for r, v in enumerate(o.values()):
        t = core.first(core.expect_close(f"rank {r}: norm", v[0], Z, 64 * eps),
                       core.expect_same(f"rank {r}: operand afterwards", v[1], loc[r]))
        if t:
            return t
        if not core.same(v[0], o.values()[0][0]):
            return f"norm is {v[0]} at rank {r} but {o.values()[0][0]} at rank 0"
    return None


def g_bad(draw, n):
    a = arr.draw_desc(draw, n, kinds="S", masks=False, ndim=draw(st.sampled_from((1, 2, 3))), lo=1)
    what = draw(st.sampled_from(("fro", "nuc", "axis")))
    if what == "axis" and len(a["shape"]) == 1:
        what = "fro"
    other = [i for i in range(len(a["shape"])) if i != a["axis"]]
    return {"a": a, "what": what, "other": draw(st.sampled_from(other)) if other else None}


def s_bad(env, c):
    x = arr.build(env, c["a"])
    try:
        if c["what"] == "axis":
            x.norm(2, axis=c["other"])
        else:
            x.norm(c["what"])
    except Exception as e:
        got = type(e).__name__
    else:
        got = "no error"
    return got, float(np.real(x.norm(1)))


def j_bad(c, o):
    want = "NotImplementedError" if c["what"] == "axis" else "ValueError"
    A = arr.value(c["a"])
    for r, v in enumerate(o.values()):
        if v[0] != want:
            return f"rank {r}: norm with {c['what']}: {v[0]}, expected {want}"
        t = core.expect_close(f"rank {r}: norm after the refusal", v[1], float(np.sum(np.abs(A.astype(complex)))), 1e-5)
        if t:
            return t
    return None


SUBS = [Sub("dot", g_dot, s_dot, j_dot, quick=2000, big=2000, thorough=50000, real=8,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["a"]) > 0, label=lambda c: arr.labels(c["a"])),
        Sub("norm", g_norm, s_norm, j_norm, quick=3000, big=2000, thorough=80000, real=10,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["a"]) > 0,
            label=lambda c: [f"ord={c['ord']}", c["axis"]] + arr.labels(c["a"])),
        Sub("refused", g_bad, s_bad, j_bad, quick=300, thorough=3000, real=3, label=lambda c: [c["what"]])]
KNOWN = {}
