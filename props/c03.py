"""C03: elementwise arithmetic equals NumPy's on the global arrays, keeps the layout, and leaves the operands alone."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("operation, kind of array, shape, layout, mask, two dtypes, scalar of several types; non-trivial: more than one "
        "rank and at least one element")

BINARY = ("add", "sub", "mul", "iadd", "isub", "imul", "m_add", "m_iadd", "m_multiply")
SCALARS = {"int": 3, "negint": -2, "float": 0.5, "complex": 2 - 1j, "f32": np.float32(1.5), "f64": np.float64(-2.5),
           "c64": np.complex64(1 + 2j), "c128": np.complex128(0.5 - 2j), "zero": 0, "i64": np.int64(2), "one": 1.0,
           "i": 1j}


def g_binary(draw, n):
    op = draw(st.sampled_from(BINARY))
    a = arr.draw_desc(draw, n)
    cand = arr.SIGNED
    if op in ("iadd", "isub", "m_iadd"):
        cand = [t for t in cand if np.can_cast(t, a["dtype"], "same_kind")]
    same = draw(st.booleans())
    return {"op": op, "a": a, "bdtype": draw(st.sampled_from(cand)), "bfill": gen.recipe(draw, tiny=True), "self": same and
            draw(st.integers(0, 4)) == 0, "balanced": draw(st.booleans())}


def second(c):
    b = dict(c["a"], dtype=c["bdtype"], fill=c["bfill"])
    if c["balanced"] and b["kind"] == "S":  # explicit and default shapes that agree are interchangeable
        b["parts"] = arr.parts(b)
    return b


def apply(op, x, y):
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "iadd":
        x += y
        return x
    if op == "isub":
        x -= y
        return x
    if op == "imul":
        x *= y
        return x
    return {"m_add": x.add, "m_iadd": x.iadd, "m_multiply": x.multiply}[op](y)


def in_place(op):
    return op in ("iadd", "isub", "m_iadd")


def wanted(op, a, b):
    if op in ("add", "m_add"):
        return a + b
    if op == "sub":
        return a - b
    if op in ("mul", "imul", "m_multiply"):
        return a * b
    a = a.copy()
    if op == "isub":
        a -= b
    else:
        a += b
    return a


def s_binary(env, c):
    x = arr.build(env, c["a"])
    y = x if c["self"] else arr.build(env, second(c), 5)
    alias = x
    z = apply(c["op"], x, y)
    out = {"z": arr.snap(env, z), "x": arr.snap(env, alias), "y": arr.snap(env, y), "same": z is alias,
           "global": np.array(z.asarray())}
    if not in_place(c["op"]):
        z[:] = 0
        out["x2"], out["y2"] = alias.local_array.copy(), y.local_array.copy()
    return out


def j_binary(c, o):
    a, b = c["a"], second(c)
    A, B = arr.value(a), arr.value(b, 5)
    if c["self"]:
        B, b = A, a
    Z = wanted(c["op"], A, B)
    ip = in_place(c["op"])
    zl, al, bl = arr.local(a, Z), arr.local(a, A), arr.local(a, B)
    for r, v in enumerate(o.values()):
        t = core.first(
            arr.check(f"result of {c['op']}", v["z"], a, zl[r], r, Z.dtype),
            core.expect_same(f"rank {r}: global result of {c['op']}", v["global"], Z, Z.dtype),
            arr.check("left operand afterwards", v["x"], a, zl[r] if ip else al[r], r),
            None if c["self"] else arr.check("right operand afterwards", v["y"], a, bl[r], r, b["dtype"]))
        if t:
            return t
        if v["same"] != ip:
            return f"rank {r}: {c['op']}: result {'is' if v['same'] else 'is not'} the left operand"
        if not ip:
            t = core.first(core.expect_same(f"rank {r}: left operand after overwriting the result", v["x2"], al[r]),
                           core.expect_same(f"rank {r}: right operand after overwriting the result", v["y2"], bl[r]))
            if t:
                return t
    return None


def g_scalar(draw, n):
    return {"a": arr.draw_desc(draw, n), "s": draw(st.sampled_from(sorted(SCALARS))),
            "how": draw(st.sampled_from(("right", "left", "method", "inplace")))}


def s_scalar(env, c):
    x = arr.build(env, c["a"])
    s, how = SCALARS[c["s"]], c["how"]
    if how == "right":
        z = x * s
    elif how == "left" and not isinstance(s, np.generic):
        z = s * x
    elif how == "inplace":
        z = x
        z *= s
    else:
        z = x.multiply(s)
    out = {"z": arr.snap(env, z), "x": arr.snap(env, x)}
    z[:] = 0
    out["x2"] = x.local_array.copy()
    return out


def j_scalar(c, o):
    a = c["a"]
    A = arr.value(a)
    Z = A * SCALARS[c["s"]]
    zl, al = arr.local(a, Z), arr.local(a, A)
    for r, v in enumerate(o.values()):
        t = core.first(arr.check(f"product with {SCALARS[c['s']]!r}", v["z"], a, zl[r], r, Z.dtype),
                       arr.check("operand afterwards", v["x"], a, al[r], r),
                       core.expect_same(f"rank {r}: operand after overwriting the product", v["x2"], al[r]))
        if t:
            return t
    return None


SUBS = [Sub("binary", g_binary, s_binary, j_binary, quick=3000, big=2000, thorough=80000, real=10,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["a"]) > 0,
            label=lambda c: [c["op"]] + arr.labels(c["a"]) + (["mixed dtypes"] if c["bdtype"] != c["a"]["dtype"] else [])),
        Sub("scalar", g_scalar, s_scalar, j_scalar, quick=1500, big=2000, thorough=30000, real=5,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["a"]) > 0,
            label=lambda c: [c["s"], c["how"]] + arr.labels(c["a"]))]
KNOWN = {}
