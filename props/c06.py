"""C06: copies, negation, conjugation, zeros and flattening have the right values and layout and share nothing."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("operation, kind of array, shape, layout, mask, dtype, order of flattening, then a chain of further such operations; non-trivial: "
        "more than one rank and at least one element")

OPS = ("copy", "neg", "conj", "zeros_like", "ravel", "ravelF", "ravelC")


def g_unary(draw, n):
    return {"a": arr.draw_desc(draw, n, special=True), "chain": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=4)),
            "F": draw(st.booleans()), "write": draw(st.sampled_from(("old", "new"))), "through": draw(st.booleans())}


def apply(op, x):
    if op == "neg":
        return -x
    if op == "ravelF":
        return x.ravel(order="F")
    if op == "ravelC":
        return x.ravel("C")
    return getattr(x, op)()


def wanted(op, loc):
    if op == "neg":
        return [-x for x in loc]
    if op == "conj":
        return [x.conj() for x in loc]
    if op == "zeros_like":
        return [np.zeros_like(x) for x in loc]
    if op.startswith("ravel"):
        return [x.ravel(order="F" if op == "ravelF" else "C") for x in loc]
    return loc


def s_unary(env, c):
    x = arr.build(env, c["a"])
    if c["F"]:
        x[:] = np.asfortranarray(x.local_array)
    out = []
    for op in c["chain"]:
        y = apply(op, x)
        step = {"y": arr.snap(env, y), "x": arr.snap(env, x), "global": np.array(y.asarray()), "distinct": y is not x}
        v = (x if c["write"] == "old" else y)
        keep = v.local_array.copy()
        if c["through"]:
            v.local_array[...] = 7
        else:
            v[:] = 7
        step["other"] = (y if c["write"] == "old" else x).local_array.copy()
        v[:] = keep
        out.append(step)
        x = y
    return out


def j_unary(c, o):
    d = dict(c["a"])
    loc = arr.local(d)
    for i, op in enumerate(c["chain"]):
        new = wanted(op, loc)
        nd = dict(d)
        if op.startswith("ravel"):
            nd["axis"] = 0
            nd["shape"] = [int(np.prod(d["shape"]))]
            if d["kind"] == "S":
                nd["parts"] = [x.size for x in new]
        glob = np.concatenate(new, axis=nd["axis"]) if d["kind"] == "S" else new[0]
        for r, v in enumerate(o.values()):
            s = v[i]
            t = core.first(
                arr.check(f"result of {op}", s["y"], nd, new[r], r), arr.check(f"operand after {op}", s["x"], d, loc[r], r),
                core.expect_same(f"rank {r}: global result of {op}", s["global"], glob, d["dtype"]),
                core.expect_same(f"rank {r}: {'result' if c['write'] == 'old' else 'operand'} of {op} after overwriting "
                                 "the other", s["other"], (new if c["write"] == "old" else loc)[r]),
                None if s["distinct"] else f"rank {r}: {op} returned its operand")
            if t:
                return t
        d, loc = nd, new
    return None


SUBS = [Sub("chain", g_unary, s_unary, j_unary, quick=2500, big=2000, thorough=60000, real=10,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["a"]) > 0,
            label=lambda c: sorted(set(c["chain"])) + arr.labels(c["a"]))]
KNOWN = {}
