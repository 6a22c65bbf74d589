"""C34: describing an array or an operator is a private matter of the rank that asks, and tells what is so."""
import re

import numpy as np
from hypothesis import strategies as st

import arr
import expr
import gen
import zoo
from core import Sub

RULE = ("arrays of any layout, stacks of them, operators and expressions, described by some of the ranks only, before and after use; "
        "non-trivial: more than one rank, not all of which ask")

HOW = {"repr": repr, "str": str, "format": "{}".format, "f-string": lambda x: f"{x!r}"}


def draw_asking(draw, n):
    return {"ask": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "how": draw(st.sampled_from(sorted(HOW)))}


def plain(text):
    """Without the clothes NumPy puts on its integers."""
    return re.sub(r"np\.u?int\d+\((\d+)\)", r"\1", text)


def say_shape(s):
    return str(tuple(int(v) for v in s))


# -- arrays ----------------------------------------------------------------------------------------------------------
def g_arrays(draw, n):
    k = draw(st.sampled_from((0, 0, 1, 2, 3)))
    ds = [arr.draw_desc(draw, n) for _ in range(max(k, 1))]
    return {"stack": k > 0, "of": ds, "op": draw(st.sampled_from(("none", "neg", "copy", "conj", "set"))), **draw_asking(draw, n)}


def s_arrays(env, c):
    xs = [arr.build(env, d) for d in c["of"]]
    x = env.pm.StackedDistributedArray(xs, base_comm=env.comm) if c["stack"] else xs[0]
    if c["op"] == "set":
        for a in xs:
            a[:] = 1
    elif c["op"] != "none":
        x = {"neg": lambda: -x, "copy": x.copy, "conj": x.conj}[c["op"]]()
    text = HOW[c["how"]](x) if c["ask"][env.rank] else None
    return {"text": text, "again": repr(x) if c["ask"][env.rank] else None, "class": type(x).__name__}


def one(d, r, text):
    """What is wrong with the text as a description of d at rank r."""
    shp = list(d["shape"])
    loc = arr.local(d)[r].shape
    want = [("class", "DistributedArray"), ("global shape", f"global shape={say_shape(shp)}"), ("local shape", f"local shape={say_shape(loc)}"),
            ("dtype", f"dtype={d['dtype']}"), ("processes", f"processes={list(range(d['n']))}")]
    for k, w in want:
        if w not in text and not (k == "dtype" and f"dtype={np.dtype(d['dtype']).type!r}" in text):
            return f"{k} is not told ({w!r}): {text!r}"
    return None


def j_arrays(c, o):
    for r, v in enumerate(o.values()):
        if not c["ask"][r]:
            continue
        text = plain(v["text"])
        if plain(v["again"]) != text:
            return f"rank {r}: repr and {c['how']} differ: {v['again']!r}, {v['text']!r}"
        if not c["stack"]:
            t = one(c["of"][0], r, text)
            if t:
                return f"rank {r}: {t}"
            continue
        if "StackedDistributedArray" not in text or not re.search(rf"\b{len(c['of'])} distributed arrays", text):
            return f"rank {r}: number of arrays is not told: {v['text']!r}"
        parts = text.split("<DistributedArray")[1:]
        if len(parts) != len(c["of"]):
            return f"rank {r}: {len(parts)} arrays are described, expected {len(c['of'])}: {v['text']!r}"
        for d, p in zip(c["of"], parts):
            t = one(d, r, "<DistributedArray" + p)
            if t:
                return f"rank {r}: {t}"
    return None


# -- operators -------------------------------------------------------------------------------------------------------
def g_operators(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    stacked = draw(st.booleans())
    if stacked:
        tree = expr.draw_stree(draw, n, *draw_ends(draw, n), dt, draw(st.integers(0, 2)))
    else:
        tree = expr.draw_tree(draw, n, zoo.draw_space(draw, n), zoo.draw_space(draw, n), dt, draw(st.integers(0, 2)))
    return {"tree": tree, "untyped": draw(st.integers(0, 5)) == 0, **draw_asking(draw, n)}


def draw_ends(draw, n):
    k = draw(st.integers(1, 3))
    K = expr.space_K([zoo.draw_space(draw, n) for _ in range(k)])
    other = draw(st.sampled_from(("K", "p")))
    p = expr.space_K([zoo.draw_space(draw, n) for _ in range(k)]) if other == "K" else zoo.draw_space(draw, n)
    return (K, p) if draw(st.booleans()) else (p, K)


def s_operators(env, c):
    op = expr.make(env, c["tree"])
    if c["untyped"]:
        op.dtype = None
    text = HOW[c["how"]](op) if c["ask"][env.rank] else None
    return {"text": text, "again": repr(op) if c["ask"][env.rank] else None, "class": type(op).__name__, "dtype": str(op.dtype)}


def j_operators(c, o):
    M, N = expr.dense(c["tree"]).shape
    for r, v in enumerate(o.values()):
        if not c["ask"][r]:
            continue
        text = plain(v["text"])
        if plain(v["again"]) != text:
            return f"rank {r}: repr and {c['how']} differ: {v['again']!r}, {v['text']!r}"
        for k, w in (("size", f"{M}x{N}"), ("class", v["class"]),
                     ("dtype", "unspecified dtype" if c["untyped"] else f"dtype={v['dtype']}")):
            if not re.search(rf"(?<!\w){re.escape(w)}(?!\w)", text):
                return f"rank {r}: {k} is not told ({w!r}): {v['text']!r}"
    return None


def some(c):
    return c["n"] > 1 and any(c["ask"]) and not all(c["ask"])


SUBS = [Sub("arrays", g_arrays, s_arrays, j_arrays, quick=800, thorough=20000, real=6, leftovers=True, nontrivial=some,
            label=lambda c: [c["how"], "stack" if c["stack"] else "array", c["op"]] + [arr.PARTS[d["kind"]] for d in c["of"]]),
        Sub("operators", g_operators, s_operators, j_operators, quick=500, thorough=15000, real=6, ranks=(1, 6), leftovers=True,
            nontrivial=some, label=lambda c: [c["how"], c["tree"]["t"], "untyped" if c["untyped"] else "typed"])]
KNOWN = {}
