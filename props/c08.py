"""C08: how a scattered vector's elements are split over the ranks does not change what an operator makes of it."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import opcheck
import zoo
from core import Sub

RULE = ("operator, up to 4 layouts of the same vector (boundaries moved within the direct neighbours' parts, empty ranks, any); "
        "products and sums of operators that lay out the vectors between them differently; non-trivial: more than one rank and "
        "at least two different layouts")


def draw_layouts(draw, n, space, k):
    out = []
    for _ in range(k):
        p = opcheck.draw_layout(draw, n, space)
        out.append(space["parts"] if p is None else p)
    return out


def draw_op(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    how = draw(st.sampled_from(("blockdiag", "hstack", "vstack", "deriv", "deriv", "laplacian", "gradient")))
    if how in ("blockdiag", "hstack", "vstack"):
        s = zoo.space_S([draw(st.integers(1, gen.up(6))) for _ in range(n)])
        o = zoo.space_B(draw(st.integers(1, 8))) if how != "blockdiag" else zoo.space_S([draw(st.integers(1, gen.up(6))) for _ in range(n)])
        m, d = (o, s) if how == "vstack" else (s, o)
        return zoo.draw_blockdiag(draw, n, m, d, dt) if how == "blockdiag" else zoo.draw_leaf(draw, n, m, d, dt)
    kind = draw(st.sampled_from(("forward", "backward", "centered")))
    edge = draw(st.booleans())
    nd = draw(st.sampled_from((1, 2, 2, 3))) if how == "deriv" else draw(st.sampled_from((2, 2, 3)))
    order = draw(st.sampled_from((3, 5))) if how == "deriv" else 3
    op = draw(st.sampled_from(("first", "second"))) if how == "deriv" else how
    base = "first" if op in ("first", "gradient") else "second"
    lo = max(zoo.min_rows(base, kind, order, edge), zoo.min_rows(base, "centered", order, edge) if op == "laplacian" else 1)
    rows = max(n * lo + draw(st.integers(0, 3 * n)), 5)
    dims = [rows] + [draw(st.integers(3 if op in ("laplacian", "gradient") else 1, 4)) for _ in range(nd - 1)]
    s = zoo.space_S([v * int(np.prod(dims[1:])) for v in gen.balanced(rows, n)])
    leaf = {"op": op, "dims": dims, "kind": kind, "order": order, "edge": edge, "samp": 0.5, "dtype": dt, "model": s, "data": s}
    if op == "gradient":
        leaf["data"], leaf["samp"] = expr.space_K([s] * nd), [1.0, 2.0, 0.5][:nd]
    if op == "laplacian":
        leaf["axes"], leaf["weights"], leaf["samp"] = [0, nd - 1], [1.0, -2.0], [0.5, 2.0]
    return leaf


def g_layouts(draw, n):
    leaf = draw_op(draw, n)
    sides = [w for w, s in (("x", leaf["model"]), ("v", leaf["data"])) if s["kind"] == "S"]
    which = draw(st.sampled_from(sides))
    return {"leaf": leaf, "which": which, "rec": gen.recipe(draw, tiny=True), "dt": zoo.x_dtype(draw, leaf["dtype"]),
            "layouts": draw_layouts(draw, n, leaf["model" if which == "x" else "data"], draw(st.integers(2, 4)))}


def vec(c):
    return gen.fill(c["rec"], (c["leaf"]["model" if c["which"] == "x" else "data"]["size"],), c["dt"], 3)


def s_layouts(env, c):
    leaf = c["leaf"]
    op = zoo.leaf_make(env, leaf)
    space = leaf["model" if c["which"] == "x" else "data"]
    out = []
    for p in c["layouts"]:
        x = zoo.vector(env, space, vec(c), None, p)
        try:
            y = op.matvec(x) if c["which"] == "x" else op.rmatvec(x)
        except ValueError as e:
            out.append({"refused": str(e)[:200]})
            continue
        out.append(expr.obs(env, y))
        out[-1]["kept"] = core.same(x.local_array, gen.cut(vec(c), p)[env.rank])
    return out


def j_layouts(c, o):
    leaf, n = c["leaf"], c["n"]
    A = zoo.leaf_dense(leaf)
    src, dst = leaf["model"], leaf["data"]
    if c["which"] == "v":
        A, src, dst = A.conj().T, dst, src
    x = vec(c)
    y, sc, tol = A @ x, zoo.scale(A, x), zoo.tol(leaf["dtype"], c["dt"])
    for i, p in enumerate(c["layouts"]):
        refused = [v[i].get("refused") for v in o.values()]
        if any(refused):
            if all(refused) and not zoo.can_shift(p, src["parts"]):
                continue
            return f"layout {p} (operator's: {src['parts']}) is refused at ranks {[r for r, q in enumerate(refused) if q]}: {refused}"
        for r, v in enumerate(o.values()):
            t = expr.check(f"result for layout {p}", r, v[i], dst, y, n, tol, sc)
            if t:
                return t
            if not v[i]["kept"]:
                return f"rank {r}: the vector changed"
    # nor does it change by one bit
    ok = [i for i in range(len(c["layouts"])) if not o.values()[0][i].get("refused")]
    for r, v in enumerate(o.values()):
        for i in ok[1:]:
            for a, b in zip(v[ok[0]]["of"], v[i]["of"]):
                if not core.same(a["local"], b["local"]):
                    return f"rank {r}: layouts {c['layouts'][ok[0]]} and {c['layouts'][i]} give different results"
    return None


def g_chain(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    mid = zoo.space_S([draw(st.integers(1, 5)) for _ in range(n)])
    p = opcheck.draw_layout(draw, n, mid)
    mid2 = mid if p is None or 0 in p else zoo.space_S(p)
    m = zoo.draw_space(draw, n)
    d = zoo.draw_space(draw, n)
    if draw(st.booleans()):
        t = {"t": "prod", "e": {"t": "leaf", "leaf": zoo.draw_leaf(draw, n, mid2, d, dt)},
             "f": {"t": "leaf", "leaf": zoo.draw_leaf(draw, n, m, mid, dt)}, "at": draw(st.booleans())}
        return {"form": "product", "tree": t, "model": m, "data": d, "mids": [mid["parts"], mid2["parts"]], "rec": gen.recipe(draw, tiny=True),
                "dt": zoo.x_dtype(draw, dt), "layout": None}
    t = {"t": draw(st.sampled_from(("add", "sub"))), "e": {"t": "leaf", "leaf": zoo.draw_leaf(draw, n, mid, d, dt)},
         "f": {"t": "leaf", "leaf": zoo.draw_leaf(draw, n, mid2, d, dt)}}
    return {"form": "sum", "tree": t, "model": mid, "data": d, "mids": [mid["parts"], mid2["parts"]], "rec": gen.recipe(draw, tiny=True),
            "dt": zoo.x_dtype(draw, dt), "layout": opcheck.draw_layout(draw, n, mid)}


def s_chain(env, c):
    op = expr.make(env, c["tree"])
    out = []
    for which in ("x", "v")[:2 if c["form"] == "product" else 1]:
        space = c["model" if which == "x" else "data"]
        x = zoo.vector(env, space, gen.fill(c["rec"], (space["size"],), c["dt"], 3), None, c["layout"])
        try:
            out.append(expr.obs(env, op.matvec(x) if which == "x" else op.rmatvec(x)))
        except ValueError as e:
            out.append({"refused": str(e)[:200]})
    return out


def j_chain(c, o):
    A, B = expr.dense(c["tree"]), expr.bound(c["tree"])
    a, b = c["mids"]
    for i, which in enumerate(("x", "v")[:2 if c["form"] == "product" else 1]):
        src, dst = c["model"], c["data"]
        if which == "v":
            A, B, src, dst, a, b = A.conj().T, B.T, dst, src, b, a
        if c["form"] == "product":
            far = not zoo.can_shift(a, b)
        else:
            far = any(not zoo.can_shift(c["layout"] or src["parts"], p) for p in c["mids"])
        x = gen.fill(c["rec"], (src["size"],), c["dt"], 3)
        refused = [v[i].get("refused") for v in o.values()]
        if any(refused):
            if all(refused) and far:
                continue
            return f"{which}: refused at ranks {[r for r, q in enumerate(refused) if q]}: {refused}"
        y, sc = A @ x, max(core.TINY, float(np.max(B @ np.abs(x), initial=0.0)))
        for r, v in enumerate(o.values()):
            t = expr.check(f"{which} through layouts {c['mids']}", r, v[i], dst, y, c["n"], 4 * zoo.tol(
                *[l["dtype"] for l in expr.leaves(c["tree"])], c["dt"]), sc)
            if t:
                return t
    return None


SUBS = [Sub("layouts", g_layouts, s_layouts, j_layouts, quick=1000, big=20, thorough=40000, real=6,
            nontrivial=lambda c: c["n"] > 1 and len(set(map(tuple, c["layouts"]))) > 1,
            label=lambda c: [c["leaf"]["op"], c["which"], f"different={len(set(map(tuple, c['layouts'])))}"] + sorted(
                {"near" if zoo.can_shift(p, c["leaf"]["model" if c["which"] == "x" else "data"]["parts"]) else "far"
                 for p in c["layouts"]})),
        Sub("chain", g_chain, s_chain, j_chain, quick=600, big=10, thorough=20000, real=4,
            nontrivial=lambda c: c["n"] > 1 and c["mids"][0] != c["mids"][1],
            label=lambda c: [c["form"], "near" if zoo.can_shift(*c["mids"]) else "far"])]
KNOWN = {}
