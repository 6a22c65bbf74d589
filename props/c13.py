"""C13: the distributed first derivative is the documented finite-difference matrix along the first axis."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import opcheck
import zoo
from core import Sub

RULE = ("grid of 1-3 dims with enough rows per rank, uneven splits, kind, order, edge treatment, sampling, dtype, scattered input in "
        "several layouts or broadcast input; non-trivial: more than one rank")
WHICH = "first"


def draw_dims(draw, n, lo, hi=5):
    rows = n * lo + draw(st.integers(0, n * gen.up(hi)))
    rest = [] if rows > 400 else [draw(st.integers(1, 4 if rows < 100 else 2)) for _ in range(draw(st.sampled_from((0, 0, 1, 1, 2))))]
    return [rows] + rest


def g_deriv(draw, n, which=None):
    which = which or WHICH
    kind = draw(st.sampled_from(("forward", "backward", "centered", "centered")))
    order = draw(st.sampled_from((3, 5))) if which == "first" else 3
    edge = draw(st.booleans())
    lo = zoo.min_rows(which, kind, order, edge)
    if n == 1:
        lo = max(lo, {3: 3, 5: 4}[order]) if kind == "centered" or which == "second" else 2
    dims = draw_dims(draw, n, lo)
    dt = draw(st.sampled_from(gen.FLOATS + ("float64",)))
    cols = int(np.prod(dims[1:]))
    space = zoo.space_S([r * cols for r in gen.balanced(dims[0], n)])
    leaf = {"op": which, "dims": dims, "kind": kind, "order": order, "edge": edge, "dtype": dt, "model": space,
            "data": space, "samp": draw(st.sampled_from((1.0, 0.5, 2.0, 4, 0.1))), "omit": draw(st.booleans())}
    c = opcheck.draw_apply(draw, n, leaf)
    c["bcast"] = draw(st.integers(0, 3)) == 0
    return c


def s_deriv(env, c):
    if not c["bcast"]:
        return opcheck.scenario(env, c)
    # a replicated input is spread first
    leaf = dict(c["leaf"])
    c = dict(c, leaf=dict(leaf, model=dict(leaf["model"], kind="B"), data=dict(leaf["data"], kind="B"), nounsafe=True))
    return opcheck.scenario(env, c)


def j_deriv(c, o):
    if c["bcast"]:
        # (over the ranks by elements: it may need more than the neighbours' cells to become rows)
        p = gen.balanced(c["leaf"]["model"]["size"], c["n"])
        c = dict(c, xparts=p, vparts=p)
    return opcheck.judge(c, o)


def l_deriv(c):
    leaf = c["leaf"]
    return (["replicated input"] if c["bcast"] else opcheck.labels(c)) + [
        leaf["kind"] + (str(leaf["order"]) if leaf["op"] == "first" else ""), f"ndim={len(leaf['dims'])}",
        "edge" if leaf["edge"] else "no edge"]


def g_few(draw, n, which=None):
    """Possibly too few rows: to be refused, or right, but never silently wrong."""
    which = which or WHICH
    kind = draw(st.sampled_from(("forward", "backward", "centered", "centered")))
    order = draw(st.sampled_from((3, 5))) if which == "first" else 3
    dims = [draw(st.one_of(st.integers(1, 4), st.integers(1, 4 * n)))] + ([draw(st.integers(1, 3))] if draw(st.booleans()) else [])
    cols = int(np.prod(dims[1:]))
    space = zoo.space_S([r * cols for r in gen.balanced(dims[0], n)])
    leaf = {"op": which, "dims": dims, "kind": kind, "order": order, "edge": draw(st.booleans()), "dtype": "float64",
            "model": space, "data": space, "samp": 1.0}
    c = opcheck.draw_apply(draw, n, leaf, layouts=False)
    c["one"] = draw(st.sampled_from("xv"))
    return c


def s_few(env, c):
    op = zoo.leaf_make(env, c["leaf"])
    x = zoo.vector(env, c["leaf"]["model"], opcheck.vec(c, c["one"]))
    return (opcheck.forward(op, x, c["call"]) if c["one"] == "x" else opcheck.backward(op, x, c["adj"])).asarray()


def j_few(c, o):
    if all(k[0] == "exc" and k[1] == "ValueError" for k in o.ranks):
        return None
    if o.problem():
        return o.problem()
    leaf = c["leaf"]
    d = leaf["dims"][0]
    A = None
    need = {"first": {"centered": (3 if leaf["order"] == 3 else 4) if leaf["edge"] else 1}, "second": {"centered": 3 if leaf["edge"] else 1}}
    if d >= need[leaf["op"]].get(leaf["kind"], 1):
        A = zoo.leaf_dense(leaf)
    if A is None:
        return None  # the documented stencil itself does not fit the grid
    A, x = A if c["one"] == "x" else A.T, opcheck.vec(c, c["one"])
    y = A @ x
    for r, v in enumerate(o.values()):
        t = core.expect_close(f"rank {r}: {'forward' if c['one'] == 'x' else 'adjoint'} with few rows", v, y, zoo.tol("float64", c["xdt" if c["one"] == "x" else "vdt"]), zoo.scale(A, x))
        if t:
            return t
    return None


def subs(which):
    return [Sub("apply", lambda draw, n: g_deriv(draw, n, which), s_deriv, j_deriv, quick=1200, big=30, thorough=50000, real=8,
                label=l_deriv),
            Sub("few", lambda draw, n: g_few(draw, n, which), s_few, j_few, quick=1200, thorough=20000, real=0,
                allow_problem=True, nontrivial=lambda c: c["n"] > 1,
                label=lambda c: ["enough rows" if min(gen.balanced(c["leaf"]["dims"][0], c["n"])) >= zoo.min_rows(
                    which, c["leaf"]["kind"], c["leaf"]["order"], c["leaf"]["edge"]) else "few rows"])]


SUBS = subs(WHICH)
KNOWN = {}
