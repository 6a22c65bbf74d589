"""C33: an operator of the user's own, written as documented, sees its part of the vector and works like any other."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import opcheck
import solve
import zoo
from core import Sub

RULE = ("operators written with the `reshaped` decorator (bare, called, told the direction, stacking or not) that multiply their rank's "
        "part, use their neighbours' cells or gather the grid; grids of 1-3 axes, fewer rows than ranks included; vectors laid out "
        "otherwise; in expressions and solvers; non-trivial: more than one rank")


def draw_dims(draw, n, full=False):
    nd = draw(st.sampled_from((1, 1, 2, 2, 3)))
    rows = draw(st.one_of(st.integers(n, gen.up(3 * n + 2)), st.integers(n if full else 1, n)))
    return [rows] + [draw(st.integers(1, 4 if nd == 2 else 3)) for _ in range(nd - 1)]


def draw_own(draw, n, dt, square=False):
    if draw(st.integers(0, 2)):
        return zoo.draw_own(draw, n, draw_dims(draw, n, square), dt)
    if square:
        s = zoo.space_S([draw(st.integers(1, 4)) for _ in range(n)])
        return zoo.draw_own_stack(draw, n, s, s, dt)
    lo = draw(st.sampled_from((0, 1)))
    m, d = (zoo.space_S(gen.sizes(draw, n, draw(st.integers(lo * n, 4 * n)), lo)) for _ in range(2))
    if m["size"] == 0 or d["size"] == 0:
        m = d = zoo.space_S([1] * n)
    return zoo.draw_own_stack(draw, n, m, d, dt)


# -- on its own ------------------------------------------------------------------------------------------------------
def g_own(draw, n):
    c = opcheck.draw_apply(draw, n, draw_own(draw, n, draw(st.sampled_from(gen.FLOATS))))
    c["kind"] = draw(st.sampled_from(("BROADCAST", "UNSAFE_BROADCAST")))
    return c


def s_own(env, c):
    made = []

    def make(env, leaf):
        made.append(zoo.leaf_make(env, leaf))
        return made[0]
    out = opcheck.scenario(env, c, make)
    op = made[0]
    out["seen"] = list(op.seen)
    out["named"] = type(op)._matvec.__doc__
    op.seen.clear()
    out["whole"] = []
    for f, k in ((op.matvec, 1), (op.rmatvec, 0)):
        x = env.pm.DistributedArray(global_shape=op.shape[k], base_comm=env.comm, partition=env.P[c["kind"]], dtype=c["xdt"])
        x[:] = 1
        try:
            f(x)
            out["whole"].append("accepted")
        except ValueError:
            out["whole"].append("refused")
    out["ran"] = len(op.seen)
    return out


def j_own(c, o):
    t = opcheck.judge(c, o)
    if t:
        return t
    leaf, n = c["leaf"], c["n"]
    calls = [("x" if k == "again" else k) for k in list("xv" if c["order"] else "vx") + ["again"] if not o.values()[0][k].get("refused")]
    for r, v in enumerate(o.values()):
        if len(v["seen"]) != 2 * len(calls):
            return f"rank {r}: the operator's methods ran {len(v['seen'])} times, expected {2 * len(calls)}"
        for i, (k, s) in enumerate(zip([k for k in calls for _ in range(2)], v["seen"])):
            g, space = opcheck.vec(c, k), leaf["model" if k == "x" else "data"]
            g = expr.moved(g) if i % 2 else g
            if leaf["form"] == "grid":
                g = g.reshape(leaf["dims"])
                loc = gen.cut(g, gen.balanced(leaf["dims"][0], n))[r]
            else:
                loc = gen.cut(g, space["parts"])[r]
            for key, want in (("gshape", g.shape), ("lshape", loc.shape), ("axis", 0), ("kind", "SCATTER"), ("dtype", str(g.dtype)),
                              ("comm", True)):
                if s[key] != want:
                    return f"rank {r}: the method was given an array whose {key} is {s[key]}, expected {want}"
            t = core.expect_same(f"rank {r}: the part the method was given", s["local"], loc)
            if t:
                return t
        if v["whole"] != ["refused"] * 2 or v["ran"]:
            return f"rank {r}: vectors that are not scattered: {v['whole']}, methods ran {v['ran']} times"
        if v["named"] != "Forward.":
            return f"rank {r}: the decorated method lost its documentation"
    return None


# -- with others -----------------------------------------------------------------------------------------------------
def g_tree(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    own = draw_own(draw, n, dt, square=True)
    s = own["model"]
    tree = expr.draw_tree(draw, n, s, s, dt, draw(st.integers(1, 3)))
    at = [l for l in expr.leaves(tree) if l["model"] == s == l["data"]]
    mine = draw(st.lists(st.booleans(), min_size=len(at), max_size=len(at)))
    if at and not any(mine):
        mine[0] = True
    for l, m in zip(at, mine):
        if m:
            keep = dict(own, fill=gen.recipe(draw))
            l.clear()
            l.update(keep)
    if not at:
        tree = {"t": "add", "e": tree, "f": {"t": "leaf", "leaf": own}}
    return expr.draw_case(draw, n, tree, s, s, draw(st.sampled_from(gen.FLOATS)), draw(st.sampled_from(gen.FLOATS)))


# -- inverted --------------------------------------------------------------------------------------------------------
def g_solve(draw, n):
    solver = draw(st.sampled_from(("cg", "cgls")))
    dtype = draw(st.sampled_from(gen.DOUBLES))
    own = draw_own(draw, n, dtype, square=True)
    own["fill"][0] = "int"
    s = own["model"]
    t = {"t": "leaf", "leaf": own}
    tree = solve.shifted(t, s, dtype, n, "2") if solver == "cg" else t
    c = {"solver": solver, "tree": tree, "model": s, "data": s, "dtype": dtype, "y": gen.recipe(draw),
         "x0": gen.recipe(draw) if draw(st.booleans()) else None, "damp": 0.0}
    if solver == "cgls":
        c["damp"] = draw(st.sampled_from((0.0, 0.5, 1.0, -1.0)))
    return solve.finish(draw, c, False)


SUBS = [Sub("own", g_own, s_own, j_own, quick=900, big=15, thorough=30000, real=6,
            label=lambda c: opcheck.labels(c) + [c["leaf"]["form"], c["leaf"]["work"], c["leaf"]["deco"],
                                                 "returns grid" if not c["leaf"]["flat"] else
                                                 "returns turned grid" if c["leaf"]["flat"] == "turned" else "returns flat"]),
        Sub("tree", g_tree, expr.scenario, expr.judge, quick=300, thorough=12000, real=3, ranks=(1, 6), label=expr.labels),
        Sub("solve", g_solve, solve.scenario, solve.judge, quick=200, thorough=8000, real=3, ranks=(1, 6), label=solve.labels)]
KNOWN = {}
