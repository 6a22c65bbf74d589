"""C26: the dot-test accepts right adjoints and rejects wrong ones, alike on all ranks."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import zoo
from core import Sub
from props import c16

RULE = ("random operators and vectors; adjoints left alone, scaled, shifted in one element, conjugated, or taken from another operator; "
        "tolerances on either side of the error; sizes that do not fit; errors asked for or not; non-trivial: more than one rank")

HOWS = ("right", "right", "scaled", "element", "conj", "other", "forward")


def g_dot(draw, n):
    m, d = zoo.draw_space(draw, n), zoo.draw_space(draw, n)
    dt = draw(st.sampled_from(gen.DOUBLES))
    if draw(st.integers(0, 3)) == 0:
        tree, m, d = c16.draw_any(draw, n)
    else:
        tree = expr.draw_tree(draw, n, m, d, dt, draw(st.integers(0, 1)))
    real = not expr.is_complex(tree)
    dts = ("float64",) if real else gen.DOUBLES
    c = {"tree": tree, "model": m, "data": d, "x": gen.recipe(draw), "v": gen.recipe(draw), "xdt": draw(st.sampled_from(dts)),
         "vdt": draw(st.sampled_from(dts)), "wrong": draw(st.sampled_from(HOWS)), "delta": draw(st.sampled_from(
             (1e-12, 1e-7, 1e-4, 1e-2, 1.0, -1.0))), "at": draw(st.integers(0, 10 ** 6)), "raise": draw(st.booleans()),
         "verb": draw(st.booleans()), "sizes": draw(st.sampled_from((None, None, "right", "rows", "cols", "swapped"))),
         "rtol": draw(st.sampled_from((None, 1e-6, 1e-3, 1e-1))), "atol": draw(st.sampled_from((None, 0.0, 1e-3, 10.0)))}
    expr.settle(tree, c["xdt"], c["vdt"])
    if "float32" in {l["dtype"] for l in expr.leaves(tree)} | {"float32" if a in ("f32", "c64") else "" for a in expr.alphas(tree)} or any(
            l["dtype"] == "complex64" for l in expr.leaves(tree)):
        c["rtol"] = 1e-1
    return c


def vecs(c):
    return gen.fill(c["x"], (c["model"]["size"],), c["xdt"], 1), gen.fill(c["v"], (c["data"]["size"],), c["vdt"], 2)


def spoil(c, z, y0):
    """What the wrong adjoint gives instead of z (global view); y0: what the forward would give for a vector of ones."""
    w = c["wrong"]
    if w == "scaled":
        return z * (1 + c["delta"])
    if w == "element":
        z = z.copy()
        z[c["at"] % len(z)] += c["delta"]
        return z
    if w == "conj":
        return z.conj()
    if w == "other":
        return -z
    if w == "forward":
        return z * 0
    return z


def s_dot(env, c, comm=None):
    comm = comm or env.comm
    inner = expr.make(env, c["tree"], comm)
    x, v = vecs(c)
    U, V = expr.vector(env, c["model"], x, comm), expr.vector(env, c["data"], v, comm)
    if c["wrong"] == "right":
        op = inner
    else:
        op = spoiled(env, c, inner, comm)
    kw = {k: c[k] for k in ("rtol", "atol") if c[k] is not None}
    nr, nc = inner.shape
    if c["sizes"]:
        kw["nr"], kw["nc"] = {"right": (nr, nc), "rows": (nr + 1, nc), "cols": (nr, nc + 2), "swapped": (nc, nr)}[c["sizes"]]
    try:
        ok = env.pm.utils.dottest(op, U, V, raiseerror=c["raise"], verb=c["verb"], **kw)
    except AssertionError:
        ok = "error"
    kept = all(core.same(a, b.local_array) for q, w in ((U, x), (V, v)) for a, b in zip(locals_of(comm, c, q is U, w), expr.arrays(q)))
    return ok if isinstance(ok, str) else bool(ok), comm.allreduce(1), kept


def locals_of(comm, c, model, g):
    space = c["model" if model else "data"]
    return [zoo.cut(s, p, comm.Get_size())[comm.Get_rank()] for s, p in zip(expr.members(space), expr.split(space, g))]


def spoiled(env, c, inner, comm):
    """An operator with a wrong adjoint, as a user's class could be."""
    stacked = isinstance(inner, env.pm.MPIStackedLinearOperator)

    class Spoiled(env.pm.MPIStackedLinearOperator if stacked else env.pm.MPILinearOperator):
        def _matvec(self, x):
            return inner.matvec(x)

        def _rmatvec(self, x):
            z = inner.rmatvec(x)
            return expr.vector(env, c["model"], spoil(c, np.array(z.asarray()), None), comm)
    return Spoiled(shape=inner.shape, dtype=inner.dtype, base_comm=comm)


def j_dot(c, o):
    A = expr.dense(c["tree"])
    nr, nc = A.shape
    fit = c["sizes"] in (None, "right") or (c["sizes"] == "swapped" and nr == nc)
    x, v = vecs(c)
    if not fit:
        want = {"error"}
    else:
        y, z = A @ x, A.conj().T @ v
        yy, xx = np.vdot(y, v), np.vdot(x, spoil(c, z, None))
        rtol = 1e-6 if c["rtol"] is None else c["rtol"]
        atol = 1e-21 if c["atol"] is None else c["atol"]
        B = expr.bound(c["tree"])
        eps = 64 * expr.eps(c["tree"], c["xdt"], c["vdt"]) * (2 + len(expr.nodes(c["tree"])))
        slack = eps * max(1.0, float(np.abs(v).astype(float) @ B @ np.abs(x).astype(float)))
        diff = abs(xx - yy)
        want = set()
        allowed = (atol + rtol * abs(yy) - rtol * slack, atol + rtol * abs(yy) + rtol * slack)
        if diff - slack <= allowed[1]:
            want.add(True)
        if diff + slack >= allowed[0]:
            want.add("error" if c["raise"] else False)
        if c["wrong"] == "right":
            # exact integer arithmetic leaves nothing to tolerate, but for zero inner products and rounding
            want.add(True)
    seen = {v[0] for v in o.values()}
    if len(seen) > 1:
        return f"verdicts differ between ranks: {[v[0] for v in o.values()]}"
    got = o.values()[0][0]
    if got not in want:
        return f"verdict {got}, expected {want} (wrong adjoint: {c['wrong']}, sizes {c['sizes']})"
    for r, v in enumerate(o.values()):
        if v[1] != c["n"] or not v[2]:
            return f"rank {r}: the vectors changed or the communicator is broken afterwards"
    return None


SUBS = [Sub("verdict", g_dot, s_dot, j_dot, quick=800, thorough=30000, real=6, ranks=(1, 6),
            label=lambda c: [c["wrong"], f"sizes={c['sizes']}", "raise" if c["raise"] else "return", f"delta={c['delta']}"])]
KNOWN = {}
