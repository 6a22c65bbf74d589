"""C16: the adjoint of every operator is the adjoint of its forward, and both are linear."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import zoo
from core import Sub
from props import c08, c19, c20

RULE = ("operator of the library with random parameters, or expression of them, plain or stacked; random vectors; non-trivial: "
        "more than one rank")


def draw_any(draw, n):
    """A tree with its model and data spaces."""
    how = draw(st.sampled_from(("op", "op", "tree", "chain", "stacked", "fredholm")))
    dt = draw(st.sampled_from(gen.FLOATS))
    if how == "op":
        leaf = c08.draw_op(draw, n)
        t = {"t": "leaf", "leaf": leaf}
        return t, leaf["model"], leaf["data"]
    if how == "fredholm":
        leaf = c19.draw_kernel(draw, n)
        return {"t": "leaf", "leaf": leaf}, leaf["model"], leaf["data"]
    if how == "tree":
        m, d = zoo.draw_space(draw, n), zoo.draw_space(draw, n)
        return expr.draw_tree(draw, n, m, d, dt, draw(st.integers(0, 2))), m, d
    if how == "chain":
        m = zoo.draw_space(draw, n)
        d = m if draw(st.booleans()) else zoo.draw_space(draw, n)
        return expr.draw_chain(draw, n, m, d, lambda a, b: expr.draw_tree(draw, n, a, b, dt, 0)), m, d

    def one():
        if draw(st.booleans()):
            return expr.space_K([zoo.draw_space(draw, n, hi=3) for _ in range(draw(st.integers(1, 3)))])
        return zoo.draw_space(draw, n, hi=3)
    m, d = one(), one()
    return expr.draw_stree(draw, n, m, d, dt, draw(st.integers(0, 1))), m, d


def g_pair(draw, n):
    tree, m, d = draw_any(draw, n)
    if draw(st.integers(0, 2)) == 0:
        # looked at in several ways, one upon the other
        steps = draw(st.lists(st.sampled_from(("scale", "conj", "T", "H", "neg")), min_size=1, max_size=4))
        tree = expr.upon(draw, tree, steps)
        if sum(f in "HT" for f in steps) % 2:
            m, d = d, m
    real = not expr.is_complex(tree)
    dts = ("float64", "float32") if real else gen.FLOATS
    xdt, vdt = draw(st.sampled_from(dts)), draw(st.sampled_from(dts))
    c = {"tree": tree, "model": m, "data": d, "x": gen.recipe(draw, tiny=True), "v": gen.recipe(draw, tiny=True), "w": gen.recipe(draw, tiny=True),
         "xdt": xdt, "vdt": vdt, "a": draw(st.sampled_from((2.0, -0.5, 3.0)))}
    expr.settle(tree, xdt, vdt)
    return c


def vecs(c):
    return (gen.fill(c["x"], (c["model"]["size"],), c["xdt"], 1), gen.fill(c["v"], (c["data"]["size"],), c["vdt"], 2),
            gen.fill(c["w"], (c["model"]["size"],), c["xdt"], 3), gen.fill(c["w"], (c["data"]["size"],), c["vdt"], 4))


def make(env, c):
    return expr.make(env, c["tree"])


def s_pair(env, c):
    op = make(env, c)
    x, v, w, u = vecs(c)
    X, V = expr.vector(env, c["model"], x), expr.vector(env, c["data"], v)
    W, U = expr.vector(env, c["model"], w), expr.vector(env, c["data"], u)
    a = c["a"]
    Y, Z = op.matvec(X), op.rmatvec(V)
    g = lambda q: np.array(q.asarray())  # noqa: E731
    ip = (complex(Y.conj().dot(V)), complex(X.conj().dot(Z)))
    return {"Y": g(Y), "Z": g(Z), "ip": ip, "lin": g(op.matvec(a * X + W)), "lin0": g(Y * a + op.matvec(W)),
            "adlin": g(op.rmatvec(a * V + U)), "adlin0": g(Z * a + op.rmatvec(U)), "HH": g(op.H.H.matvec(X)),
            "Hm": g(op.H.matvec(V)), "Tm": g(op.T.matvec(V.conj())).conj(), "Cm": g(op.conj().matvec(X.conj())).conj(), "TT": g(op.T.T.matvec(X)), "HT": g(op.H.T.conj().rmatvec(V)), "Hr": g(op.H.rmatvec(X)), "zero": g(op.matvec(X * 0))}


def size_of(c):
    """(bound on all that is summed up in the inner products, forward and adjoint)"""
    B = expr.bound(c["tree"])
    x, v, w, u = (np.abs(q).astype(np.float64) for q in vecs(c))
    m = 1 + abs(c["a"])
    return v @ B @ x, m * np.max(B @ np.maximum(x, w), initial=0.0), m * np.max(B.T @ np.maximum(v, u), initial=0.0)


def j_pair(c, o, size=size_of, eps=None):
    x, v, _, _ = vecs(c)
    si, sf, sa = (max(core.TINY, float(q)) for q in size(c))
    tol = (expr.eps(c["tree"], c["xdt"], c["vdt"]) * (2 + len(expr.nodes(c["tree"]))) if eps is None else eps) * 64
    for r, q in enumerate(o.values()):
        yv, xz = np.vdot(q["Y"], v), np.vdot(x, q["Z"])
        t = core.first(
            core.expect_close(f"rank {r}: <u, A^H v> against <A u, v>", xz, yv, tol, si),
            core.expect_close(f"rank {r}: distributed inner product with the forward", q["ip"][0], yv, tol, si),
            core.expect_close(f"rank {r}: distributed inner product with the adjoint", q["ip"][1], xz, tol, si),
            core.expect_close(f"rank {r}: A (a x + w) against a A x + A w", q["lin"], q["lin0"], tol, sf),
            core.expect_close(f"rank {r}: A^H (a v + u) against a A^H v + A^H u", q["adlin"], q["adlin0"], tol, sa),
            core.expect_close(f"rank {r}: adjoint of the adjoint", q["HH"], q["Y"], tol, sf),
            core.expect_close(f"rank {r}: the adjoint as an operator", q["Hm"], q["Z"], tol, sa),
            core.expect_close(f"rank {r}: conjugate of the transpose of the conjugate", q["Tm"], q["Z"], tol, sa),
            core.expect_close(f"rank {r}: conjugate of the conjugate of the conjugate", q["Cm"], q["Y"], tol, sf),
            core.expect_close(f"rank {r}: transpose of the transpose", q["TT"], q["Y"], tol, sf),
            core.expect_close(f"rank {r}: adjoint of the adjoint (its rmatvec)", q["Hr"], q["Y"], tol, sf),
            # conj(A^H T) = conj(conj(A)) = A, whose rmatvec is A^H
            core.expect_close(f"rank {r}: conjugate of the transpose of the adjoint", q["HT"], q["Z"], tol, sa),
            core.expect_close(f"rank {r}: the operator applied to zeros", q["zero"], np.zeros_like(q["Y"]), 0, 1))
        if t:
            return t
    return None


def labels(c):
    return [c["tree"]["t"], "complex" if expr.is_complex(c["tree"]) else "real", c["model"]["kind"] + c["data"]["kind"]] + sorted(
        {l["op"] for l in expr.leaves(c["tree"])})


def s_mdc(env, c):
    return s_mdc_with(env, c, c20.make(env, c))


def s_mdc_with(env, c, op):
    x, v = c20.vec(c, "x"), c20.vec(c, "v")
    X, V = (env.pm.DistributedArray.to_dist(q, partition=env.P.BROADCAST) for q in (x, v))
    return {"Y": np.array(op.matvec(X).asarray()), "Z": np.array(op.rmatvec(V).asarray())}


def j_mdc(c, o):
    x, v = c20.vec(c, "x"), c20.vec(c, "v")
    G = c20.kernel(c)
    sc = (1.0 if c["prescaled"] else c["dr"] * c["dt"] * np.sqrt(c["nt"])) * float(np.sqrt(np.max(np.sum(
        np.abs(G) ** 2, axis=(1, 2)), initial=0.0))) * float(np.linalg.norm(x)) * float(np.linalg.norm(v))
    for r, q in enumerate(o.values()):
        t = core.expect_close(f"rank {r}: <u, A^H v> against <A u, v>", np.vdot(x, q["Z"]), np.vdot(q["Y"], v),
                              64 * core.eps_of(c["dtype"]), max(core.TINY, sc))
        if t:
            return t
    return None


EFFORT = 1.5
SUBS = [Sub("operators", g_pair, s_pair, j_pair, quick=1200, thorough=40000, real=6, ranks=(1, 6), label=labels),
        Sub("mdc", c20.g_mdc, s_mdc, j_mdc, quick=150, thorough=6000, real=3, ranks=(1, 4),
            label=lambda c: ["two-sided" if c["twosided"] else "one-sided"])]
KNOWN = {}
