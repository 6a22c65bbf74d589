"""C23: what cannot be done is refused on every rank, and leaves everything usable."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import expr
import gen
import zoo
from core import Sub

RULE = ("a random request that does not fit (one of 40 kinds, at any rank), then valid operations on the same arrays and communicator; "
        "non-trivial: more than one rank")

OPS = ("add", "sub", "mul", "iadd", "isub", "dot", "imul", "m_add", "m_multiply", "m_iadd")


def apply(op, x, y):
    if op == "iadd":
        x += y
    elif op == "isub":
        x -= y
    elif op == "imul":
        x *= y
    elif op == "m_add":
        return x.add(y)
    elif op == "m_multiply":
        return x.multiply(y)
    elif op == "m_iadd":
        return x.iadd(y)
    else:
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "dot": lambda: x.dot(y)}[op]()


# -- arrays ----------------------------------------------------------------------------------------------------------
def g_arrays(draw, n):
    what = draw(st.sampled_from(("shape", "shape", "layout", "layout", "partition", "mask", "mask", "axis", "lengths", "sums", "others",
                                 "bcast shapes", "kind", "engine", "norm axis", "norm ord", "ghost", "ghost", "todist")))
    a = arr.draw_desc(draw, n, kinds="S" if what in ("layout", "norm axis", "ghost", "sums", "others") else "SSBU", lo=1)
    c = {"what": what, "a": a, "op": draw(st.sampled_from(OPS)), "bfill": gen.recipe(draw), "w": draw(st.integers(0, n - 1)),
         "k": draw(st.integers(1, 3)), "flag": draw(st.booleans())}
    if what == "shape":
        b = dict(a, shape=list(a["shape"]), parts=None)
        ax = draw(st.integers(0, len(a["shape"]) - 1))
        # different on every rank
        if a["kind"] == "S" and ax == a["axis"]:
            p = arr.parts(a)
            b["parts"] = [q + draw(st.integers(1, 2)) for q in p]
            b["shape"][ax] = sum(b["parts"])
        else:
            b["shape"][ax] += c["k"]
            b["parts"] = a["parts"]
        c["b"] = b
    if what == "layout":
        if n == 1:
            c["what"] = what = "norm ord"
        else:
            p = arr.parts(a)
            how = draw(st.sampled_from(("rotate", "any")))
            q = p[1:] + p[:1] if how == "rotate" else gen.sizes(draw, n, sum(p))
            for _ in range(4):  # rather different on all ranks than on some (see K1)
                if any(u == v for u, v in zip(p, q)) and sum(p) >= n:
                    q = gen.sizes(draw, n, sum(p))
            if q == p:
                q = list(p)
                i = max(range(n), key=lambda r: p[r])
                if q[i] == 0:
                    c["what"] = what = "norm ord"
                q[i] -= 1
                q[(i + 1) % n] += 1
            c["b"] = dict(a, parts=q)
    if what == "partition":
        c["b"] = dict(a, kind=draw(st.sampled_from([k for k in "SBU" if k != a["kind"]])), axis=a["axis"], parts=None)
    if what == "mask":
        m = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
        if m == a["mask"]:
            m[c["w"]] += 1
        c["b"] = dict(a, mask=m)
    if what == "norm axis" and len(a["shape"]) == 1:
        c["what"] = what = "norm ord"
    if what == "norm axis":
        c["axis"] = draw(st.sampled_from([x for x in range(len(a["shape"])) if x != a["axis"]]))
    if what == "ghost":
        p = arr.parts(a)
        c["front"] = draw(st.booleans())
        cells = [0] * n
        give = range(n - 1) if c["front"] else range(1, n)
        if n == 1:
            c["what"] = what = "norm ord"
        else:
            r = draw(st.sampled_from(list(give)))
            cells[r + 1 if c["front"] else r - 1] = p[r] + c["k"]
            c["cells"] = cells
    if what in ("sums", "others", "lengths", "todist"):
        c["parts"] = arr.parts(a)
    return c


def request(env, c, x, y):
    D, P = env.pm.DistributedArray, env.P
    a, w, k, n = c["a"], c["w"], c["k"], env.size
    what = c["what"]
    if what in ("shape", "layout", "partition", "mask"):
        return apply(c["op"], x, y)
    shp = tuple(a["shape"])
    if what == "axis":
        return D(shp, axis=len(shp) + k - 1, partition=P[arr.PARTS[a["kind"]]])
    if what in ("lengths", "sums", "others", "todist"):
        ax = a["axis"]
        ls = gen.local_shapes(shp, ax, list(c["parts"]))
        if what == "lengths":
            ls = ls[:-1] if c["flag"] and n > 1 else ls + [ls[0]]
        elif what == "others" and len(shp) > 1:
            q = list(ls[w])
            q[(ax + 1) % len(shp)] += k
            ls[w] = tuple(q)
        else:
            q = list(ls[w])
            q[ax] += k
            ls[w] = tuple(q)
        if what == "todist":
            return D.to_dist(np.ones(shp), axis=ax, local_shapes=ls)
        return D(shp, axis=ax, local_shapes=ls)
    if what == "bcast shapes":
        ls = [tuple(shp)] * n
        ls[w] = tuple(v + k for v in shp)
        return D(shp, partition=P.BROADCAST if c["flag"] else P.UNSAFE_BROADCAST, local_shapes=ls)
    if what == "kind":
        return D(shp, partition=("Nowhere", "Scatter", None, "Broadcast", 3, "UnsafeBroadcast")[(k + w) % 6])
    if what == "engine":
        return D(shp, engine=("numpi", "jaxx", "")[k - 1])
    if what == "norm axis":
        return x.norm(axis=c["axis"])
    if what == "norm ord":
        return x.norm("fro" if c["flag"] else "nuc")
    if what == "ghost":
        kw = {"cells_front" if c["front"] else "cells_back": c["cells"][env.rank]}
        return x.add_ghost_cells(**kw)
    raise KeyError(what)


def s_arrays(env, c):
    x = arr.build(env, c["a"])
    y = arr.build(env, c["b"], 5, g=gen.fill(c["bfill"], c["b"]["shape"], c["b"]["dtype"], 5)) if "b" in c else None
    try:
        request(env, c, x, y)
        got = "accepted"
    except Exception as e:
        got = type(e).__name__
    z = x + x
    return {"got": got, "x": arr.snap(env, x), "z": arr.snap(env, z), "global": np.array(z.asarray()), "sum": env.comm.allreduce(env.rank),
            "y": None if y is None else arr.snap(env, y)}


def j_arrays(c, o):
    got = [v["got"] for v in o.values()]
    if "accepted" in got:
        return f"{c['what']} ({c['op']}): accepted at ranks {[r for r, g in enumerate(got) if g == 'accepted']}, others: {set(got)}"
    a = c["a"]
    A = arr.value(a)
    for r, v in enumerate(o.values()):
        t = core.first(arr.check("array after the error", v["x"], a, arr.local(a, A)[r], r),
                       arr.check("sum after the error", v["z"], a, arr.local(a, A + A)[r], r),
                       core.expect_same(f"rank {r}: global sum after the error", v["global"], A + A))
        if t:
            return t
        if v["y"] is not None:
            b = c["b"]
            B = gen.fill(c["bfill"], b["shape"], b["dtype"], 5)
            t = arr.check("other array after the error", v["y"], b, arr.local(b, B)[r], r)
            if t:
                return t
        if v["sum"] != c["n"] * (c["n"] - 1) // 2:
            return f"rank {r}: the communicator gives {v['sum']} afterwards"
    return None


def partial(c):
    """Layouts that agree on some ranks and not on others."""
    if c.get("what") != "layout" or c["op"] not in OPS:
        return False
    same = [p == q for p, q in zip(arr.parts(c["a"]), arr.parts(c["b"]))]
    return any(same) and not all(same)


# -- operators -------------------------------------------------------------------------------------------------------
OPREQ = ("size", "size", "adj size", "two-d", "product", "sum", "difference", "power neg", "power frac", "power shape", "scalar matmul",
         "scalar rmatmul", "add scalar", "stack to plain", "partition", "partition", "derivative kind", "derivative order",
         "laplacian sizes", "laplacian axis", "gradient kind", "vstack", "hstack", "fredholm", "fredholm scatter", "mdc even",
         "dottest sizes", "solver niter", "stacked vstack", "stacked two-d", "stacked size", "stacked add", "stacked product",
         "stacked power", "arrays number", "arrays shape", "arrays norm", "solver size", "no block fits", "array plus stack", "bad operand")


def g_ops(draw, n):
    what = draw(st.sampled_from(OPREQ))
    dt = draw(st.sampled_from(gen.FLOATS))
    m, d = zoo.draw_space(draw, n), zoo.draw_space(draw, n)
    c = {"what": what, "tree": expr.draw_tree(draw, n, m, d, dt, draw(st.integers(0, 1))), "model": m, "data": d, "dtype": dt,
         "x": gen.recipe(draw), "k": draw(st.integers(1, 3)), "w": draw(st.integers(0, n - 1)), "flag": draw(st.booleans()),
         "op": draw(st.sampled_from(OPS))}
    expr.settle(c["tree"], dt, dt)
    m2, d2 = zoo.draw_space(draw, n), zoo.draw_space(draw, n)
    c["tree2"] = expr.draw_tree(draw, n, m2, d2, dt, 0)
    if m2["size"] == d["size"]:
        c["tree2"] = c["tree"]
    return c


def op_request(env, c):
    """The request, ready to be made."""
    import pylops
    pm, P, D = env.pm, env.P, env.pm.DistributedArray
    S = pm.StackedDistributedArray
    n, r, k, w, flag = env.size, env.rank, c["k"], c["w"], c["flag"]
    A = expr.make(env, c["tree"])
    B = expr.make(env, c["tree2"])
    M, N = A.shape
    what = c["what"]

    def part(kind):
        return P.SCATTER if kind["kind"] == "S" else P.BROADCAST

    def vec(size, p=P.BROADCAST):
        return D.to_dist(np.ones(size, dtype=c["dtype"]), partition=p)

    def mat(a, b):
        return pylops.MatrixMult(np.ones((a, b)))
    if what in ("size", "adj size"):
        adj = what == "adj size"
        size, sp = (M, c["data"]) if adj else (N, c["model"])
        size = max(1, size - k) if flag and size > k else size + k
        x = vec(size, part(sp))
        return lambda: A.rmatvec(x) if adj else (A @ x)
    if what == "two-d":
        x = vec((N, 1) if flag else (1, N), P.BROADCAST)
        return lambda: A @ x
    if what == "product":
        T = mat(N + k, 2)
        Q = pm.MPILinearOperator(Op=T)
        return lambda: A @ Q if flag else Q.H @ A.H
    if what in ("sum", "difference"):
        Q = pm.MPILinearOperator(Op=mat(M + (k if flag else 0), N + (0 if flag else k)))
        return lambda: A + Q if what == "sum" else A - Q
    if what == "power neg":
        Q = pm.MPILinearOperator(Op=mat(k, k))
        return lambda: Q ** -k
    if what == "power frac":
        Q = pm.MPILinearOperator(Op=mat(k, k))
        return lambda: Q ** (0.5 * (2 * k - 1))
    if what == "power shape":
        Q = pm.MPILinearOperator(Op=mat(k, k + 1))
        return lambda: Q ** 2
    if what == "scalar matmul":
        return lambda: A @ 2.0
    if what == "scalar rmatmul":
        return lambda: 2.0 @ A
    if what == "add scalar":
        return lambda: A + 1.0
    if what == "bad operand":
        return lambda: A + np.ones((M, N)) if flag else A - "x"
    if what == "stack to plain":
        x = S([vec(N)])
        return lambda: A.matvec(x)
    if what == "partition":
        Q = (pm.MPIBlockDiag([mat(2, 3)]), pm.MPIVStack([mat(2, 3)]), pm.MPIHStack([mat(2, 3)]),
             pm.MPIFirstDerivative((4 * n,)), pm.MPISecondDerivative((4 * n,)))[(k + w) % 5]
        i = (k + w) % 5
        fwd = flag if i in (0, 3, 4) else None
        if i == 1:
            x, f = D.to_dist(np.ones(3), local_shapes=[(3,)] + [(0,)] * (n - 1)), Q.matvec
        elif i == 2:
            x, f = D.to_dist(np.ones(2), local_shapes=[(2,)] + [(0,)] * (n - 1)), Q.rmatvec
        else:
            size = Q.shape[1 if fwd else 0]
            x = D.to_dist(np.ones(size), partition=P.BROADCAST if i == 0 else P.UNSAFE_BROADCAST)
            f = Q.matvec if fwd else Q.rmatvec
        return lambda: f(x)
    if what == "derivative kind":
        return lambda: (pm.MPIFirstDerivative if flag else pm.MPISecondDerivative)((4 * n,), kind="sideways")
    if what == "derivative order":
        return lambda: pm.MPIFirstDerivative((4 * n,), kind="centered", order=(4, 7, 1)[k - 1])
    if what == "laplacian sizes":
        kw = [dict(weights=(1,)), dict(sampling=(1, 1, 1)), dict(axes=(0,))][k - 1]
        return lambda: pm.MPILaplacian((4 * n, 4), **{**dict(axes=(0, 1), weights=(1, 1), sampling=(1, 1)), **kw})
    if what == "laplacian axis":
        return lambda: pm.MPILaplacian((4 * n, 4), axes=(0, 1 + k) if flag else (-2 - k, 1))
    if what == "gradient kind":
        return lambda: pm.MPIGradient((4 * n, 4), kind="upward")
    if what in ("vstack", "hstack"):
        sizes = [2] * n
        sizes[w] += k
        ops = [mat(2, 3), mat(2, 3)]
        if flag and n > 1:
            ops = [mat(2, sizes[r])] if what == "vstack" else [mat(sizes[r], 2)]
        elif r == w:
            ops[1] = mat(2, 3 + k) if what == "vstack" else mat(2 + k, 3)
        return lambda: (pm.MPIVStack if what == "vstack" else pm.MPIHStack)(ops)
    if what == "fredholm":
        G = np.ones((1 if r == w else 3, 2, 2))
        return lambda: pm.signalprocessing.MPIFredholm1(G)
    if what == "fredholm scatter":
        F = pm.signalprocessing.MPIFredholm1(np.ones((2, 2, 2)))
        x = vec(F.shape[1], P.SCATTER)
        return lambda: F.matvec(x) if flag else F.rmatvec(x)
    if what == "mdc even":
        return lambda: pm.waveeqprocessing.MPIMDC(np.ones((2, 2, 2), dtype=complex), 4 * n + 2 * k, 1, 2 * n, twosided=True)
    if what == "dottest sizes":
        x, y = expr.vector(env, c["model"], np.ones(N, c["dtype"])), expr.vector(env, c["data"], np.ones(M, c["dtype"]))
        return lambda: pm.utils.dottest(A, x, y, nr=M + (k if flag else 0), nc=N + (0 if flag else k))
    if what == "solver niter":
        Q = pm.MPILinearOperator(Op=mat(2, 2))
        Q2 = pm.optimization.cls_basic.CG(Q) if flag else pm.optimization.cls_basic.CGLS(Q)

        def go():
            x = Q2.setup(vec(2), vec(2))
            return Q2.run(x)
        return go
    if what == "solver size":
        Q = pm.MPILinearOperator(Op=mat(2, 2))
        y, x = (vec(2 + k), vec(2)) if flag else (vec(2), vec(2 + k))
        return lambda: (pm.cg if w % 2 else pm.cgls)(Q, y, x)
    if what == "stacked vstack":
        Q = pm.MPILinearOperator(Op=mat(M, N + k))
        return lambda: pm.MPIStackedVStack([A, Q])
    sd = pm.MPIStackedBlockDiag([A, B])
    if what == "stacked two-d":
        x = S([vec((N, 1)), vec((B.shape[1], 1))])
        return lambda: sd @ x if flag else sd.H @ S([vec((M, 1)), vec((B.shape[0], 1))])
    if what == "stacked size":
        x = S([vec(N + k), vec(B.shape[1])])
        y = S([vec(M), vec(B.shape[0] + k)])
        return lambda: sd.matvec(x) if flag else sd.rmatvec(y)
    if what in ("stacked add", "stacked product"):
        Q = pm.MPIStackedBlockDiag([pm.MPILinearOperator(Op=mat(sd.shape[0] + k, sd.shape[1]))])
        Z = pm.MPIStackedBlockDiag([pm.MPILinearOperator(Op=mat(sd.shape[1] + k, 2))])
        if what == "stacked add":
            return lambda: sd + Q if flag else sd - Q
        return lambda: sd @ Z
    if what == "stacked power":
        Q = pm.MPIStackedBlockDiag([pm.MPILinearOperator(Op=mat(k, k + (0 if flag else 1)))])
        return lambda: Q ** (-1 if flag else 2)
    a, b = S([vec(3), vec((2, 2))]), S([vec(3), vec((2, 2))])
    if what == "arrays number":
        b = S([vec(3)]) if flag else S([vec(3), vec((2, 2)), vec(1)])
        return lambda: apply(c["op"], a, b)
    if what == "arrays shape":
        b = S([vec(3), vec((2, 2 + k))]) if flag else S([vec(3 + k), vec((2, 2))])
        return lambda: apply(c["op"], a, b)
    if what == "arrays norm":
        return lambda: a.norm("fro" if flag else "nuc")
    if what == "array plus stack":
        return lambda: (a[0] + a) if flag else (a + a[0])
    if what == "no block fits":
        x = S([vec(N), vec(B.shape[1])])
        Q = pm.MPILinearOperator(Op=mat(M, N + k))
        return lambda: pm.MPIStackedBlockDiag([Q, B]).matvec(x)
    raise KeyError(what)


def s_ops(env, c):
    A = expr.make(env, c["tree"])
    x = expr.vector(env, c["model"], gen.fill(c["x"], (c["model"]["size"],), c["dtype"], 1))
    go = op_request(env, c)
    try:
        z = go()
        got = f"accepted: {type(z).__name__}"
    except Exception as e:
        got = type(e).__name__
    return {"got": got, "y": expr.obs(env, A @ x), "sum": env.comm.allreduce(env.rank)}


def j_ops(c, o):
    got = [v["got"] for v in o.values()]
    if any(g.startswith("accepted") for g in got):
        return f"{c['what']}: {got}"
    A, B = expr.dense(c["tree"]), expr.bound(c["tree"])
    x = gen.fill(c["x"], (c["model"]["size"],), c["dtype"], 1)
    for r, v in enumerate(o.values()):
        t = expr.check("operator applied after the error", r, v["y"], c["data"], A @ x, c["n"], 64 * 8 * expr.eps(c["tree"], c["dtype"]),
                       max(1.0, float(np.max(B @ np.abs(x), initial=0.0))))
        if t:
            return t
        if v["sum"] != c["n"] * (c["n"] - 1) // 2:
            return f"rank {r}: the communicator gives {v['sum']} afterwards"
    return None


SUBS = [Sub("arrays", g_arrays, s_arrays, j_arrays, quick=1500, thorough=40000, real=6, label=lambda c: [c["what"]], leftovers=True),
        Sub("operators", g_ops, s_ops, j_ops, quick=1000, thorough=20000, real=6, ranks=(1, 6), label=lambda c: [c["what"]],
            leftovers=True)]
KNOWN = {"K1": lambda case, text: partial(case)}
