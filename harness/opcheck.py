"""The generated check shared by the operator properties: forward and adjoint against the operator's matrix."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import zoo

CALLS = ("matvec", "dot", "mul", "matmul")
ADJ = ("rmatvec", "H", "H.matvec", "H.dot", "T")


def draw_apply(draw, n, leaf, layouts=True):
    """The vectors a drawn operator is applied to, and how."""
    c = {"leaf": leaf, "x": gen.recipe(draw, tiny=True), "v": gen.recipe(draw, tiny=True), "call": draw(st.sampled_from(CALLS)),
         "adj": draw(st.sampled_from(ADJ)), "unsafe": draw(st.booleans()), "order": draw(st.booleans())}
    dt = leaf.get("opdtype") or leaf["dtype"]
    c["xdt"], c["vdt"] = zoo.x_dtype(draw, dt), zoo.x_dtype(draw, dt)
    for k, s in (("xparts", leaf["model"]), ("vparts", leaf["data"])):
        c[k] = None
        if s["kind"] == "S" and layouts:
            c[k] = draw_layout(draw, n, s)
    return c


def draw_layout(draw, n, space):
    """Another layout of a vector of the space, or None for its natural one."""
    how = draw(st.sampled_from(("natural", "natural", "default", "near", "near", "any")))
    p = space["parts"]
    if how == "natural":
        return None
    if how == "default":
        return gen.balanced(space["size"], n)
    if how == "any":
        return gen.sizes(draw, n, space["size"])
    # boundaries move within the neighbours
    o = gen.offsets(p)
    cuts = [0]
    for r in range(1, n):
        cuts.append(draw(st.integers(max(cuts[-1], o[r - 1]), o[r + 1])))
    return np.diff(cuts + [o[-1]]).tolist()


def vec(c, which):
    space, rec, dt = ((c["leaf"]["model"], c["x"], c["xdt"]) if which == "x" else (c["leaf"]["data"], c["v"], c["vdt"]))
    return gen.fill(rec, (space["size"],), dt, 1 if which == "x" else 2)


def forward(op, x, how):
    return {"matvec": lambda: op.matvec(x), "dot": lambda: op.dot(x), "mul": lambda: op * x, "matmul": lambda: op @ x}[how]()


def backward(op, v, how):
    if how == "rmatvec":
        return op.rmatvec(v)
    if how == "H":
        return op.H * v
    if how == "H.matvec":
        return op.H.matvec(v)
    if how == "H.dot":
        return op.adjoint().dot(v)
    return op.T.matvec(v.conj()).conj()


def scenario(env, c, make=zoo.leaf_make, comm=None):
    leaf = c["leaf"]
    op = make(env, leaf) if comm is None else make(env, leaf, comm)
    out = {"shape": tuple(int(s) for s in op.shape), "dtype": str(np.dtype(op.dtype)), "comm": op.base_comm is (comm or env.comm)}

    def go(which):
        g = vec(c, which)
        space = leaf["model"] if which == "x" else leaf["data"]
        x = zoo.vector(env, space, g, comm, c["xparts" if which == "x" else "vparts"], c["unsafe"] and not leaf.get("nounsafe"))
        keep = x.local_array.copy()
        try:
            y = forward(op, x, c["call"]) if which == "x" else backward(op, x, c["adj"])
        except ValueError as e:
            return {"refused": str(e)[:200]}
        res = zoo.obs(env, y, comm)
        res["kept"] = core.same(keep, x.local_array)
        # the same vector, changed in place, and what came out before
        was = y.local_array.copy()
        x[:] = expr.moved(keep)
        later = forward(op, x, c["call"]) if which == "x" else backward(op, x, c["adj"])
        res["later"] = zoo.obs(env, later, comm)
        res["stays"] = core.same(was, y.local_array)
        keep = x.local_array.copy()
        if y.local_array.size:
            y.local_array[...] = 0  # (the result's own memory)
        res["apart"] = core.same(keep, x.local_array)
        return res
    for which in ("xv" if c["order"] else "vx"):
        out[which] = go(which)
    out["again"] = go("x")
    return out


def expectations(c, which, A):
    leaf = c["leaf"]
    x = vec(c, which)
    A = A if which == "x" else A.conj().T
    space = leaf["data"] if which == "x" else leaf["model"]
    if space["kind"] == "B" and c["unsafe"] and not leaf.get("nounsafe") and leaf["op"] == "wrap":
        space = dict(space, kind="U")
    return x, A @ x, zoo.scale(A, x), space


def judge(c, o, dense=zoo.leaf_dense, result_dtype=True, mask=None, refusable=None):
    leaf, n = c["leaf"], c["n"]
    A = dense(leaf)
    want_shape = (leaf["data"]["size"], leaf["model"]["size"])
    assert A.shape == want_shape, (A.shape, want_shape)
    dt = leaf.get("opdtype") or leaf["dtype"]
    for r, v in enumerate(o.values()):
        if v["shape"] != want_shape:
            return f"rank {r}: operator shape {v['shape']}, expected {want_shape}"
        if np.dtype(v["dtype"]) != np.dtype(dt):
            return f"rank {r}: operator dtype {v['dtype']}, expected {dt}"
        if not v["comm"]:
            return f"rank {r}: operator has another communicator"
    for key in ("x", "v", "again"):
        which = "v" if key == "v" else "x"
        x, y, sc, space = expectations(c, which, A)
        what = {"x": f"forward ({c['call']})", "v": f"adjoint ({c['adj']})", "again": "forward, applied again"}[key]
        refused = [bool(v[key].get("refused")) for v in o.values()]
        inspace = leaf["model"] if which == "x" else leaf["data"]
        parts = c["xparts" if which == "x" else "vparts"]
        may = inspace["kind"] == "S" and parts is not None and not zoo.can_shift(parts, inspace["parts"])
        if any(refused):
            if may and all(refused):
                continue
            r = refused.index(True)
            return f"{what}: refused at ranks {[i for i, q in enumerate(refused) if q]}: {o.values()[r][key]['refused']}"
        for r, v in enumerate(o.values()):
            s = v[key]
            m = mask if space["kind"] == "S" else None
            if which == "v" and c["adj"] == "T" or not result_dtype:
                t = zoo.check(what, r, s, space, y, n, zoo.tol(dt, x.dtype), sc, None, m)
            else:
                t = zoo.check(what, r, s, space, y, n, zoo.tol(dt, x.dtype), sc, dt, m)
            if t:
                return t
            if not s["kept"] or not s["apart"]:
                return f"rank {r}: {what}: " + ("the operand changed" if not s["kept"] else "the result shares memory with the operand")
            if not s["stays"]:
                return f"rank {r}: {what}: the result changed when the operator was applied again"
            x2 = expr.moved(x)
            t = core.expect_close(f"rank {r}: {what}: applied to the same vector, changed in place", s["later"]["global"],
                                  (A if which == "x" else A.conj().T) @ x2, zoo.tol(dt, x.dtype), zoo.scale(A if which == "x" else A.conj().T, x2))
            if t:
                return t
    return None


def labels(c):
    leaf = c["leaf"]
    out = [leaf["op"], f"dtype={leaf['dtype']}", c["call"], c["adj"]]
    for k, s in (("xparts", leaf["model"]), ("vparts", leaf["data"])):
        if c[k] is not None:
            out.append("other layout" if zoo.can_shift(c[k], s["parts"]) else "layout too far")
    return sorted(set(out))
