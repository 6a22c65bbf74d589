"""C35: the inversions the documentation shows, done on distributed data, are those of the serial operators on the whole problem."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import solve
import zoo
from props import c20
from core import Sub

RULE = ("post-stack models split over the ranks along the first axis (plain, with normal equations or stacked equations and a Laplacian), a "
        "replicated model seen by sources on the ranks, multi-dimensional deconvolution; sizes, splits, wavelets, guesses, "
        "regularization drawn; non-trivial: more than one rank and at least one iteration")


# -- the operators ---------------------------------------------------------------------------------------------------
def poststack(c, ny):
    from pylops import Transpose
    from pylops.avo.poststack import PoststackLinearModelling
    P = PoststackLinearModelling(np.array(c["wav"]), nt0=c["nz"], spatdims=(ny, c["nx"]))
    T = Transpose((ny, c["nx"], c["nz"]), (2, 0, 1))
    return T.H @ P @ T


def source(c, i):
    """What source i makes of the model: a matrix along space, a wavelet along time."""
    import pylops
    G = gen.fill(c["fill"], (c["nr"], c["nx"]), "float64", 30 + i)
    w = gen.fill(c["fill"], (3,), "float64", 60 + i)
    return pylops.signalprocessing.Convolve1D((c["nr"], c["nz"]), h=w, offset=1, axis=-1) @ pylops.MatrixMult(G, otherdims=(c["nz"],))


def leaf_make(env, c, comm=None):
    if c["op"] == "poststack":
        on = {} if c["omit"] else {"base_comm": env.comm}
        return env.pm.basicoperators.MPIBlockDiag([poststack(c, q) for q in c["ny"][env.rank]], **on)
    if c["op"] == "sources":
        on = {} if c["omit"] else {"base_comm": env.comm}
        o = gen.offsets(c["split"])
        return env.pm.MPIVStack([source(c, i) for i in range(o[env.rank], o[env.rank + 1])], **on)
    return c20.make(env, c["mdc"])


_dense = {}


def leaf_dense(c):
    k = core.canon(c)
    if k not in _dense:
        if len(_dense) > 20:
            _dense.clear()
        if c["op"] == "poststack":
            A = poststack(c, sum(sum(q) for q in c["ny"])).todense()
        elif c["op"] == "sources":
            import pylops
            A = pylops.VStack([source(c, i) for i in range(sum(c["split"]))]).todense()
        else:
            forward, _ = c20.serial(c["mdc"])
            A = np.stack([np.asarray(forward(e)).real for e in np.eye(c20.vec(c["mdc"], "x").size)], axis=1)
        _dense[k] = np.ascontiguousarray(A)
    return _dense[k]


for _k in ("poststack", "sources", "mdd"):
    zoo.MORE[_k] = (leaf_make, leaf_dense)


# -- problems --------------------------------------------------------------------------------------------------------
def leaf(l, m, d):
    return {"t": "leaf", "leaf": {**l, "dtype": "float64", "model": m, "data": d}}


def draw_poststack(draw, n, how):
    nx, nz = draw(st.integers(1 if how == "plain" else 3, 3)), draw(st.integers(3, 5))
    edge = draw(st.booleans())
    if how == "plain":
        rows = [draw(st.integers(1, 3)) for _ in range(n)]
    else:  # (a Laplacian needs two rows at every rank, or three)
        lo = zoo.min_rows("second", "centered", 3, edge)
        rows = gen.balanced(draw(st.integers(max(lo * n, 3), lo * n + n)), n)
    s = zoo.space_S([q * nx * nz for q in rows])
    t = leaf({"op": "poststack", "ny": [zoo.split_parts(draw, q) for q in rows], "nx": nx, "nz": nz, "omit": draw(st.booleans()),
              "wav": [draw(st.sampled_from((-1.0, 0.5, 2.0))), draw(st.sampled_from((1.0, 4.0))), draw(st.sampled_from((0.0, 1.0)))]},
             s, s)
    if how == "plain":
        return t, s, s
    axes = draw(st.sampled_from(([0, 1, 2], [0, 2], [0, 1], [0, -1], [1, 2])))
    lap = leaf({"op": "laplacian", "dims": [sum(rows), nx, nz], "axes": axes, "weights": [draw(st.sampled_from((1.0, 2.0))) for _ in axes],
                "samp": [draw(st.sampled_from((1.0, 2.0))) for _ in axes], "kind": "centered", "edge": edge, "order": 3,
                "omit": draw(st.booleans())}, s, s)
    eps = draw(st.sampled_from((".5", "2")))
    if how == "normal":
        return {"t": "add", "e": {"t": "prod", "e": {"t": "H", "e": t}, "f": t, "at": True},
                "f": {"t": "prod", "e": {"t": "scale", "a": eps, "left": True, "e": {"t": "H", "e": lap}}, "f": lap, "at": True}}, s, s
    return {"t": "svs", "ops": [t, {"t": "scale", "a": eps, "left": True, "e": lap}]}, s, expr.space_K([s, s])


def draw_sources(draw, n):
    nx, nz, nr = draw(st.integers(1, 3)), draw(st.integers(3, 5)), draw(st.integers(1, 3))
    split = [draw(st.integers(1, 3)) for _ in range(n)]
    m, d = zoo.space_B(nx * nz), zoo.space_S([q * nr * nz for q in split])
    return leaf({"op": "sources", "nx": nx, "nz": nz, "nr": nr, "split": split, "fill": ["int", draw(st.integers(0, 999))],
                 "omit": draw(st.booleans())}, m, d), m, d


def draw_mdd(draw, n):
    c = c20.g_mdc(draw, n)
    c.update(dtype="complex128", ns=draw(st.integers(2, 3)), nr=draw(st.integers(2, 3)), nv=draw(st.integers(1, 2)))
    c["slices"] = [2] * n if n > 2 else c["slices"]
    nf = sum(c["slices"])
    c["nt"] = 2 * nf - 1 + draw(st.sampled_from((0, 2)))
    c["g"][0] = "int"
    m, d = zoo.space_B(c["nt"] * c["nr"] * c["nv"]), zoo.space_B(c["nt"] * c["ns"] * c["nv"])
    return leaf({"op": "mdd", "mdc": c}, m, d), m, d


def g_flow(draw, n):
    how = draw(st.sampled_from(("plain", "normal", "normal", "stacked", "stacked", "sources", "sources", "mdd")))
    if how == "sources":
        tree, m, d = draw_sources(draw, n)
    elif how == "mdd":
        tree, m, d = draw_mdd(draw, n)
    else:
        tree, m, d = draw_poststack(draw, n, how)
    c = {"how": how, "solver": "cg" if how == "normal" else "cgls", "tree": tree, "model": m, "data": d, "dtype": "float64",
         "y": gen.recipe(draw), "x0": gen.recipe(draw) if draw(st.booleans()) else None, "damp": 0.0,
         "wide": how == "mdd" and draw(st.booleans()), "only0": draw(st.booleans())}
    if how != "normal":
        c["damp"] = draw(st.sampled_from((0.0, 0.0, 1.0, -1.0)))
    return solve.finish(draw, c, False)


def s_flow(env, c):
    op = expr.make(env, c["tree"])
    x0 = expr.vector(env, c["model"], solve.guess(c).astype("complex128" if c["wide"] else "float64"))
    y = expr.vector(env, c["data"], solve.rhs(c))
    back = op.H @ y
    again = op @ back
    kw = {"niter": c["niter"], "tol": c["tol"]}
    if c["solver"] == "cgls":
        kw["damp"] = c["damp"]
    import ranks
    with ranks.printed():
        res = (env.pm.cg if c["solver"] == "cg" else env.pm.cgls)(op, y, x0, show=env.rank == 0 and c["only0"], **kw)
    out = solve.report(env, c, res)
    out["adjoint"], out["again"], out["fit"] = (expr.obs(env, v) for v in (back, again, op @ res[0]))
    return out


def j_flow(c, o):
    A = expr.dense(c["tree"])
    e = solve.expected(c, A)
    y = solve.rhs(c)
    back = A.T @ y
    top = max(1.0, float(np.max(np.abs(A.T) @ np.abs(y), initial=0.0)))
    x = np.asarray(e["x"][e["it"]]).astype("float64")
    big = max(1.0, float(np.max(np.abs(A).sum(axis=1), initial=0.0)))
    for r, v in enumerate(o.values()):
        t = core.first(expr.check("adjoint of the data", r, v["adjoint"], c["model"], back, c["n"], 1e-12, top),
                       expr.check("modelling of the adjoint", r, v["again"], c["data"], A @ back, c["n"], 1e-12, top * big))
        if t:
            return t
        t = solve.j_report(r, v, c, e)
        if t:
            return t
        t = expr.check("data of the solution", r, v["fit"], c["data"], A @ x, c["n"], e["tol"],
                       max(1.0, big * float(np.max(np.abs(x), initial=0.0))))
        if t:
            return t
    return None


EFFORT = 1.3
SUBS = [Sub("flow", g_flow, s_flow, j_flow, quick=500, thorough=15000, real=6, ranks=(1, 6),
            nontrivial=lambda c: c["n"] > 1 and c["niter"] > 0,
            label=lambda c: [c["how"], "damped" if c["damp"] else "undamped", "guess" if c["x0"] else "zero guess",
                             "tolerance" if c["tol"] else "no tolerance", f"iterations<={min(c['niter'], 4)}"])]
KNOWN = {}
