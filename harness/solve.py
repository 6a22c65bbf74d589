"""Linear problems for the solvers: drawn with their expected iterates, which come from the textbook algorithms on matrices."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import zoo

LD = {"float32": np.float64, "complex64": np.complex128, "float64": np.longdouble, "complex128": np.clongdouble}


# -- the algorithms --------------------------------------------------------------------------------------------------
def cg(A, y, x0, niter, dt):
    """x, ||r||^2 after every iteration (iterates and norms, starting with the guess)."""
    A, y, x = A.astype(dt), y.astype(dt), x0.astype(dt)
    r = y - A @ x
    c = r.copy()
    k = np.vdot(r, r).real
    xs, ks = [x], [k]
    for _ in range(niter):
        if not k > 0:
            break
        q = A @ c
        a = k / np.vdot(c, q).real
        x = x + a * c
        r = r - a * q
        k1 = np.vdot(r, r).real
        c = r + (k1 / k) * c
        k = k1
        xs.append(x)
        ks.append(k)
    return xs, ks, [np.sqrt(v) for v in ks], None


def cgls(A, y, x0, niter, dt, damp=0.0):
    """As cg, for min ||y - A x||^2 + damp^2 ||x||^2: norms of the gradient squared, of the residual, and of both terms."""
    A, y, x = A.astype(dt), y.astype(dt), x0.astype(dt)
    AH, d2 = A.conj().T, damp ** 2
    s = y - A @ x
    r = AH @ s - d2 * x
    c = r.copy()
    k = np.vdot(r, r).real

    def norms():
        n2 = np.vdot(s, s).real
        return np.sqrt(n2), np.sqrt(n2 + d2 * np.vdot(x, x).real)
    xs, ks, ns = [x], [k], [norms()]
    for _ in range(niter):
        if not k > 0:
            break
        q = A @ c
        den = np.vdot(q, q).real + d2 * np.vdot(c, c).real
        if not den > 0:
            break
        a = k / den
        x = x + a * c
        s = s - a * q
        r = AH @ s - d2 * x
        k1 = np.vdot(r, r).real
        c = r + (k1 / k) * c
        k = k1
        xs.append(x)
        ks.append(k)
        ns.append(norms())
    return xs, ks, [v[0] for v in ns], [v[1] for v in ns]


# -- problems --------------------------------------------------------------------------------------------------------
def eye_tree(space, dtype, n):
    if space["kind"] == "K":
        return {"t": "sbd", "ops": [eye_tree(s, dtype, n) for s in space["of"]]}

    def block(m):
        return {"k": "eye", "m": m, "n": m, "dtype": dtype, "fill": ["int", 0]}
    if space["kind"] == "S":
        leaf = {"op": "blockdiag", "blocks": [[block(p)] for p in space["parts"]]}
    else:
        leaf = {"op": "wrap", "block": block(space["size"])}
    return {"t": "leaf", "leaf": {**leaf, "dtype": dtype, "model": space, "data": space}}


def shifted(tree, space, dtype, n, a):
    """tree^H tree + a * identity."""
    return {"t": "add", "e": {"t": "prod", "e": {"t": "H", "e": tree}, "f": tree, "at": True},
            "f": {"t": "scale", "a": a, "left": True, "e": eye_tree(space, dtype, n)}}


def small(tree):
    """Keep the entries small: the problems should not be too ill-conditioned."""
    for leaf in expr.leaves(tree):
        for b in expr.blocks_of(leaf):
            b["fill"][0] = "int"
        if leaf.get("fill", ["ones"])[0] != "ones":
            leaf["fill"] = ["int", leaf["fill"][1]]
    return tree


def set_dtype(tree, dtype):
    if not expr.cplx(dtype):
        _real_scalars(tree)
    for leaf in expr.leaves(tree):
        leaf["dtype"] = dtype
        for b in expr.blocks_of(leaf):
            b["dtype"] = dtype
    return tree


def _real_scalars(t):
    if t["t"] == "scale" and np.iscomplexobj(expr.ALPHAS[t["a"]]):
        t["a"] = "-1.5"
    for k in "ef":
        if k in t:
            _real_scalars(t[k])
    for o in t.get("ops", ()):
        _real_scalars(o)


def draw_spd(draw, n, dtype, how=None):
    """A positive-definite tree and its space."""
    a = draw(st.sampled_from(("2", "f64", ".5")))
    how = how or draw(st.sampled_from(("leaf", "leaf", "tree", "sbd", "svs", "user", "long")))
    if how in ("long", "chain"):
        t, s, _ = (draw_long if how == "long" else draw_chain)(draw, n, dtype)
        return shifted(t, s, dtype, n, a), s
    if how == "user":
        s = zoo.space_S(gen.sizes(draw, n, draw(st.integers(1, 4 * n)))) if draw(st.booleans()) else zoo.draw_space(draw, n)
        t = {"t": "leaf", "leaf": {"op": "user", "dtype": dtype, "fill": gen.recipe(draw), "model": s, "data": s}}
        f = {"t": "prod", "e": {"t": "H", "e": t}, "f": t, "at": True}
        one = {"t": "leaf", "leaf": {"op": "user", "dtype": dtype, "fill": ["ones", 0], "model": s, "data": s}}
        return {"t": "add", "e": f, "f": one}, s
    if how == "sbd":
        K = expr.space_K([zoo.draw_space(draw, n, hi=3) for _ in range(draw(st.integers(1, 3)))])
        return {"t": "sbd", "ops": [shifted(leaf_tree(draw, n, s, zoo.draw_space(draw, n, hi=3), dtype), s, dtype, n, a)
                                    for s in K["of"]]}, K
    s = zoo.draw_space(draw, n, hi=3)
    if how == "svs":
        ops = [leaf_tree(draw, n, s, zoo.draw_space(draw, n, hi=3), dtype) for _ in range(draw(st.integers(1, 2)))]
        svs = {"t": "svs", "ops": ops + [eye_tree(s, dtype, n)]}
        return {"t": "prod", "e": {"t": "H", "e": svs}, "f": svs, "at": False}, s
    return shifted(leaf_tree(draw, n, s, zoo.draw_space(draw, n, hi=3), dtype, how == "tree"), s, dtype, n, a), s


def draw_long(draw, n, dtype):
    """A tree with a fair condition number and many different singular values, so that the solver goes on for long."""
    parts = gen.sizes(draw, n, draw(st.integers(12, 40)))
    times = draw(st.sampled_from((1, 2, 3, 4)))

    def block(p):
        k = "deriv" if times == 1 and p > 2 else "eye" if times == 1 else "mat"
        return {"k": k, "m": p * times, "n": p, "dtype": dtype, "fill": ["int", draw(st.integers(0, 99))]}
    s, d = zoo.space_S(parts), zoo.space_S([p * times for p in parts])
    return {"t": "leaf", "leaf": {"op": "blockdiag", "dtype": dtype, "blocks": [[block(p)] for p in parts], "model": s, "data": d}}, s, d


def draw_chain(draw, n, dtype):
    """A derivative: with data at one place only, every iteration gets one place further, with next to no rounding for very long."""
    rows = draw(st.sampled_from((130, 97, 40, 70))) + draw(st.integers(0, 6))
    s = zoo.space_S(gen.balanced(rows, n))
    return {"t": "leaf", "leaf": {"op": "first", "dims": [rows], "kind": draw(st.sampled_from(("forward", "backward"))), "order": 3, "edge": False,
                                  "samp": draw(st.sampled_from((0.0625, 0.25, 1.0))), "dtype": dtype, "model": s, "data": s, "omit": False}}, s, s


def leaf_tree(draw, n, model, data, dtype, deeper=False):
    return set_dtype(small(expr.draw_tree(draw, n, model, data, dtype, 1 if deeper else 0)), dtype)


def draw_ls(draw, n, dtype, how=None):
    """A tree, its model and data space."""
    how = how or draw(st.sampled_from(("leaf", "leaf", "tree", "sbd", "svs", "regularized", "H", "user", "long")))
    if how in ("long", "chain"):
        return (draw_long if how == "long" else draw_chain)(draw, n, dtype)
    if how == "user":
        s = zoo.space_S(gen.sizes(draw, n, draw(st.integers(1, 4 * n))))
        return {"t": "leaf", "leaf": {"op": "user", "dtype": dtype, "fill": gen.recipe(draw), "model": s, "data": s}}, s, s
    if how == "sbd":
        k = draw(st.integers(1, 3))
        m, d = ([zoo.draw_space(draw, n, hi=3) for _ in range(k)] for _ in range(2))
        return {"t": "sbd", "ops": [leaf_tree(draw, n, a, b, dtype) for a, b in zip(m, d)]}, expr.space_K(m), expr.space_K(d)
    m, d = zoo.draw_space(draw, n, hi=4), zoo.draw_space(draw, n, hi=5)
    if how in ("svs", "regularized"):
        ds = [d, zoo.draw_space(draw, n, hi=3)]
        ops = [leaf_tree(draw, n, m, q, dtype) for q in ds]
        if how == "regularized":
            ops[1], ds[1] = {"t": "scale", "a": "2", "left": True, "e": eye_tree(m, dtype, n)}, m
        return {"t": "svs", "ops": ops}, m, expr.space_K(ds)
    if how == "H":
        ds = [d, zoo.draw_space(draw, n, hi=3)]
        return {"t": "H", "e": {"t": "svs", "ops": [leaf_tree(draw, n, m, q, dtype) for q in ds]}}, expr.space_K(ds), m
    return leaf_tree(draw, n, m, d, dtype, how == "tree"), m, d


def reference(c, dt, niter=None, A=None, rows=None, cols=None):
    """(iterates, stopping values, costs, damped costs) of the problem in the given arithmetic."""
    A = expr.dense(c["tree"]) if A is None else A
    y, x0 = rhs(c), guess(c)
    if rows is not None:
        A, y, x0 = A[np.ix_(rows, cols)], y[rows], x0[cols]
    dt = np.result_type(dt, np.float32)
    niter = c["niter"] if niter is None else niter
    return cg(A, y, x0, niter, dt) if c["solver"] == "cg" else cgls(A, y, x0, niter, dt, c["damp"])


def rhs(c):
    return gen.fill(c["y"], (c["data"]["size"],), c["dtype"], 5)


def guess(c):
    if c["x0"] is None:
        return np.zeros(c["model"]["size"], dtype=c["dtype"])
    return gen.fill(c["x0"], (c["model"]["size"],), c["dtype"], 6)


def sensitivity(a, b):
    """How far rounding has moved every iterate and norm (two arithmetics)."""
    m = min(len(a[0]), len(b[0]))
    out = []
    for i in range(m):
        sx = max(1.0, float(np.max(np.abs(b[0][i]), initial=0.0)))
        d = float(np.max(np.abs(a[0][i] - b[0][i]), initial=0.0)) / sx
        for q in (2, 3):
            if b[q] is not None:
                d = max(d, float(abs(a[q][i] - b[q][i])) / max(1.0, float(b[q][0])))
        out.append(d)
    return out


def finish(draw, c, single, most=None):
    """Choose the number of iterations and the tolerance where rounding cannot change what is expected."""
    most = most or (3 if single else 30)
    A = expr.dense(c["tree"])
    work = np.float32 if single else np.float64
    if expr.cplx(c["dtype"]):
        work = np.complex64 if single else np.complex128
    lo, hi = reference(c, work, most, A), reference(c, LD[c["dtype"]], most, A)
    sens = np.maximum.accumulate(sensitivity(lo, hi))
    bad = 1e-4 if single else 1e-9
    floor = 1e-7 if single else 1e-20
    good = 0
    ended = False
    while good + 1 < len(sens) and sens[good + 1] < bad and not ended:
        good += 1
        ended = float(hi[1][good]) < floor * float(hi[1][0])  # converged: right, but what is left is noise
    exact = float(hi[1][0]) == 0
    c["niter"] = 3 if exact else draw(st.integers(min(1, good), good)) if draw(st.integers(0, 9)) else 0
    if most > 30 and not exact:
        c["niter"] = draw(st.sampled_from((good, good, max(0, good - 1), c["niter"])))
    ks = [float(v) for v in hi[1][:good + (not ended)]]
    c["tol"] = 0.0
    if good and draw(st.booleans()):
        i = draw(st.integers(0, len(ks) - 1))
        c["tol"] = ks[i] * draw(st.sampled_from((1.5, 1.1, 0.9, 0.5)))
        if any(abs(k / c["tol"] - 1) < 0.01 for k in ks):
            c["tol"] = 0.0
        # (the loop may go on to where nothing is known, but for the tolerance)
        elif any(k <= c["tol"] for k in ks) and draw(st.booleans()):
            c["niter"] = good + draw(st.integers(0, 20))
    return c


def draw_problem(draw, n, solver):
    single = draw(st.integers(0, 6)) == 0
    dtype = draw(st.sampled_from(("float32", "complex64") if single else gen.DOUBLES))
    far = not single and draw(st.integers(0, 14)) == 0
    if solver == "cg":
        tree, model = draw_spd(draw, n, dtype, "chain" if far else None)
        data = model
    else:
        tree, model, data = draw_ls(draw, n, dtype, "chain" if far else None)
    small(tree)
    c = {"solver": solver, "tree": tree, "model": model, "data": data, "dtype": dtype, "y": gen.recipe(draw),
         "x0": gen.recipe(draw) if draw(st.booleans()) else None, "damp": 0.0}
    if solver == "cgls":
        c["damp"] = draw(st.sampled_from((0.0, 0.0, 0.5, 1.0, 3.0, -0.5, -2.0)))
    if far:
        c["y"], c["x0"] = ["spot", draw(st.sampled_from((1, model["size"] - 2, 1, model["size"] // 2)))], None
    return finish(draw, c, single, 120 if far else None)


def expected(c, A=None, rows=None, cols=None):
    """What the solver is to return: iterations, iterates, costs, damped costs, stopping values, error allowed."""
    lo = reference(c, c["dtype"], None, A, rows, cols)
    hi = reference(c, LD[c["dtype"]], None, A, rows, cols)
    m = min(len(lo[0]), len(hi[0]))
    ks = [float(v) for v in hi[1][:m]]
    it = 0
    while it < min(c["niter"], m - 1) and ks[it] > c["tol"]:
        it += 1
    sens = sensitivity(lo, hi)
    single = np.dtype(c["dtype"]) in (np.float32, np.complex64)
    return {"it": it, "x": hi[0], "cost": [float(v) for v in hi[2]], "cost1": None if hi[3] is None else [float(v) for v in hi[3]],
            "ks": ks, "tol": (1e-4 if single else 1e-10) + 1000 * max(sens[:it + 1])}


# -- running and judging ---------------------------------------------------------------------------------------------
def setup(env, c, comm=None):
    return expr.make(env, c["tree"], comm), expr.vector(env, c["data"], rhs(c), comm), expr.vector(env, c["model"], guess(c), comm)


def keep(x):
    return [np.array(a.local_array) for a in expr.arrays(x)]


def kept(k, x):
    return all(core.same(a, b.local_array) for a, b in zip(k, expr.arrays(x)))


def report(env, c, res, comm=None):
    """A solver's return values."""
    if c["solver"] == "cg":
        x, it, cost = res
        return {"x": expr.obs(env, x, comm), "it": int(it), "cost": np.array(cost)}
    x, istop, it, r1, r2, cost = res
    return {"x": expr.obs(env, x, comm), "it": int(it), "cost": np.array(cost), "istop": int(istop), "r1": float(r1), "r2": float(r2)}


def scenario(env, c, comm=None):
    op, y, x0 = setup(env, c, comm)
    ky, kx = keep(y), keep(x0)
    kw = {"niter": c["niter"], "tol": c["tol"]}
    if c["solver"] == "cgls":
        kw["damp"] = c["damp"]
    res = (env.pm.cg if c["solver"] == "cg" else env.pm.cgls)(op, y, x0, **kw)
    out = report(env, c, res, comm)
    for a in expr.arrays(res[0]):
        if a.local_array.size:
            a.local_array[...] = 7
    out["kept"] = kept(ky, y) and kept(kx, x0)
    # the operator is still what it was
    out["again"] = expr.obs(env, op.matvec(x0), comm)
    return out


def j_report(r, v, c, e):
    it = e["it"]
    if v["it"] != it:
        return f"rank {r}: {v['it']} iterations, expected {it}"
    sc = max(1.0, float(np.max(np.abs(e["x"][it]), initial=0.0)))
    want = np.asarray(e["x"][it]).astype(np.complex128 if expr.cplx(c["dtype"]) else np.float64)
    t = expr.check(f"solution after {it} iterations", r, v["x"], c["model"], want, c["n"], e["tol"], sc)
    if t:
        return t
    return j_numbers(r, v, c, e)


def j_numbers(r, v, c, e):
    it = e["it"]
    top = max(1.0, e["cost"][0])
    t = core.expect_close(f"rank {r}: cost", v["cost"], np.array(e["cost"][:it + 1]), e["tol"], top)
    if t or c["solver"] == "cg":
        return t
    for k, w in (("r1", e["cost"][it]), ("r2", e["cost1"][it])):
        t = core.expect_close(f"rank {r}: {k}norm", v[k], w, e["tol"], max(top, e["cost1"][0]))
        if t:
            return t
    want = 1 if e["ks"][it] < c["tol"] else 2
    if v["istop"] != want:
        return f"rank {r}: status {v['istop']}, expected {want}"
    return None


def judge(c, o):
    A = expr.dense(c["tree"])
    e = expected(c, A)
    x0 = guess(c).astype(np.result_type(c["dtype"], np.float64))
    for r, v in enumerate(o.values()):
        t = j_report(r, v, c, e)
        if t:
            return t
        if not v["kept"]:
            return f"rank {r}: the data or the guess changed"
        t = core.expect_close(f"rank {r}: operator after solving", v["again"]["global"], A @ x0,
                              1e3 * core.eps_of(c["dtype"]), max(1.0, float(np.max(expr.bound(c["tree"]) @ np.abs(x0), initial=0.0))))
        if t:
            return t
    first = o.values()[0]
    for r, v in enumerate(o.values()):
        if not core.same(v["cost"], first["cost"]) or v["it"] != first["it"]:
            return f"rank {r}: its history is not bit for bit that of rank 0"
    return None


def labels(c):
    return [f"iterations<={next((str(k) for k in (0, 1, 2, 3, 8, 15, 30, 60) if c['niter'] <= k), 'more')}", "tolerance" if c["tol"] else "no tolerance", c["dtype"],
            "guess" if c["x0"] else "zero guess", "damped" if c["damp"] else "undamped",
            c["model"]["kind"] + c["data"]["kind"], c["tree"]["t"]]
