"""C36: what is made from GPU arrays are GPU arrays, what is made from CPU arrays are CPU arrays, of the same values."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import expr
import gen
import gpu
import solve
import zoo
from core import Sub
from props import c08, c20

RULE = ("arrays, stacks of them and operators of every kind (expressions included), and the solvers, on arrays of a stand-in for CuPy or "
        "of NumPy; chains of operations; non-trivial: more than one rank, GPU arrays")


def draw_engine(draw):
    return draw(st.sampled_from(("cupy", "cupy", "cupy", "numpy")))


def there(c, g):
    return gpu.on_device(g) if c["engine"] == "cupy" else g


def wrong(c, r, what, kinds):
    for k in kinds:
        if tuple(k) != (c["engine"],) * 2:
            return f"rank {r}: {what}: engine {k[0]} holding {k[1]} arrays, expected {c['engine']}"
    return None


# -- arrays ----------------------------------------------------------------------------------------------------------
OPS = ("neg", "add", "sub", "mul", "scale", "lscale", "conj", "copy", "zeros", "ravel", "iadd", "isub", "set", "fresh")


def g_arrays(draw, n):
    k = draw(st.sampled_from((0, 0, 1, 2)))
    ds = [arr.draw_desc(draw, n, dtypes=gen.FLOATS, kinds="SSSBU") for _ in range(max(1, k))]
    ops = draw(st.lists(st.sampled_from([o for o in OPS if k == 0 or o not in ("zeros", "ravel", "fresh")]), min_size=1, max_size=5))
    return {"of": ds, "stack": k > 0, "ops": ops, "engine": draw_engine(draw)}


def s_arrays(env, c):
    gpu.enable()

    def build(salt):
        xs = [arr.build(env, d, salt, g=there(c, arr.value(d, salt))) for d in c["of"]]
        return env.pm.StackedDistributedArray(xs, base_comm=env.comm) if c["stack"] else xs[0]
    x, y = build(0), build(1)
    out = [("made", [gpu.kind(a) for a in expr.arrays(x)])]
    for op in c["ops"]:
        if op == "ravel" and x.ndim == 1:
            continue
        if op == "fresh":
            d = c["of"][0]
            x = env.pm.DistributedArray(global_shape=x.global_shape, base_comm=env.comm, partition=x.partition, axis=x.axis,
                                        local_shapes=x.local_shapes, mask=x.mask, engine=c["engine"], dtype=d["dtype"])
            x[:] = 2
            y = y.ravel() if y.ndim > x.ndim else y
        elif op in ("iadd", "isub"):
            if op == "iadd":
                x += y
            else:
                x -= y
        elif op == "set":
            x[0 if c["stack"] else slice(None)] = 2
        elif op == "ravel":
            x, y = x.ravel(), y.ravel()
        else:
            x = {"neg": lambda: -x, "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "scale": lambda: x * 2,
                 "lscale": lambda: -1 * x, "conj": x.conj, "copy": x.copy, "zeros": getattr(x, "zeros_like", None)}[op]()
        out.append((op, [gpu.kind(a) for a in expr.arrays(x)]))
    return out, [np.array(a.local_array) for a in expr.arrays(x)], complex(x.dot(y)), float(x.norm())


def j_arrays(c, o):
    for r, (steps, got, dot, norm) in enumerate(o.values()):
        for what, kinds in steps:
            t = wrong(c, r, what, kinds)
            if t:
                return t
    # the values, member by member on the global arrays
    X, Y = ([arr.value(d, s) for d in c["of"]] for s in (0, 1))
    D = [dict(d) for d in c["of"]]
    for op in c["ops"]:
        for i, (x, y) in enumerate(zip(X, Y)):
            dt = x.dtype
            if op == "set" and i == 0 or op == "fresh":
                x = np.full_like(x, 2)
            elif op != "ravel":
                x = {"neg": lambda: -x, "add": lambda: x + y, "iadd": lambda: x + y, "sub": lambda: x - y, "isub": lambda: x - y,
                     "mul": lambda: x * y, "scale": lambda: x * 2, "lscale": lambda: -x, "conj": x.conj, "copy": x.copy,
                     "zeros": lambda: x * 0, "set": x.copy}[op]()
            X[i] = x.astype(dt)
    for r, (steps, got, dot, norm) in enumerate(o.values()):
        for d, x, a in zip(D, X, got):
            w = arr.local(d, x)[r]
            t = core.expect_close(f"rank {r}: values", a.ravel(), w.ravel(), 64 * core.eps_of(x.dtype))
            if t:
                return t
        if any(d["mask"] for d in D):
            continue
        fx, fy = (np.hstack([q.ravel() for q in v]).astype(complex) for v in (X, Y))
        eps = 64 * core.eps_of("float64", *[x.dtype for x in X])
        t = core.first(core.expect_close(f"rank {r}: dot product", dot, np.dot(fx, fy), eps, max(1.0, float(np.abs(fx) @ np.abs(fy)))),
                       core.expect_close(f"rank {r}: norm", norm, np.linalg.norm(fx), eps, max(1.0, float(np.linalg.norm(fx)))))
        if t:
            return t
    return None


# -- operators -------------------------------------------------------------------------------------------------------
def g_operators(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    how = draw(st.sampled_from(("tree", "tree", "stacked", "one", "mdc")))
    if how == "mdc":
        return {"how": how, "mdc": c20.g_mdc(draw, n), "engine": draw_engine(draw)}
    if how == "one":
        leaf = c08.draw_op(draw, n)
        tree, m, d, dt = {"t": "leaf", "leaf": leaf}, leaf["model"], leaf["data"], leaf["dtype"]
    elif how == "stacked":
        m, d = (expr.space_K([zoo.draw_space(draw, n) for _ in range(2)]) for _ in range(2))
        d = draw(st.sampled_from((d, zoo.draw_space(draw, n))))
        tree = expr.draw_stree(draw, n, m, d, dt, draw(st.integers(0, 2)))
    else:
        m, d = zoo.draw_space(draw, n), zoo.draw_space(draw, n)
        tree = expr.draw_tree(draw, n, m, d, dt, draw(st.integers(0, 2)))
    c = expr.draw_case(draw, n, tree, m, d, dt, dt)
    c.update(how=how, engine=draw_engine(draw))
    return c


def s_operators(env, c):
    gpu.enable()
    out = {}
    if c["how"] == "mdc":
        op = c20.make(env, c["mdc"])
        for which in "xv":
            x = env.pm.DistributedArray.to_dist(there(c, c20.vec(c["mdc"], which)), base_comm=env.comm, partition=env.P.BROADCAST)
            y = op.matvec(x) if which == "x" else op.rmatvec(x)
            out[which] = [gpu.kind(a) for a in (x, y)], np.array(y.asarray())
        return out
    op = expr.make(env, c["tree"])
    for which, space in (("x", c["model"]), ("v", c["data"])):
        x = expr.vector(env, space, there(c, expr.vec(c, which)))
        y = expr.call(op, x, c["call"]) if which == "x" else op.rmatvec(x)
        out[which] = [gpu.kind(a) for a in expr.arrays(x) + expr.arrays(y)], np.array(y.asarray())
    return out


def j_operators(c, o):
    if c["how"] == "mdc":
        want = {k: fun(c20.vec(c["mdc"], k)) for k, fun in zip("xv", c20.serial(c["mdc"]))}
        tol, sc = 256 * core.eps_of(c["mdc"]["dtype"]), {k: max(1.0, 10 * float(np.max(np.abs(v)))) for k, v in want.items()}
    else:
        A, B = expr.dense(c["tree"]), expr.bound(c["tree"])
        x, v = expr.vec(c, "x"), expr.vec(c, "v")
        want = {"x": A @ x, "v": A.conj().T @ v}
        tol = 64 * expr.eps(c["tree"], c["xdt"], c["vdt"]) * (2 + len(expr.nodes(c["tree"])))
        sc = {"x": max(1.0, float(np.max(B @ np.abs(x), initial=0.0))), "v": max(1.0, float(np.max(B.T @ np.abs(v), initial=0.0)))}
    for r, got in enumerate(o.values()):
        for k, what in (("x", "forward"), ("v", "adjoint")):
            kinds, y = got[k]
            t = core.first(wrong(c, r, what, kinds), core.expect_close(f"rank {r}: {what}", y, want[k], tol, sc[k]))
            if t:
                return t
    return None


# -- solvers ---------------------------------------------------------------------------------------------------------
def g_solve(draw, n):
    c = solve.draw_problem(draw, n, draw(st.sampled_from(("cg", "cgls"))))
    c["engine"] = draw_engine(draw)
    return c


def s_solve(env, c):
    gpu.enable()
    op = expr.make(env, c["tree"])
    y, x0 = (expr.vector(env, c[s], there(c, g)) for s, g in (("data", solve.rhs(c)), ("model", solve.guess(c))))
    kw = {"niter": c["niter"], "tol": c["tol"]}
    if c["solver"] == "cgls":
        kw["damp"] = c["damp"]
    res = (env.pm.cg if c["solver"] == "cg" else env.pm.cgls)(op, y, x0, **kw)
    out = solve.report(env, c, res)
    out["kinds"] = [gpu.kind(a) for a in expr.arrays(res[0])]
    return out


def j_solve(c, o):
    e = solve.expected(c)
    for r, v in enumerate(o.values()):
        t = core.first(wrong(c, r, "solution", v["kinds"]), solve.j_report(r, v, c, e))
        if t:
            return t
    return None


def trivial(c):
    return c["n"] > 1 and c["engine"] == "cupy"


SUBS = [Sub("arrays", g_arrays, s_arrays, j_arrays, quick=800, thorough=20000, real=5, nontrivial=trivial,
            label=lambda c: [c["engine"], "stack" if c["stack"] else "array"] + sorted(set(c["ops"]))),
        Sub("operators", g_operators, s_operators, j_operators, quick=600, thorough=15000, real=5, ranks=(1, 6), nontrivial=trivial,
            label=lambda c: [c["engine"], c["how"]] + ([] if c["how"] == "mdc" else sorted({l["op"] for l in expr.leaves(c["tree"])}))),
        Sub("solve", g_solve, s_solve, j_solve, quick=150, thorough=4000, real=3, ranks=(1, 6), nontrivial=trivial,
            label=lambda c: [c["engine"], c["solver"]])]
KNOWN = {}
