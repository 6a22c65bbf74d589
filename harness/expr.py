"""Operator expressions: typed trees over the operators of zoo.py, the matrix they stand for, and how to build them.

A tree maps vectors of one space to another.  Besides zoo's spaces there are stacks of them: {"kind": "K", "of": [...]}.
"""
import copy
import json

import numpy as np
from hypothesis import strategies as st

import core
import gen
import zoo

ALPHAS = {"2": 2, "-1": -1, "0": 0, ".5": 0.5, "-1.5": -1.5, "i": 1j, "1-2i": 1 - 2j, "f32": np.float32(0.25),
          "f64": np.float64(3.0), "c64": np.complex64(1 + 1j), "int64": np.int64(-3)}
ALPHA = st.sampled_from(sorted(ALPHAS))
STYLES = ("matvec", "dot", "mul", "matmul")


def space_K(of):
    return {"kind": "K", "of": of, "size": sum(s["size"] for s in of)}


def draw_dtype(draw, main):
    return draw(st.sampled_from((main, main, main) + gen.FLOATS))


# -- trees over plain operators --------------------------------------------------------------------------------------
def draw_tree(draw, n, model, data, dtype, depth, seen=None):
    """`seen` collects what was drawn so far, which may be used again (as the same object, if the case is built so)."""
    seen = [] if seen is None else seen
    old = [t for m, q, t in seen if m == model and q == data]
    if old and draw(st.integers(0, 2)) == 0:
        return copy.deepcopy(draw(st.sampled_from(old)))
    t = _draw_tree(draw, n, model, data, dtype, depth, seen)
    seen.append((model, data, t))
    return t


def _draw_tree(draw, n, model, data, dtype, depth, seen):
    forms = ["leaf"]
    if depth > 0:
        forms = ["leaf", "scale", "scale", "add", "add", "sub", "H", "T", "conj", "prod", "prod", "neg"]
        if model == data:
            forms += ["pow", "pow"]
    f = draw(st.sampled_from(forms))
    if f == "leaf":
        return {"t": "leaf", "leaf": zoo.draw_leaf(draw, n, model, data, draw_dtype(draw, dtype))}
    d = depth - 1
    if f == "scale":
        return {"t": f, "a": draw(ALPHA), "left": draw(st.booleans()), "e": draw_tree(draw, n, model, data, dtype, d, seen)}
    if f in ("neg", "conj"):
        return {"t": f, "e": draw_tree(draw, n, model, data, dtype, d, seen)}
    if f in ("H", "T"):
        return {"t": f, "e": draw_tree(draw, n, data, model, dtype, d, seen)}
    if f in ("add", "sub"):
        return {"t": f, "e": draw_tree(draw, n, model, data, dtype, d, seen), "f": draw_tree(draw, n, model, data, dtype, d, seen)}
    if f == "prod":
        mid = draw(st.sampled_from(("model", "data", "new")))
        mid = {"model": model, "data": data}.get(mid) or zoo.draw_space(draw, n)
        return {"t": f, "e": draw_tree(draw, n, mid, data, dtype, d, seen), "f": draw_tree(draw, n, model, mid, dtype, d, seen),
                "at": draw(st.booleans())}
    return power(draw, draw_tree(draw, n, model, data, dtype, min(d, 1), seen))


def power(draw, e):
    """A power of a tree; above the third only of those that hold no product or power (whose numbers would grow too much)."""
    flat = not any(w in json.dumps(e) for w in ('"prod"', '"pow"'))
    return {"t": "pow", "p": draw(st.sampled_from((0, 1, 2, 3, 4, 5, 6, 7) if flat else (0, 1, 2, 3))), "e": e}


def draw_chain(draw, n, model, data, base, most=6):
    """Several scalings, adjoints, transposes, conjugates and small powers of what base(model, data) draws, one upon the other."""
    steps = draw(st.lists(st.sampled_from(("scale", "scale", "neg", "conj", "H", "T") + (("pow",) if model == data else ())),
                          min_size=2, max_size=most))
    turned = sum(f in "HT" for f in steps) % 2
    return upon(draw, base(data, model) if turned else base(model, data), steps)


def upon(draw, t, steps):
    for f in steps:
        t = {"t": f, "e": t}
        if f == "scale":
            t.update(a=draw(ALPHA), left=draw(st.booleans()))
        if f == "pow":
            t["p"] = draw(st.integers(0, 2)) if steps.count("pow") <= 2 else 1
    return t


# -- trees over stacked operators ------------------------------------------------------------------------------------
def draw_stree(draw, n, model, data, dtype, depth, inner=1):
    """A stacked operator; from plain to plain spaces only as a product."""
    k = ("K" if model["kind"] == "K" else "p") + ("K" if data["kind"] == "K" else "p")
    can_leaf = k != "pp" and not (k == "KK" and len(model["of"]) != len(data["of"]))
    forms = ["leaf"] if can_leaf else ["prod"]
    if depth > 0 and can_leaf:
        forms = ["leaf", "scale", "scale", "add", "sub", "H", "T", "conj", "prod", "prod", "neg"]
    elif depth > 0:
        forms = ["prod", "prod", "scale", "neg", "conj", "add"]
    if depth > 0 and model == data:
        forms += ["pow"]
    f = draw(st.sampled_from(forms))
    d = depth - 1
    if f == "leaf":
        seen = []
        if k == "KK":
            return {"t": "sbd", "ops": [draw_tree(draw, n, m, q, dtype, draw(st.integers(0, inner)), seen)
                                        for m, q in zip(model["of"], data["of"])]}
        if k == "pK":
            return {"t": "svs", "ops": [draw_tree(draw, n, model, q, dtype, draw(st.integers(0, inner)), seen)
                                        for q in data["of"]]}
        return {"t": draw(st.sampled_from("HT")), "e": draw_stree(draw, n, data, model, dtype, 0, inner)}
    if f == "scale":
        return {"t": f, "a": draw(ALPHA), "left": draw(st.booleans()), "e": draw_stree(draw, n, model, data, dtype, d, inner)}
    if f in ("neg", "conj"):
        return {"t": f, "e": draw_stree(draw, n, model, data, dtype, d, inner)}
    if f in ("H", "T"):
        return {"t": f, "e": draw_stree(draw, n, data, model, dtype, d, inner)}
    if f in ("add", "sub"):
        e = draw_stree(draw, n, model, data, dtype, min(d, 1), inner)
        other = reseed(copy.deepcopy(e), draw(st.integers(0, 99)))
        if draw(st.booleans()):
            other = {"t": "scale", "a": draw(ALPHA), "left": True, "e": other}
        return {"t": f, "e": e, "f": other}
    if f == "prod":
        if k == "pp":
            mid = space_K([zoo.draw_space(draw, n) for _ in range(draw(st.integers(1, 3)))])
        else:
            mid = draw(st.sampled_from([s for s in (model, data) if s["kind"] == "K"]))
            if k == "KK" and draw(st.booleans()):
                mid = zoo.draw_space(draw, n)
        d = max(d, 0) if k != "pp" else max(0, min(d, 1))
        return {"t": f, "e": draw_stree(draw, n, mid, data, dtype, d, inner),
                "f": draw_stree(draw, n, model, mid, dtype, d, inner), "at": draw(st.booleans())}
    return power(draw, draw_stree(draw, n, model, data, dtype, min(d, 1), inner))


def reseed(t, k):
    """The same tree with other numbers in it."""
    for leaf in leaves(t):
        for b in blocks_of(leaf):
            b["fill"] = [b["fill"][0], (b["fill"][1] + k) % 1000]
        if "fill" in leaf:
            leaf["fill"] = [leaf["fill"][0], (leaf["fill"][1] + k) % 1000]
    return t


def leaves(t):
    if t["t"] == "leaf":
        return [t["leaf"]]
    return [x for k in ("e", "f") if k in t for x in leaves(t[k])] + [x for o in t.get("ops", ()) for x in leaves(o)]


def blocks_of(leaf):
    return [b for bs in leaf.get("blocks", ()) for b in bs] + ([leaf["block"]] if "block" in leaf else [])


def nodes(t):
    return [t["t"]] + [x for k in ("e", "f") if k in t for x in nodes(t[k])] + [x for o in t.get("ops", ()) for x in nodes(o)]


def depth(t):
    return 1 + max([depth(t[k]) for k in ("e", "f") if k in t] + [depth(o) for o in t.get("ops", ())], default=0)


# -- dtypes ----------------------------------------------------------------------------------------------------------
def cplx(dt):
    return np.dtype(dt).kind == "c"


def settle(t, xdt, vdt):
    """Make the real operators that would be given a complex vector complex."""
    while _flow(t, cplx(xdt), False)[1] or _flow(t, cplx(vdt), True)[1]:
        pass


def _flow(t, c, adj):
    """Whether the result is complex, and whether some leaf was changed."""
    k = t["t"]
    if k == "leaf":
        leaf = t["leaf"]
        if c and not cplx(leaf["dtype"]):
            to = {"float32": "complex64", "float64": "complex128"}
            leaf["dtype"] = to[leaf["dtype"]]
            for b in blocks_of(leaf):
                b["dtype"] = to[b["dtype"]]
            return True, True
        return cplx(leaf["dtype"]), False
    if k in ("sbd", "svs"):
        r = [_flow(o, c, adj) for o in t["ops"]]
        return any(a for a, _ in r), any(b for _, b in r)
    if k in ("H", "T"):
        return _flow(t["e"], c, not adj)
    if k in ("neg", "conj"):
        return _flow(t["e"], c, adj)
    if k == "scale":
        a, b = _flow(t["e"], c, adj)
        return a or cplx(np.asarray(ALPHAS[t["a"]]).dtype), b
    if k in ("add", "sub"):
        r = [_flow(t[q], c, adj) for q in "ef"]
        return any(a for a, _ in r), any(b for _, b in r)
    if k == "prod":
        a, b = _flow(t["e" if adj else "f"], c, adj)
        a2, b2 = _flow(t["f" if adj else "e"], a, adj)
        return a2, b or b2
    ch = False
    for _ in range(t["p"]):
        c, b = _flow(t["e"], c, adj)
        ch = ch or b
    return c, ch


def is_complex(t):
    """Whether the operator itself (not just the vectors given to it) is complex."""
    if t["t"] == "scale" and cplx(np.asarray(ALPHAS[t["a"]]).dtype):
        return True
    if t["t"] == "leaf":
        return cplx(t["leaf"]["dtype"])
    return any(is_complex(t[k]) for k in ("e", "f") if k in t) or any(is_complex(o) for o in t.get("ops", ()))


def eps(t, *dts):
    return core.eps_of(*[l["dtype"] for l in leaves(t)], *dts,
                       *(["float32"] if any(a in ("f32", "c64") for a in alphas(t)) else []))


def alphas(t):
    return ([t["a"]] if t["t"] == "scale" else []) + [x for k in ("e", "f") if k in t for x in alphas(t[k])] + [
        x for o in t.get("ops", ()) for x in alphas(o)]


# -- meaning ---------------------------------------------------------------------------------------------------------
def dense(t):
    return _mean(t, zoo.leaf_dense, lambda a: a)


def bound(t):
    """Entrywise bound on the size of all terms summed up."""
    return _mean(t, lambda l: np.abs(zoo.leaf_dense(l)), np.abs)


def _mean(t, leaf, num):
    k = t["t"]
    if k == "leaf":
        return leaf(t["leaf"]).astype(np.result_type(leaf(t["leaf"]).dtype, np.float64))
    if k == "sbd":
        return zoo.block_diag([_mean(o, leaf, num) for o in t["ops"]])
    if k == "svs":
        return np.vstack([_mean(o, leaf, num) for o in t["ops"]])
    e = _mean(t["e"], leaf, num)
    if k == "scale":
        return num(ALPHAS[t["a"]]) * e
    if k == "neg":
        return num(-1) * e
    if k == "conj":
        return e.conj()
    if k == "H":
        return e.conj().T
    if k == "T":
        return e.T
    if k == "pow":
        return np.linalg.matrix_power(e, t["p"])
    f = _mean(t["f"], leaf, num)
    if k == "add":
        return e + f
    if k == "sub":
        return e + num(-1) * f
    return e @ f


def make(env, t, comm=None, shared=None):
    """The operator a tree stands for; equal subtrees are one object, unless `shared` is False."""
    if shared is False:
        return _make(env, t, comm, False)
    shared = {} if shared is None else shared
    key = core.canon(t)
    if key not in shared:
        shared[key] = _make(env, t, comm, shared)
    return shared[key]


def _make(env, t, comm, shared):
    k = t["t"]
    cm = env.comm if comm is None else comm
    if k == "leaf":
        return zoo.leaf_make(env, t["leaf"], comm)
    if k == "sbd":
        return env.pm.MPIStackedBlockDiag([make(env, o, comm, shared) for o in t["ops"]], base_comm=cm)
    if k == "svs":
        return env.pm.MPIStackedVStack([make(env, o, comm, shared) for o in t["ops"]], base_comm=cm)
    e = make(env, t["e"], comm, shared)
    if k == "scale":
        a = ALPHAS[t["a"]]
        return a * e if t["left"] and type(a) in (int, float, complex) else e * a
    if k == "neg":
        return -e
    if k == "conj":
        return e.conj()
    if k == "H":
        return e.H
    if k == "T":
        return e.T
    if k == "pow":
        return e ** t["p"]
    f = make(env, t["f"], comm, shared)
    if k == "add":
        return e + f
    if k == "sub":
        return e - f
    return e @ f if t["at"] else e * f


# -- vectors ---------------------------------------------------------------------------------------------------------
def members(space):
    return space["of"] if space["kind"] == "K" else [space]


def split(space, g):
    return gen.cut(g, [s["size"] for s in members(space)])


def vector(env, space, g, comm=None, parts=None):
    if space["kind"] != "K":
        return zoo.vector(env, space, g, comm, parts)
    return env.pm.StackedDistributedArray([zoo.vector(env, s, p, comm) for s, p in zip(space["of"], split(space, g))],
                                          base_comm=env.comm if comm is None else comm)


def arrays(x):
    return list(x.distarrays) if hasattr(x, "distarrays") else [x]


def obs(env, y, comm=None):
    return {"stack": hasattr(y, "distarrays"), "comm": y.base_comm is (env.comm if comm is None else comm),
            "of": [zoo.obs(env, a, comm) for a in arrays(y)], "global": np.array(y.asarray())}


def check(what, r, s, space, want, n, tol, sc):
    if s["stack"] != (space["kind"] == "K"):
        return f"rank {r}: {what}: the result is {'' if s['stack'] else 'not '}a stack"
    if not s["comm"]:
        return f"rank {r}: {what}: the result has another communicator"
    if len(s["of"]) != len(members(space)):
        return f"rank {r}: {what}: {len(s['of'])} arrays instead of {len(members(space))}"
    t = core.expect_close(f"rank {r}: {what}: global view", s["global"], want, tol, sc)
    if t:
        return t
    for i, (a, sp, w) in enumerate(zip(s["of"], members(space), split(space, want))):
        t = zoo.check(f"{what}: array {i}", r, a, sp, w, n, tol, sc)
        if t:
            return t
    return None


# -- the check -------------------------------------------------------------------------------------------------------
def draw_case(draw, n, tree, model, data, xdt, vdt):
    settle(tree, xdt, vdt)
    return {"tree": tree, "model": model, "data": data, "x": gen.recipe(draw, tiny=True), "v": gen.recipe(draw, tiny=True), "xdt": xdt, "vdt": vdt,
            "share": draw(st.booleans()), "call": draw(st.sampled_from(STYLES)), "adj": draw(st.sampled_from(("rmatvec", "H")))}


def vec(c, which):
    s, rec, dt = (c["model"], c["x"], c["xdt"]) if which == "x" else (c["data"], c["v"], c["vdt"])
    return gen.fill(rec, (s["size"],), dt, 1 if which == "x" else 2)


def moved(x):
    """What a vector holds when it has been changed in place."""
    return (3 - 2 * x).astype(x.dtype)


def call(op, x, how):
    return {"matvec": lambda: op.matvec(x), "dot": lambda: op.dot(x), "mul": lambda: op * x, "matmul": lambda: op @ x}[how]()


def scenario(env, c, comm=None):
    op = make(env, c["tree"], comm, c.get("share", True) and None)
    out = {"shape": tuple(int(s) for s in op.shape), "dtype": str(np.dtype(op.dtype)),
           "comm": op.base_comm is (env.comm if comm is None else comm)}
    for which, space in (("x", c["model"]), ("v", c["data"])):
        x = vector(env, space, vec(c, which), comm, c.get(which + "parts"))
        keep = [np.array(a.local_array) for a in arrays(x)]
        def go():
            if which == "x":
                return call(op, x, c["call"])
            return op.rmatvec(x) if c["adj"] == "rmatvec" else call(op.H, x, c["call"])
        y = go()
        out[which] = obs(env, y, comm)
        out[which]["kept"] = all(core.same(k, a.local_array) for k, a in zip(keep, arrays(x)))
        # the same vector, changed in place, and what came out before
        was = [np.array(a.local_array) for a in arrays(y)]
        for a, k in zip(arrays(x), keep):
            a[:] = moved(k)
        out[which]["later"] = np.array(go().asarray())
        out[which]["stays"] = all(core.same(k, a.local_array) for k, a in zip(was, arrays(y)))
        keep = [np.array(a.local_array) for a in arrays(x)]
        for a in arrays(y):
            if a.local_array.size:
                a.local_array[...] = 0
        out[which]["apart"] = all(core.same(k, a.local_array) for k, a in zip(keep, arrays(x)))
    return out


def judge(c, o):
    A, B = dense(c["tree"]), bound(c["tree"])
    want_shape = (c["data"]["size"], c["model"]["size"])
    assert A.shape == want_shape, (A.shape, want_shape)
    real = not is_complex(c["tree"])
    tol = 64 * eps(c["tree"], c["xdt"], c["vdt"]) * (2 + len(nodes(c["tree"])))
    for which, (M, Q, space) in (("x", (A, B, c["data"])), ("v", (A.conj().T, B.T, c["model"]))):
        x = vec(c, which)
        y, sc = M @ x, max(core.TINY, float(np.max(Q @ np.abs(x), initial=0.0)))
        y2, sc2 = M @ moved(x), max(core.TINY, float(np.max(Q @ np.abs(moved(x)), initial=0.0)))
        for r, s in enumerate(o.values()):
            if s["shape"] != want_shape:
                return f"rank {r}: operator shape {s['shape']}, expected {want_shape}"
            if (np.dtype(s["dtype"]).kind == "c") != (not real):
                return f"rank {r}: operator dtype {s['dtype']} for a {'real' if real else 'complex'} operator"
            if not s["comm"]:
                return f"rank {r}: operator has another communicator"
            what = "forward" if which == "x" else "adjoint"
            t = check(what, r, s[which], space, y, c["n"], tol, sc)
            if t:
                return t
            if not s[which]["kept"] or not s[which]["apart"]:
                return f"rank {r}: {what}: the operand changed or shares memory with the result"
            if not s[which]["stays"]:
                return f"rank {r}: {what}: the result changed when the operator was applied again"
            t = core.expect_close(f"rank {r}: {what}: applied to the same vector, changed in place", s[which]["later"], y2, tol, sc2)
            if t:
                return t
    return None


def labels(c):
    ns = nodes(c["tree"])
    return sorted(set(ns)) + [f"depth={depth(c['tree'])}", "complex" if is_complex(c["tree"]) else "real"] + sorted(
        {l["op"] for l in leaves(c["tree"])})
