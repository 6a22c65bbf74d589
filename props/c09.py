"""C09: a stacked array behaves as the vector of its members one after another."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("1-4 members of any kind, shape, layout and dtype; a sequence of 1-5 operations; non-trivial: more than one rank, "
        "at least two members and one element")

ORDS = (None, 0, 1, 2, 3, "inf", "-inf", 0.5, 2.5, -1)


def g_stack(draw, n):
    k = draw(st.integers(1, 4))
    same = draw(st.booleans())
    dt = draw(st.sampled_from(arr.SIGNED))
    ms = []
    for _ in range(k):
        m = arr.draw_desc(draw, n, kinds="SSBU", masks=False, hi=5, lo=1 if draw(st.booleans()) else 0,
                          dtypes=(dt,) if same else gen.FLOATS)
        if arr.size(m) == 0:
            m["shape"] = [max(1, s) for s in m["shape"]]
            m["parts"] = None
        ms.append(m)
    ops = draw(st.lists(st.sampled_from(("add", "sub", "iadd", "isub", "mul", "rscale", "lscale", "iscale", "neg", "conj",
                                         "copy", "set", "dot", "norm")), min_size=1, max_size=5))
    return {"m": ms, "fill2": gen.recipe(draw, tiny=True), "ops": [[o, draw(st.integers(0, 20))] for o in ops]}


def second(c):
    return [dict(m, fill=c["fill2"]) for m in c["m"]]


SC = (2, -1, 0.5, 3.0, 0)


def s_stack(env, c):
    S = env.pm.StackedDistributedArray
    xs = [arr.build(env, m, i) for i, m in enumerate(c["m"])]
    x = S(xs)
    y = S([arr.build(env, m, 20 + i) for i, m in enumerate(second(c))])
    out = [("members", all(x[i] is xs[i] for i in range(len(xs))) and x.narrays == len(xs), x.rank, x.size),
           ("asarray", x.asarray())]
    for op, k in c["ops"]:
        old = x
        before = [q.local_array.copy() for q in x.distarrays]
        inplace = False
        if op == "add":
            x = x + y
        elif op == "sub":
            x = x - y
        elif op == "iadd":
            x += y
            inplace = True
        elif op == "isub":
            x -= y
            inplace = True
        elif op == "mul":
            x = x * y
        elif op == "rscale":
            x = x * SC[k % 5]
        elif op == "lscale":
            x = SC[k % 5] * x
        elif op == "iscale":
            x *= SC[k % 5]
        elif op == "neg":
            x = -x
        elif op in ("conj", "copy"):
            x = getattr(x, op)()
        elif op == "set":
            i = k % x.narrays
            x[i] = SC[k % 5]
            inplace = True
        elif op == "dot":
            out.append(("dot", np.array(x.dot(y)), np.array(y.dot(x))))
            inplace = True
        else:
            o = {"inf": np.inf, "-inf": -np.inf}.get(ORDS[k % len(ORDS)], ORDS[k % len(ORDS)])
            out.append(("norm", np.array(x.norm() if o is None else x.norm(o))))
            inplace = True
        out.append(("state", [arr.snap(env, q) for q in x.distarrays], x.base_comm is env.comm, x is old,
                    inplace or all(core.same(p, q.local_array) for p, q in zip(before, old.distarrays)),
                    inplace or not any(np.shares_memory(p.local_array, q.local_array)
                                       for p, q in zip(x.distarrays, old.distarrays)), x.asarray()))
    out.append(("other", [q.local_array.copy() for q in y.distarrays]))
    return out


def j_stack(c, o):
    X = [arr.value(m, i) for i, m in enumerate(c["m"])]
    Y = [arr.value(m, 20 + i) for i, m in enumerate(second(c))]
    D = [dict(m) for m in c["m"]]
    vals = o.values()
    for r, v in enumerate(vals):
        if v[0] != ("members", True, r, c["n"]):
            return f"rank {r}: members, rank or size of the stack: {v[0]}"
    pos = 1
    glob = np.hstack([x.ravel() for x in X])
    for r, v in enumerate(vals):
        t = core.expect_same(f"rank {r}: global view", v[pos][1], glob, glob.dtype)
        if t:
            return t
    pos = 2
    for op, k in c["ops"]:
        inplace = False
        fx, fy = np.hstack([x.ravel() for x in X]), np.hstack([y.ravel() for y in Y])
        eps = core.eps_of("float64", *[x.dtype for x in X + Y])
        if op in ("dot", "norm"):
            for r, v in enumerate(vals):
                if op == "dot":
                    sc = max(core.TINY, float(np.sum(np.abs(fx) * np.abs(fy))))
                    t = core.first(core.expect_close(f"rank {r}: dot product", v[pos][1], np.dot(fx, fy), 32 * eps, sc),
                                   core.expect_close(f"rank {r}: dot product", v[pos][2], np.dot(fx, fy), 32 * eps, sc))
                else:
                    o_ = {"inf": np.inf, "-inf": -np.inf}.get(ORDS[k % len(ORDS)], ORDS[k % len(ORDS)])
                    fc = fx.astype(complex)
                    with np.errstate(all="ignore"):
                        t = core.expect_close(f"rank {r}: norm {o_}", v[pos][1], np.linalg.norm(fc, o_), 128 * eps)
                if not t and not core.same(v[pos][1], vals[0][pos][1]):
                    t = f"{op} differs between ranks 0 and {r}"
                if t:
                    return t
            pos += 1
        elif op in ("add", "sub", "mul"):
            X = [{"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]() for x, y in zip(X, Y)]
        elif op in ("iadd", "isub"):
            X = [(x + y if op == "iadd" else x - y).astype(x.dtype) for x, y in zip(X, Y)]
            inplace = True
        elif op in ("rscale", "lscale", "iscale"):
            X = [x * SC[k % 5] for x in X]
        elif op == "neg":
            X = [-x for x in X]
        elif op == "conj":
            X = [x.conj() for x in X]
        elif op == "set":
            X[k % len(X)] = np.full_like(X[k % len(X)], SC[k % 5])
            inplace = True
        glob = np.hstack([x.ravel() for x in X])
        locs = [arr.local(d, x) for d, x in zip(D, X)]
        for r, v in enumerate(vals):
            _, snaps, comm, same_obj, kept, apart, g = v[pos]
            for i, s in enumerate(snaps):
                t = arr.check(f"member {i} after {op}", s, D[i], locs[i][r], r, X[i].dtype)
                if t:
                    return t
            t = core.expect_same(f"rank {r}: global view after {op}", g, glob, glob.dtype)
            if t:
                return t
            if op in ("iadd", "isub") and not same_obj:
                return f"rank {r}: {op} did not return its left operand"
            if not (comm and kept and apart):
                return (f"rank {r}: {op}: " + ("the result has another communicator" if not comm else
                                               "the operand changed" if not kept else "the result shares memory with the operand"))
        pos += 1
    for r, v in enumerate(vals):
        for i, q in enumerate(v[pos][1]):
            t = core.expect_same(f"rank {r}: member {i} of the right operand afterwards", q, arr.local(second(c)[i], Y[i])[r])
            if t:
                return t
    return None


def g_refuse(draw, n):
    ms = [arr.draw_desc(draw, n, kinds="SB", masks=False, hi=4, lo=1, dtypes=("float64",)) for _ in range(draw(st.integers(1, 3)))]
    other = [dict(m) for m in ms]
    how = draw(st.sampled_from(("more", "fewer", "shape", "kind", "same")))
    i = draw(st.integers(0, len(ms) - 1))
    if how == "more":
        other.append(dict(ms[i]))
    elif how == "fewer":
        other.pop(i)
    elif how == "shape":
        m = other[i]
        m["shape"] = [s + (j == m["axis"]) for j, s in enumerate(m["shape"])]
        if m["parts"]:
            m["parts"] = [p + (r == 0) for r, p in enumerate(m["parts"])]
    elif how == "kind":
        m = other[i]
        if m["kind"] == "B":
            m.update(kind="S", parts=None)
        else:
            m.update(kind="B", axis=0, parts=None)
    return {"m": ms, "o": other, "how": how, "op": draw(st.sampled_from(("add", "sub", "iadd", "isub", "mul", "dot")))}


def s_refuse(env, c):
    S = env.pm.StackedDistributedArray
    x = S([arr.build(env, m, i) for i, m in enumerate(c["m"])])
    y = S([arr.build(env, m, i) for i, m in enumerate(c["o"])])
    try:
        if c["op"] == "add":
            x + y
        elif c["op"] == "sub":
            x - y
        elif c["op"] == "iadd":
            x += y
        elif c["op"] == "isub":
            x -= y
        elif c["op"] == "mul":
            x * y
        else:
            x.dot(y)
    except ValueError:
        return "refused", x[0].copy().asarray().shape
    return "done", x[0].asarray().shape


def j_refuse(c, o):
    want = "done" if c["how"] == "same" else "refused"
    for r, v in enumerate(o.values()):
        if v[0] != want or tuple(v[1]) != tuple(c["m"][0]["shape"]):
            return f"rank {r}: {c['op']} of stacks that differ ({c['how']}): {v}, expected {want}"
    return None


SUBS = [Sub("sequence", g_stack, s_stack, j_stack, quick=1500, big=500, thorough=40000, real=8,
            nontrivial=lambda c: c["n"] > 1 and len(c["m"]) > 1,
            label=lambda c: [f"members={len(c['m'])}"] + sorted({o[0] for o in c["ops"]})),
        Sub("refused", g_refuse, s_refuse, j_refuse, quick=500, thorough=6000, real=4, nontrivial=lambda c: c["how"] != "same",
            label=lambda c: [c["how"], c["op"]])]
KNOWN = {}
