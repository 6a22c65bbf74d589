"""C02: replicated arrays hold rank 0's values on every rank; unsafely replicated and scattered ones keep each rank's own."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("kind of array, shape, dtype, and a sequence of assignments with per-rank values, for the non-broadcast kinds "
        "made by a subset of the ranks; non-trivial: more than one rank and at least one element")


def g_assign(draw, n):
    d = arr.draw_desc(draw, n, kinds="BBUS", masks=False, lo=1, dtypes=arr.SIGNED + ("bool",))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        how = draw(st.sampled_from(("all", "int", "slice", "scalar", "step", "ellipsis")))
        ops.append([how, draw(st.integers(0, 30)),
                    [draw(st.booleans()) for _ in range(n)] if d["kind"] != "B" and draw(st.booleans()) else None])
    return {"d": d, "ops": ops, "init": draw(st.sampled_from(("to_dist", "ctor")))}


def index(how, k, shp):
    """A local index, valid for every shape with at least one element along its first axis."""
    if how in ("all", "scalar"):
        return slice(None)
    if how == "ellipsis":
        return Ellipsis
    if how == "int":
        return k % shp[0]
    if how == "slice":
        return slice(k % shp[0], None)
    return slice(None, None, 1 + k % 3)


def new_value(d, i, r, lshape, op):
    """What rank r assigns in the i-th operation, for its local shape."""
    how, k, _ = op
    if how == "scalar":
        return gen.fill(d["fill"], (1,), d["dtype"], 1000 + 10 * i + r)[0]
    probe = np.empty(lshape, dtype=np.int8)[index(how, k, lshape)]
    return gen.fill(d["fill"], probe.shape, d["dtype"], 100 + 10 * i + r)


def s_assign(env, c):
    d = c["d"]
    D = env.pm.DistributedArray
    # every rank brings its own idea of the global array
    mine = gen.fill(d["fill"], d["shape"], d["dtype"], env.rank)
    ls = gen.local_shapes(d["shape"], d["axis"], d["parts"])
    part = env.P[arr.PARTS[d["kind"]]]
    if c["init"] == "to_dist":
        x = D.to_dist(mine, partition=part, axis=d["axis"], local_shapes=ls)
    else:
        x = D(tuple(d["shape"]), partition=part, axis=d["axis"], local_shapes=ls, dtype=d["dtype"])
        x[:] = mine if d["kind"] != "S" else gen.cut(mine, arr.parts(d), d["axis"])[env.rank]
    out = [arr.snap(env, x)]
    for i, op in enumerate(c["ops"]):
        if op[2] is not None and not op[2][env.rank]:
            out.append(arr.snap(env, x))  # this rank stays out of it
            continue
        if x.local_shape[0] == 0 and op[0] in ("int", "slice"):
            out.append(arr.snap(env, x))
            continue
        v = new_value(d, i, env.rank, x.local_shape, op)
        x[index(op[0], op[1], x.local_shape)] = v
        if isinstance(v, np.ndarray) and v.size:
            v[...] = np.zeros((), v.dtype)  # the array does not keep a reference to what it was given
        out.append(arr.snap(env, x))
    return out, x.asarray()


def j_assign(c, o):
    d, n = c["d"], c["n"]
    glob = [gen.fill(d["fill"], d["shape"], d["dtype"], r) for r in range(n)]
    cur = []
    for r in range(n):
        if d["kind"] == "S":
            cur.append(gen.cut(glob[r], arr.parts(d), d["axis"])[r].copy())
        else:
            cur.append(glob[0 if d["kind"] == "B" else r].copy())
    vals = o.values()
    for i in range(-1, len(c["ops"])):
        if i >= 0:
            op = c["ops"][i]
            for r in range(n):
                if op[2] is not None and not op[2][r]:
                    continue
                if cur[r].shape[0] == 0 and op[0] in ("int", "slice"):
                    continue
                src = 0 if d["kind"] == "B" else r
                cur[r][index(op[0], op[1], cur[r].shape)] = new_value(d, i, src, cur[r].shape, op)
        for r in range(n):
            t = arr.check(f"after step {i}", vals[r][0][i + 1], d, cur[r], r)
            if t:
                return t
    for r in range(n):
        want = np.concatenate(cur, axis=d["axis"]) if d["kind"] == "S" else cur[r]
        t = core.expect_same(f"rank {r}: global view", vals[r][1], want, d["dtype"])
        if t:
            return t
    return None


SUBS = [Sub("assign", g_assign, s_assign, j_assign, quick=3000, big=500, thorough=60000, real=10,
            nontrivial=lambda c: c["n"] > 1 and arr.size(c["d"]) > 0,
            label=lambda c: arr.labels(c["d"]) + (["some ranks only"] if any(op[2] for op in c["ops"]) else []))]
KNOWN = {}
