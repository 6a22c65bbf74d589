"""Distributed arrays described by a small dict, built on the ranks, and compared with their NumPy value."""
import numpy as np
from hypothesis import strategies as st

import core
import gen

PARTS = {"S": "SCATTER", "B": "BROADCAST", "U": "UNSAFE_BROADCAST"}
SIGNED = gen.FLOATS + ("int64", "int32")


def draw_desc(draw, n, dtypes=SIGNED, kinds="SSSBU", masks=True, special=False, shp=None, axis=None, hi=7, lo=0, ndim=None):
    kind = draw(st.sampled_from(kinds))
    shp = gen.shape(draw, ndim=ndim, hi=hi, lo=lo) if shp is None else shp
    d = {"n": n, "kind": kind, "shape": shp, "axis": 0, "parts": None, "mask": None,
         "dtype": draw(st.sampled_from(dtypes)), "fill": gen.recipe(draw, special, tiny=True)}
    if kind == "S":
        d["axis"], d["parts"] = gen.layout(draw, n, shp, axis)
    if masks:
        d["mask"] = gen.mask(draw, n)
    d["omit"] = draw(st.booleans())
    return d


def value(d, salt=0):
    return gen.fill(d["fill"], d["shape"], d["dtype"], salt)


def parts(d):
    return gen.parts_of(d, d["shape"][d["axis"]])


def local(d, g=None, salt=0):
    """What each rank holds."""
    g = value(d, salt) if g is None else g
    if d["kind"] != "S":
        return [g] * d["n"]
    return gen.cut(g, parts(d), d["axis"])


def build(env, d, salt=0, comm=None, g=None):
    """The array described by d, for every rank of comm."""
    D = env.pm.DistributedArray
    g = value(d, salt) if g is None else g
    comm = env.comm if comm is None else comm
    kw = dict(base_comm=comm, partition=env.P[PARTS[d["kind"]]], axis=d["axis"], mask=d["mask"])
    if d.get("omit"):  # what only says the default
        default = dict(base_comm=env.comm, partition=env.P.SCATTER, axis=0, mask=None)
        kw = {k: v for k, v in kw.items() if v is not default[k]}
    if d["parts"] is not None:
        kw["local_shapes"] = gen.local_shapes(d["shape"], d["axis"], d["parts"])
    return D.to_dist(g, **kw)


def snap(env, x, comm=None):
    """What can be observed of an array without communication."""
    comm = env.comm if comm is None else comm
    return {"local": np.array(x.local_array), "lshape": tuple(int(v) for v in x.local_shape),
            "gshape": tuple(int(v) for v in x.global_shape), "axis": x.axis, "kind": x.partition.name,
            "mask": None if x.mask is None else [int(v) for v in x.mask], "dtype": str(np.dtype(x.dtype)),
            "comm": x.base_comm is comm, "rank": x.rank, "size": x.size}


def check(what, s, d, loc, r, dtype=None, close=None):
    """The snapshot s of rank r against the description d and the values loc that its rank should hold.
    close: (tol, scale) instead of equality."""
    if close is not None:
        t = core.expect_close(f"rank {r}: {what}", s["local"], loc, *close)
    else:
        t = core.expect_same(f"rank {r}: {what}", s["local"], loc)
    if t:
        return t
    dt = np.dtype(d["dtype"] if dtype is None else dtype)
    for k, got, want in (("dtype of the values", s["local"].dtype, dt), ("dtype", np.dtype(s["dtype"]), dt),
                         ("local shape", s["lshape"], loc.shape), ("global shape", s["gshape"], tuple(d["shape"])),
                         ("axis", s["axis"], d["axis"]), ("partition", s["kind"], PARTS[d["kind"]]),
                         ("mask", s["mask"], d["mask"]), ("communicator", s["comm"], True),
                         ("rank", s["rank"], r), ("size", s["size"], d["n"])):
        if got != want:
            return f"rank {r}: {what}: {k} is {got}, expected {want}"
    return None


def labels(d):
    out = [PARTS[d["kind"]], f"ndim={len(d['shape'])}"]
    if d["kind"] == "S" and 0 in parts(d):
        out.append("empty rank")
    if d["mask"]:
        out.append("mask")
    return out


def size(d):
    return int(np.prod(d["shape"]))
