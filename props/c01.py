"""C01: a global array given to the library comes back unchanged, whatever the layout, and the layout is as asked for."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
from core import Sub

RULE = ("shape (1-5 dims, zero extents included, given as tuple, list, integer or NumPy integers), axis, dtype, rank count 1-8, partition, explicit or default local "
        "shapes, mask; non-trivial: more than one rank and at least one element")

DTYPES = gen.FLOATS + ("int64", "int32", "bool", "uint8")


def g_scatter(draw, n):
    shp = gen.shape(draw, hi=9)
    ax, parts = gen.layout(draw, n, shp)
    return {"shape": shp, "axis": ax, "parts": parts, "dtype": draw(st.sampled_from(DTYPES)),
            "fill": gen.recipe(draw, special=True), "mask": gen.mask(draw, n),
            "how": draw(st.sampled_from(("to_dist", "ctor", "order") if shp[ax] < 200 else ("to_dist", "ctor"))), "F": draw(st.booleans()),
            "form": draw(st.sampled_from(("tuple", "tuple", "list", "np") + ("int",) * (len(shp) == 1)))}


FORMS = {"tuple": tuple, "list": list, "np": lambda s: tuple(np.int64(v) for v in s), "int": lambda s: int(s[0])}


def s_scatter(env, c):
    D, P = env.pm.DistributedArray, env.P
    g = gen.fill(c["fill"], c["shape"], c["dtype"])
    if c["F"]:
        g = np.asfortranarray(g)
    keep = g.copy()
    ls = gen.local_shapes(c["shape"], c["axis"], c["parts"])
    form = FORMS[c["form"]]
    if ls is not None:
        ls = [form(s) for s in ls]
    if c["how"] == "to_dist":
        d = D.to_dist(g, axis=c["axis"], local_shapes=ls, mask=c["mask"])
    else:
        parts = gen.parts_of(c, c["shape"][c["axis"]])
        d = D(form(c["shape"]), axis=c["axis"], local_shapes=ls, mask=c["mask"], dtype=c["dtype"],
              partition=P.SCATTER)
        mine = gen.cut(g, parts, c["axis"])[env.rank]
        if c["how"] == "ctor":
            d[:] = mine
        else:  # element by element along the axis
            for i in range(mine.shape[c["axis"]]):
                idx = [slice(None)] * g.ndim
                idx[c["axis"]] = i
                d[tuple(idx)] = mine[tuple(idx)]
    first = d.asarray()
    out = {"global": np.array(first), "local": d.local_array.copy(), "shape": d.local_shape, "gshape": d.global_shape,
           "shapes": [tuple(int(v) for v in s) for s in d.local_shapes], "dtype": str(d.local_array.dtype),
           "ddtype": str(np.dtype(d.dtype)), "axis": d.axis, "ndim": d.ndim, "rank": d.rank, "size": d.size,
           "part": d.partition.name, "item": np.array(d[:]), "mask": d.mask}
    out["source_kept"] = core.same(g, keep)
    # what asarray returned is a copy, not a window into the array
    if first.size:
        first[...] = np.zeros((), dtype=first.dtype)
    out["again"] = d.asarray()
    return out


def j_scatter(c, o):
    g = gen.fill(c["fill"], c["shape"], c["dtype"])
    ax, n = c["axis"], c["n"]
    tot = c["shape"][ax]
    parts = gen.parts_of(c, tot)
    if c["parts"] is None:  # stated independently: contiguous, balanced, larger ones first
        assert max(parts) - min(parts) <= 1 and sum(parts) == tot
    locs = gen.cut(g, parts, ax)
    shapes = [x.shape for x in locs]
    for r, v in enumerate(o.values()):
        t = core.first(
            core.expect_same(f"rank {r}: gathered array", v["global"], g, c["dtype"]),
            core.expect_same(f"rank {r}: gathered array after the first one was overwritten", v["again"], g, c["dtype"]),
            core.expect_same(f"rank {r}: local array", v["local"], locs[r], c["dtype"]),
            core.expect_same(f"rank {r}: local array by index", v["item"], locs[r], c["dtype"]))
        if t:
            return t
        for what, got, want in (("local shape", tuple(v["shape"]), shapes[r]),
                                ("global shape", tuple(v["gshape"]), tuple(c["shape"])),
                                ("local shapes", v["shapes"], shapes), ("axis", v["axis"], ax),
                                ("ndim", v["ndim"], len(c["shape"])), ("rank", v["rank"], r), ("size", v["size"], n),
                                ("dtype", v["ddtype"], str(np.dtype(c["dtype"]))), ("partition", v["part"], "SCATTER"),
                                ("mask", v["mask"], c["mask"]), ("source left alone", v["source_kept"], True)):
            if got != want:
                return f"rank {r}: {what} is {got}, expected {want}"
    return None


def l_scatter(c):
    parts = gen.parts_of(c, c["shape"][c["axis"]])
    return ([f"ndim={len(c['shape'])}", "explicit" if c["parts"] is not None else "default", c["how"], c["form"]]
            + (["empty rank"] if 0 in parts else []) + (["mask"] if c["mask"] else []))


SUBS = [Sub("scatter", g_scatter, s_scatter, j_scatter, quick=4000, big=2000, thorough=100000, real=12,
            nontrivial=lambda c: c["n"] > 1 and int(np.prod(c["shape"])) > 0, label=l_scatter)]
KNOWN = {}
