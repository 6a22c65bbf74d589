"""C07: ghost cells are the neighbours' cells, as many as each rank asked for, or are refused on every rank."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("shape, axis, layout, dtype, cells asked for at the front and back, different from rank to rank, absent or zero; "
        "non-trivial: more than one rank and some cells exchanged or refused")


def g_ghost(draw, n):
    a = arr.draw_desc(draw, n, kinds="S", special=True, lo=0, dtypes=gen.FLOATS + ("int64", "bool"))
    p = arr.parts(a)
    over = draw(st.integers(0, 4)) == 0
    kw = {}
    for side, nb in (("front", -1), ("back", 1)):
        how = draw(st.sampled_from(("none", "same", "each", "each")))
        if how == "none":
            kw[side] = None
            continue
        cells = []
        for r in range(n):
            have = p[r + nb] if 0 <= r + nb < n else 3  # the outer ranks may ask, and get nothing
            cells.append(draw(st.integers(0, have + 2 * over)))
        if how == "same":
            lim = [cells[r] for r in range(n) if 0 <= r + nb < n]
            cells = [min(lim) if lim else cells[0]] * n
        kw[side] = cells
    return {"a": a, **kw, "positional": draw(st.booleans())}


def s_ghost(env, c):
    x = arr.build(env, c["a"])
    f, b = (None if c[k] is None else c[k][env.rank] for k in ("front", "back"))
    try:
        if c["positional"]:
            g = x.add_ghost_cells(f, b)
        else:
            g = x.add_ghost_cells(**{k: v for k, v in (("cells_front", f), ("cells_back", b)) if v is not None})
    except ValueError:
        g = None
    keep = x.local_array.copy()
    out = {"g": None if g is None else np.array(g)}
    if g is not None and g.size:
        g[...] = 1
    out["kept"] = core.same(keep, x.local_array)
    out["after"] = x.asarray()
    return out


def j_ghost(c, o):
    a, n = c["a"], c["n"]
    A, ax = arr.value(a), a["axis"]
    p = arr.parts(a)
    off = gen.offsets(p)
    f, b = c["front"] or [0] * n, c["back"] or [0] * n
    bad = any(f[r] > p[r - 1] for r in range(1, n)) or any(b[r] > p[r + 1] for r in range(n - 1))
    for r, v in enumerate(o.values()):
        if not v["kept"] or not core.same(v["after"], A):
            return f"rank {r}: the array was changed by its ghost cells"
        if bad:
            if v["g"] is not None:
                return f"rank {r}: got {short(v['g'])} although a neighbour has fewer cells than asked for"
            continue
        lo, hi = off[r] - (f[r] if r > 0 else 0), off[r + 1] + (b[r] if r < n - 1 else 0)
        idx = [slice(None)] * A.ndim
        idx[ax] = slice(lo, hi)
        if v["g"] is None:
            return f"rank {r}: refused although every neighbour has enough cells"
        t = core.expect_same(f"rank {r}: ghosted array", v["g"], A[tuple(idx)], A.dtype)
        if t:
            return t
    return None


def short(x):
    return core.short(x)


def exchanged(c):
    n = c["n"]
    return n > 1 and arr.size(c["a"]) > 0 and (any((c["front"] or [0])[1:]) or any((c["back"] or [0])[:-1]))


def l_ghost(c):
    a, n = c["a"], c["n"]
    p = arr.parts(a)
    f, b = c["front"] or [0] * n, c["back"] or [0] * n
    bad = any(f[r] > p[r - 1] for r in range(1, n)) or any(b[r] > p[r + 1] for r in range(n - 1))
    return arr.labels(a) + (["refused"] if bad else []) + (["both sides"] if c["front"] and c["back"] else [])


SUBS = [Sub("ghost", g_ghost, s_ghost, j_ghost, quick=4000, big=500, thorough=100000, real=12, nontrivial=exchanged, label=l_ghost)]
KNOWN = {}
