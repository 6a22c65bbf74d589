"""Building blocks of the case generators.  All randomness goes through Hypothesis's draw; array contents are a fixed
function of a drawn recipe, so that cases stay small, JSON-able and replayable."""
import boot  # noqa: F401
import numpy as np
from hypothesis import strategies as st

FLOATS = ("float64", "float32", "complex128", "complex64")
DOUBLES = ("float64", "complex128")


_INT20000 = st.integers(0, 19999)


GROWTH = [1]  # how much larger than usual the case being drawn is to be


def up(hi):
    return hi * GROWTH[0]


def ranks(lo=1, hi=8):
    pool = [n for n in (2, 3, 4, 1, 5, 3, 2, 6, 4, 7, 8, 2, 3, 4, 2, 6, 5, 8) if lo <= n <= hi] + [9, 11, 12] * (hi == 8)
    return st.sampled_from(pool or list(range(lo, hi + 1)))


def world(draw):
    """What MPI leaves open."""
    return {"sched": draw(st.one_of(st.just(0), st.integers(0, 3), st.integers(4, 60))),
            "sync": draw(st.booleans()), "strict": draw(st.booleans())}


def recipe(draw, special=False, tiny=False):
    """How to fill an array."""
    kinds = ["int", "frac", "wide"] + (["special"] if special else []) + (["tiny"] if tiny else [])
    k = draw(_INT20000)
    return [kinds[k // 1000 % len(kinds)], k % 1000]


def fill(rec, shape, dtype, salt=0):
    """Integer values (exact in every dtype used, also summed or multiplied), quarters ("frac") or very small ones ("tiny", as
    exact: they are scaled by a power of two), unless the kind says otherwise."""
    kind, seed = rec
    dtype = np.dtype(dtype)
    size = int(np.prod(shape, dtype=np.int64))
    if kind == "ones":
        return np.ones(shape, dtype=dtype)
    if kind == "spot":
        return (2 * (np.arange(size) == seed % max(1, size))).astype(dtype).reshape(shape)
    rng = np.random.default_rng([seed, salt, 77])
    lim = 4 if kind == "int" else 40
    a = rng.integers(-lim, lim + 1, size=size)
    if seed == 0 and kind == "int":
        a = (np.arange(size) + 1 + salt * 3) % 11 - 2
    if dtype.kind == "c":
        b = rng.integers(-lim, lim + 1, size=size)
        a = a + 1j * b
    if dtype.kind == "u":
        a = np.abs(a)
    if dtype.kind == "b":
        a = (a % 2).astype(bool)
    a = a.astype(dtype)
    if dtype.kind in "fc":
        a *= {"frac": 0.25, "tiny": 2.0 ** -30}.get(kind, 1)
    if kind == "special" and dtype.kind in "fc" and size:
        vals = [np.nan, np.inf, -np.inf, -0.0, 1e30, -1e-30]
        for i in rng.integers(0, size, size=1 + size // 4):
            a[i] = vals[int(rng.integers(len(vals)))]
    if kind == "extreme" and dtype.kind in "iu" and size:
        for i in rng.integers(0, size, size=1 + size // 3):
            a[i] = np.iinfo(dtype).min if rng.integers(3) else np.iinfo(dtype).max
    if seed >= 700 and kind != "special" and dtype.kind in "fc" and size:
        patch(a, shape, np.random.default_rng([seed, salt, 78]))
    return a.reshape(shape)


def patch(a, shape, rng):
    """Stretches (of rows, in half of the cases) where all is zero, or real, or imaginary, or the same."""
    lead = shape[0] if rng.integers(2) and isinstance(shape, (tuple, list)) and len(shape) > 1 else a.size
    row = a.size // lead
    cuts = np.concatenate([[0], np.sort(rng.integers(0, lead + 1, size=int(rng.integers(0, 5)))), [lead]]) * row
    for i, j in zip(cuts[:-1], cuts[1:]):
        how = int(rng.integers(6))
        if how == 1:
            a[i:j] = 0
        elif how == 2:
            a[i:j] = a[i:j].real
        elif how == 3 and a.dtype.kind == "c":
            a[i:j] = 1j * a[i:j].imag
        elif how == 4 and i < j:
            a[i:j] = a[i]


def sizes(draw, n, total, lo=0):
    """A composition of total into n parts, each at least lo."""
    rest = total - lo * n
    assert rest >= 0
    how = draw(st.sampled_from(("cuts", "cuts", "balanced", "one", "reversed")))
    if how == "cuts":
        cuts = sorted(draw(st.lists(st.integers(0, rest), min_size=n - 1, max_size=n - 1)))
        parts = np.diff([0] + cuts + [rest]).tolist()
    elif how == "one":
        parts = [0] * n
        parts[draw(st.integers(0, n - 1))] = rest
    else:
        parts = [rest // n + (i < rest % n) for i in range(n)]
        if how == "reversed":
            parts = parts[::-1]
    return [p + lo for p in parts]


def balanced(total, n):
    return [total // n + (i < total % n) for i in range(n)]


def offsets(parts):
    return [0] + np.cumsum(parts).tolist()


def cut(x, parts, axis=0):
    """The global array's part for each rank."""
    o = offsets(parts)
    idx = [slice(None)] * np.ndim(x)
    out = []
    for i in range(len(parts)):
        idx[axis] = slice(o[i], o[i + 1])
        out.append(x[tuple(idx)])
    return out


def dim(draw, hi=9, lo=0):
    """An extent: mostly small, now and then larger."""
    return draw(st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(max(lo, hi), 4 * hi)))


def shape(draw, ndim=None, hi=7, lo=0, maxsize=1500):
    nd = ndim or draw(st.sampled_from((1, 2, 2, 3, 1, 2, 3, 4, 1, 2, 3, 5)))
    s = [dim(draw, hi if nd < 3 else max(3, hi - 2) if nd == 3 else min(hi, 3), lo) for _ in range(nd)]
    while np.prod(s) > maxsize:
        s[int(np.argmax(s))] = max(lo, hi)
        if max(s) <= hi:
            break
    if GROWTH[0] > 1 and min(s) > 0:
        # one of the extents is much larger
        k = draw(st.integers(0, nd - 1))
        s[k] = min(s[k] * draw(st.integers(2, GROWTH[0])) + draw(st.integers(0, 3)), max(s[k], 60000 * s[k] // int(np.prod(s))))
    return s


def mask(draw, n):
    """None, or a group label for every rank."""
    if n == 1 or draw(st.booleans()):
        return None
    return draw(st.lists(st.integers(0, min(n - 1, 3)), min_size=n, max_size=n))


def layout(draw, n, shp, axis=None):
    """Axis, and local extents along it (None: left to the library)."""
    ax = draw(st.integers(0, len(shp) - 1)) if axis is None else axis
    parts = sizes(draw, n, shp[ax]) if draw(st.booleans()) else None
    return ax, parts


def local_shapes(shp, axis, parts):
    if parts is None:
        return None
    out = []
    for p in parts:
        s = list(shp)
        s[axis] = p
        out.append(tuple(s))
    return out


def parts_of(case, total):
    return case["parts"] if case.get("parts") is not None else balanced(total, case["n"])
