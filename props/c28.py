"""C28: whatever is done to a set of arrays, one thing after another, gives what it gives on NumPy arrays."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("1-3 arrays to begin with, then up to 20 operations on whatever is alive (creation, assignment, arithmetic, in-place "
        "arithmetic, copies, aliases, reductions, ghost cells, flattening, redistribution, stacks that share their members with "
        "other names); non-trivial: more than one rank and at least 4 operations")

SC = {"2": 2, "-1": -1, ".5": 0.5, "3.": 3.0, "0": 0, "i": 1j, "f32": np.float32(0.5), "c64": np.complex64(1 - 1j)}
IDX = ("all", "int", "slice", "step", "ellipsis")
VIAS = ("local array", "view", "ufunc")
ORDS = (None, 0, 1, 2, "inf", "-inf")
DT = gen.FLOATS + ("float64", "complex128", "int64", "int32")


# -- the model -------------------------------------------------------------------------------------------------------
class A:
    """An array: its description and what every rank holds."""

    def __init__(self, d, loc):
        self.d = {k: d[k] for k in ("n", "kind", "shape", "axis", "parts", "mask")}
        if self.d["kind"] == "S" and self.d["parts"] is None:
            self.d["parts"] = gen.balanced(d["shape"][d["axis"]], d["n"])
        self.d["shape"] = [int(s) for s in d["shape"]]
        self.loc = loc
        self.d["dtype"] = str(loc[0].dtype)

    def global_(self, r):
        return np.concatenate(self.loc, axis=self.d["axis"]) if self.d["kind"] == "S" else self.loc[r]

    def same_everywhere(self):
        return self.d["kind"] == "S" or all(core.same(x, self.loc[0]) for x in self.loc)

    def fits(self, o):
        return all(self.d[k] == o.d[k] for k in ("kind", "shape", "axis", "parts", "mask"))


class K:
    """A stack: a list of arrays that may have other names as well."""

    def __init__(self, of):
        self.of = of

    def fits(self, o):
        return len(self.of) == len(o.of) and all(a.fits(b) for a, b in zip(self.of, o.of))


def index(how, k, shp):
    if how == "ellipsis":
        return Ellipsis
    if how == "int":
        return k % shp[0]
    if how == "slice":
        return slice(k % shp[0], None)
    if how == "step":
        return slice(None, None, 1 + k % 3)
    return slice(None)


def assigned(d, dtype, lshape, op, r):
    how, k, salt, scalar = op[2:6]
    probe = np.empty(lshape, dtype=np.int8)[index(how, k, lshape)]
    return gen.fill(["int", salt], (1,), dtype, r)[0] if scalar else gen.fill(["int", salt], probe.shape, dtype, r)


def skips(op, d, lshape, r):
    return (op[6] is not None and not op[6][r]) or (op[2] in ("int", "slice") and lshape[0] == 0)


def un(name, x):
    if name == "neg":
        return -x
    if name == "conj":
        return x.conj()
    if name == "zeros_like":
        return np.zeros_like(x)
    if name in ("ravelC", "ravelF"):
        return x.ravel(order=name[-1]).copy()
    return x.copy()


def binary(op, x, y):
    return x + y if op == "add" else x - y if op == "sub" else x * y


def redo(a, op, n):
    """a given as a plain array to another distribution."""
    _, _, kind, axis, parts, mask = op
    d = {"n": n, "kind": kind, "shape": a.d["shape"], "axis": axis, "parts": parts, "mask": mask}
    p = parts if parts is not None else gen.balanced(d["shape"][axis], n)
    if kind == "S":
        return A(d, [gen.cut(a.global_(r), p, axis)[r].copy() for r in range(n)])
    return A(d, [a.global_(0 if kind == "B" else r).copy() for r in range(n)])


def plan(slots, op, n):
    """What an operation does: (writes: [(array, what every rank then holds)], new slot or None, slot to rebind or None)."""
    k = op[0]
    if k == "new":
        return [], A(op[1], [x.copy() for x in arr.local(op[1])]), None
    x = slots[op[1]] if k not in ("stack",) else None
    if k == "set":
        new = []
        for r, v in enumerate(x.loc):
            v = v.copy()
            if not skips(op, x.d, v.shape, r):
                v[index(op[2], op[3], v.shape)] = assigned(x.d, v.dtype, v.shape, op, 0 if x.d["kind"] == "B" else r)
            new.append(v)
        return [(x, new)], None, None
    if k == "poke":
        # (like an assignment, but on every rank by itself: the same on all of a replicated array)
        new = []
        for r, v in enumerate(x.loc):
            v = v.copy()
            if not skips(op, x.d, v.shape, r):
                v[index(op[2], op[3], v.shape)] = assigned(x.d, v.dtype, v.shape, op, r if x.d["kind"] == "S" else 0)
            new.append(v)
        return [(x, new)], None, None
    if k == "bin":
        y = slots[op[2]]
        return [], A(x.d, [binary(op[3], a, b) for a, b in zip(x.loc, y.loc)]), None
    if k == "ibin":
        y = slots[op[2]]
        return [(x, [binary(op[3], a, b).astype(a.dtype) for a, b in zip(x.loc, y.loc)])], None, None
    if k == "scale":
        return [], A(x.d, [a * SC[op[2]] for a in x.loc]), op[1] if op[3] == "inplace" else None
    if k == "un":
        d = dict(x.d)
        loc = [un(op[2], a) for a in x.loc]
        if op[2].startswith("ravel"):
            d.update(axis=0, shape=[int(np.prod(d["shape"]))], parts=[a.size for a in loc] if d["kind"] == "S" else None)
        return [], A(d, loc), None
    if k == "redo":
        return [], redo(x, op, n), None
    if k == "alias":
        return [], x, None
    if k == "stack":
        return [], K([slots[i] for i in op[1]]), None
    if k == "k_un":
        return [], K([A(a.d, [un(op[2], v) for v in a.loc]) for a in x.of]), None
    if k == "k_bin":
        return [], K([A(a.d, [binary(op[3], u, v) for u, v in zip(a.loc, b.loc)]) for a, b in zip(x.of, slots[op[2]].of)]), None
    if k == "k_ibin":
        return [(a, [binary(op[3], u, v).astype(u.dtype) for u, v in zip(a.loc, b.loc)])
                for a, b in zip(x.of, slots[op[2]].of)], None, None
    if k == "k_scale":
        return [], K([A(a.d, [v * SC[op[2]] for v in a.loc]) for a in x.of]), op[1] if op[3] == "inplace" else None
    if k == "k_set":
        a = x.of[op[2]]
        return [(a, [np.full_like(v, op[3]) for v in a.loc])], None, None
    if k == "k_member":
        return [], x.of[op[2]], None
    return [], None, None  # looks, and changes nothing


def apply(slots, op, n):
    writes, new, at = plan(slots, op, n)
    for a, loc in writes:
        a.loc = loc
    if new is not None:
        if at is None:
            slots.append(new)
        else:
            slots[at] = new
    return new if at is None else None


def exact(a):
    """Whether all that is computed from such values is exact, in one more step."""
    for v in a:
        if v.dtype.kind == "c":
            v = np.stack([v.real, v.imag])
        lim = 2.0 ** (15 if v.dtype == np.float32 else 20)
        if v.size and not (np.all(np.abs(v) < lim) and np.all(v * 8 == np.round(v * 8))):
            return False
    return True


# -- drawing ---------------------------------------------------------------------------------------------------------
def g_history(draw, n):
    slots, ops = [], []

    def add(op):
        writes, new, _ = plan(slots, op, n)
        made = [new] if isinstance(new, A) else new.of if isinstance(new, K) else []
        if all(exact(loc) for _, loc in writes) and all(exact(a.loc) for a in made):
            ops.append(op)
            apply(slots, op, n)
    shp = gen.shape(draw, hi=5, maxsize=300)
    first = arr.draw_desc(draw, n, dtypes=DT, shp=shp)
    first["fill"][0] = "int"
    add(["new", first])
    for _ in range(draw(st.sampled_from((1, 4, 10, 16, 7, 13, 20)))):
        o = draw_op(draw, n, slots)
        if o:
            add(o)
        if o and o[0] in LOOKS and draw(st.integers(0, 2)) == 0:
            # look, change, look again
            p = draw_change(draw, n, slots, o[1])
            if p:
                add(p)
                if not (o[0].endswith("norm") or o[0].endswith("dot")) or all(
                        a.same_everywhere() for i in (o[1], o[2] if o[0].endswith("dot") else o[1])
                        for a in (slots[i].of if isinstance(slots[i], K) else [slots[i]])):
                    add(list(o))
    return {"ops": ops}


def draw_new(draw, n, slots):
    arrs = [s for s in slots if isinstance(s, A)]
    if draw(st.integers(0, 3)):
        like = draw(st.sampled_from(range(len(arrs))))
        d = dict(arrs[like].d)
        d["dtype"] = draw(st.sampled_from(DT))
    else:
        d = arr.draw_desc(draw, n, dtypes=DT, hi=5)
    d["fill"] = ["int", draw(st.integers(0, 999))]
    return ["new", d]


def draw_change(draw, n, slots, i):
    """Something that changes what slot i holds, in place."""
    x = slots[i]
    if isinstance(x, K):
        if draw(st.booleans()):
            return ["k_set", i, draw(st.integers(0, len(x.of) - 1)), draw(st.integers(-3, 3))]
        inside = [j for j, s in enumerate(slots) if any(s is a for a in x.of)]
        if not inside:
            return None
        i = draw(st.sampled_from(inside))
        x = slots[i]
    return draw_set(draw, n, i, x.d, draw(st.sampled_from(("set", "poke", "poke"))))


def draw_set(draw, n, i, d, k):
    sub = [draw(st.booleans()) for _ in range(n)] if d["kind"] == "S" and draw(st.integers(0, 2)) == 0 else None
    if d["kind"] == "U" and k == "set" and draw(st.integers(0, 2)) == 0:
        sub = [draw(st.booleans()) for _ in range(n)]
    how = draw(st.sampled_from(IDX))
    if d["kind"] != "S" and how in ("int", "slice") and d["shape"][0] == 0:
        how = "all"
    o = [k, i, how, draw(st.integers(0, 9)), draw(st.integers(0, 99)), draw(st.booleans()), sub]
    return o + [draw(st.sampled_from(VIAS))] if k == "poke" else o


def draw_op(draw, n, slots):
    arrs = [i for i, s in enumerate(slots) if isinstance(s, A)]
    stacks = [i for i, s in enumerate(slots) if isinstance(s, K)]
    kinds = ["new", "new", "set", "set", "poke", "bin", "bin", "ibin", "ibin", "scale", "un", "un", "redo", "alias", "dot", "norm", "ghost",
             "stack", "gather"]
    if stacks:
        kinds += ["k_un", "k_bin", "k_bin", "k_ibin", "k_scale", "k_set", "k_dot", "k_norm", "k_member"] * 2
    k = draw(st.sampled_from(kinds))
    if k == "new":
        return draw_new(draw, n, slots)
    if k == "stack":
        return ["stack", draw(st.lists(st.sampled_from(arrs), min_size=1, max_size=3))]
    if k.startswith("k_"):
        i = draw(st.sampled_from(stacks))
        x = slots[i]
        if k == "k_un":
            return [k, i, draw(st.sampled_from(("neg", "conj", "copy")))]
        if k == "k_scale":
            return [k, i, draw(st.sampled_from(sorted(SC))), draw(st.sampled_from(("right", "left", "inplace")))]
        if k in ("k_set", "k_member"):
            return [k, i, draw(st.integers(0, len(x.of) - 1)), draw(st.integers(-3, 3))]
        if k == "k_norm":
            if any(a.d["mask"] or not a.same_everywhere() or not a.loc[0].size for a in x.of):
                return None
            return [k, i, draw(st.sampled_from((None, 0, 1, 2, "inf")))]
        js = [j for j in stacks if x.fits(slots[j])]
        j = draw(st.sampled_from(js))
        y = slots[j]
        if k == "k_dot":
            if any(a.d["mask"] or not a.same_everywhere() for a in x.of + y.of):
                return None
            return [k, i, j]
        op = draw(st.sampled_from(("add", "sub", "mul") if k == "k_bin" else ("add", "sub")))
        if k == "k_ibin":
            # (with members in several places the order of the additions would matter)
            ids = [id(a) for a in x.of]
            if len(set(ids)) < len(ids) or any(id(b) in ids and b is not a for a, b in zip(x.of, y.of)):
                return None
            if any(not np.can_cast(b.d["dtype"], a.d["dtype"], "same_kind") for a, b in zip(x.of, y.of)):
                return None
        return [k, i, j, op]
    i = draw(st.sampled_from(arrs))
    x = slots[i]
    d = x.d
    if k in ("gather", "alias"):
        return [k, i]
    if k in ("set", "poke"):
        return draw_set(draw, n, i, d, k)
    if k in ("bin", "ibin", "dot"):
        js = [j for j in arrs if x.fits(slots[j])]
        j = draw(st.sampled_from(js))
        y = slots[j]
        if k == "dot":
            if not (x.same_everywhere() and y.same_everywhere()) or (d["mask"] and d["kind"] != "S"):
                return None
            return [k, i, j]
        if k == "ibin" and not np.can_cast(y.d["dtype"], d["dtype"], "same_kind"):
            return None
        return [k, i, j, draw(st.sampled_from(("add", "sub", "mul") if k == "bin" else ("add", "sub")))]
    if k == "scale":
        return [k, i, draw(st.sampled_from(sorted(SC))), draw(st.sampled_from(("right", "left", "inplace")))]
    if k == "un":
        return [k, i, draw(st.sampled_from(("neg", "conj", "copy", "zeros_like", "ravelC", "ravelF")))]
    if k == "norm":
        if not x.same_everywhere() or (d["mask"] and d["kind"] != "S") or 0 in d["shape"]:
            return None
        return [k, i, draw(st.sampled_from(ORDS)), draw(st.booleans()) and (d["kind"] == "S" or d["axis"] == 0)]
    if k == "ghost":
        if d["kind"] != "S":
            return None
        lo = min(d["parts"])
        return [k, i, draw(st.one_of(st.none(), st.integers(0, lo))), draw(st.one_of(st.none(), st.integers(0, lo)))]
    kind = draw(st.sampled_from("SSBU"))
    axis, parts = gen.layout(draw, n, d["shape"]) if kind == "S" else (0, None)
    return ["redo", i, kind, axis, parts, gen.mask(draw, n)]


# -- the ranks -------------------------------------------------------------------------------------------------------
def real_binary(op, x, y):
    return x + y if op == "add" else x - y if op == "sub" else x * y


def real_un(name, x):
    if name == "neg":
        return -x
    if name.startswith("ravel"):
        return x.ravel(order=name[-1])
    return getattr(x, name)()


def real_scale(x, s, how):
    s = SC[s]
    return s * x if how == "left" and not isinstance(s, np.generic) else x * s


def real_ibin(op, x, y):
    if op == "add":
        x += y
    else:
        x -= y
    return x


def order(o):
    return {"inf": np.inf, "-inf": -np.inf}.get(o, o)


def look(env, x, comm=None):
    if hasattr(x, "distarrays"):
        return [arr.snap(env, a, comm) for a in x.distarrays] + [x.base_comm is (comm or env.comm)]
    return arr.snap(env, x, comm)


def s_history(env, c, comm=None):
    comm = comm or env.comm
    rank = comm.Get_rank()
    D, S, P = env.pm.DistributedArray, env.pm.StackedDistributedArray, env.P
    slots, seen = [], []
    for op in c["ops"]:
        k = op[0]
        new, got = None, None
        if k == "new":
            new = arr.build(env, op[1], comm=comm)
        elif k == "stack":
            new = S([slots[i] for i in op[1]], base_comm=comm)
        else:
            x = slots[op[1]]
            if k == "set":
                if not skips(op, None, x.local_shape, rank):
                    v = assigned(None, x.local_array.dtype, x.local_shape, op, rank)
                    x[index(op[2], op[3], x.local_shape)] = v
                got = look(env, x, comm)
            elif k == "poke":
                if not skips(op, None, x.local_shape, rank):
                    i = index(op[2], op[3], x.local_shape)
                    v = assigned(None, x.local_array.dtype, x.local_shape, op, rank if x.partition is P.SCATTER else 0)
                    if op[7] == "local array":
                        x.local_array[i] = v
                    elif op[7] == "view":
                        w = x[i if not isinstance(i, (int, np.integer)) else slice(i, i + 1)]
                        w[...] = v
                    else:
                        np.copyto(x.local_array[i if not isinstance(i, (int, np.integer)) else slice(i, i + 1)], v)
                got = look(env, x, comm)
            elif k in ("bin", "k_bin"):
                new = real_binary(op[3], x, slots[op[2]])
            elif k in ("ibin", "k_ibin"):
                got = real_ibin(op[3], x, slots[op[2]]) is x
            elif k in ("scale", "k_scale"):
                y = real_scale(x, op[2], op[3])
                if op[3] == "inplace":
                    slots[op[1]] = y
                    got = look(env, y, comm)
                else:
                    new = y
            elif k in ("un", "k_un"):
                new = real_un(op[2], x)
            elif k == "redo":
                _, _, kind, axis, parts, mask = op
                new = D.to_dist(np.array(x.asarray()), base_comm=comm, partition=P[arr.PARTS[kind]], axis=axis, mask=mask,
                                local_shapes=gen.local_shapes(x.global_shape, axis, parts))
            elif k == "alias":
                new = x
            elif k == "gather":
                got = np.array(x.asarray())
            elif k in ("dot", "k_dot"):
                got = np.array(x.dot(slots[op[2]]))
            elif k == "norm":
                kw = {"axis": x.axis} if op[3] else {}
                got = np.array(x.norm(order(op[2]), **kw))
            elif k == "k_norm":
                got = np.array(x.norm(order(op[2])))
            elif k == "ghost":
                got = np.array(x.add_ghost_cells(cells_front=op[2], cells_back=op[3]))
            elif k == "k_set":
                x[op[2]] = op[3]
            else:
                new = x[op[2]]
        if new is not None:
            slots.append(new)
            got = look(env, new, comm)
        seen.append(got)
    return seen, [look(env, x, comm) for x in slots], [np.array(x.asarray()) for x in slots]


# -- judging ---------------------------------------------------------------------------------------------------------
def j_look(what, got, x, r):
    if isinstance(x, K):
        if len(got) != len(x.of) + 1 or not got[-1]:
            return f"rank {r}: {what}: not a stack of {len(x.of)} arrays on the communicator"
        return core.first(*[arr.check(f"{what}, member {i}", s, a.d, a.loc[r], r) for i, (s, a) in enumerate(zip(got, x.of))])
    return arr.check(what, got, x.d, x.loc[r], r)


def group(x, r, n):
    m = x.d["mask"]
    return range(n) if m is None else [q for q in range(n) if m[q] == m[r]]


def pick(x, r, n):
    """The part of the array that reductions at rank r see."""
    if x.d["kind"] != "S":
        return x.loc[r]
    return np.concatenate([x.loc[q] for q in group(x, r, n)], axis=x.d["axis"])


def wide(v):
    return v.astype(complex if v.dtype.kind == "c" else float)


def j_one(op, got, slots, r, n):
    """Of an operation that only looks."""
    k = op[0]
    x = slots[op[1]]
    what = f"{op}"
    if k == "gather":
        return core.expect_same(f"rank {r}: {what}", got, x.global_(r), x.d["dtype"])
    if k == "dot":
        y = slots[op[2]]
        u, v = pick(x, r, n).ravel(), pick(y, r, n).ravel()
        return core.expect_close(f"rank {r}: {what}", got, np.dot(u, v), 16 * core.eps_of(u.dtype, v.dtype),
                                 max(core.TINY, float(np.sum(np.abs(wide(u) * v)))))
    if k == "k_dot":
        want, sc, eps = 0, 1.0, core.eps_of("float64")
        for a, b in zip(x.of, slots[op[2]].of):
            u, v = wide(pick(a, r, n).ravel()), wide(pick(b, r, n).ravel())
            want, sc = want + np.dot(u, v), sc + float(np.sum(np.abs(u * v)))
            eps = max(eps, core.eps_of(a.loc[0].dtype, b.loc[0].dtype))
        return core.expect_close(f"rank {r}: {what}", got, want, 32 * eps, sc)
    eps = max([core.eps_of("float64")] + [core.eps_of(a.loc[0].dtype) for a in (x.of if isinstance(x, K) else [x])])
    if k == "k_norm":
        v = np.concatenate([wide(pick(a, r, n)).ravel() for a in x.of])
        return core.expect_close(f"rank {r}: {what}", got, np.linalg.norm(v, order(op[2])), 128 * eps)
    if k == "norm":
        v = wide(pick(x, r, n))
        if isinstance(op[2], str) and 0 in v.shape:
            return None
        if op[3] and v.ndim > 1:
            want = np.linalg.norm(v, order(op[2]), axis=x.d["axis"])
        else:
            want = np.linalg.norm(v.ravel(), order(op[2]))
        return core.expect_close(f"rank {r}: {what}", got, want, 128 * eps)
    # ghost cells
    ax, o = x.d["axis"], gen.offsets(x.d["parts"])
    f, b = op[2] or 0, op[3] or 0
    lo = o[r] - (f if r > 0 else 0)
    hi = o[r + 1] + (b if r < n - 1 else 0)
    idx = [slice(None)] * len(x.d["shape"])
    idx[ax] = slice(lo, hi)
    return core.expect_same(f"rank {r}: {what}", got, x.global_(r)[tuple(idx)], x.d["dtype"])


LOOKS = ("gather", "dot", "norm", "ghost", "k_dot", "k_norm")


def j_history(c, o):
    n = c["n"]
    slots = []
    vals = o.values()
    for t, op in enumerate(c["ops"]):
        k = op[0]
        if k in LOOKS:
            for r in range(n):
                bad = j_one(op, vals[r][0][t], slots, r, n)
                if bad:
                    return f"step {t}: {bad}"
            continue
        new = apply(slots, op, n)
        for r in range(n):
            got = vals[r][0][t]
            if k in ("ibin", "k_ibin"):
                bad = None if got is True else f"rank {r}: {op} gave another object"
            elif k == "k_set":
                bad = None
            else:
                bad = j_look(f"{op}", got, new if new is not None else slots[op[1]], r)
            if bad:
                return f"step {t}: {bad}"
    for i, x in enumerate(slots):
        for r in range(n):
            g = (np.hstack([a.global_(r).ravel() for a in x.of]) if isinstance(x, K) else x.global_(r))
            bad = core.first(j_look(f"slot {i} in the end", vals[r][1][i], x, r),
                             core.expect_same(f"rank {r}: global view of slot {i} in the end", vals[r][2][i], g))
            if bad:
                return bad
    return None


SUBS = [Sub("history", g_history, s_history, j_history, quick=2500, big=200, thorough=80000, real=10, ranks=(1, 6),
            nontrivial=lambda c: c["n"] > 1 and len(c["ops"]) >= 4,
            label=lambda c: sorted({o[0] for o in c["ops"]}) + [f"ops={len(c['ops']) // 4 * 4}+"])]
KNOWN = {}
