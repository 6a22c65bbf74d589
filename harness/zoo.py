"""Operators described by small dicts: how to draw them, build them on the ranks, and what matrix they stand for.

A space says where a vector lives: {"kind": "S" or "B", "parts": [extent per rank] or None, "size": total}.
"""
import numpy as np
from hypothesis import strategies as st

import core
import gen

REAL, CPLX = ("float64", "float32"), ("complex128", "complex64")


_INT = st.integers(0, 15999)


# -- serial blocks ---------------------------------------------------------------------------------------------------
def draw_block(draw, m, n, dtype):
    kinds = ["mat", "mat", "mat", "eye", "zero"]
    if m == n:
        kinds += ["diag", "flip"]
        if n >= 3:
            kinds += ["deriv", "sum"]
    k = draw(_INT)  # one draw per block: there are many
    return {"k": kinds[k % len(kinds)], "m": m, "n": n, "dtype": dtype, "fill": [("int", "wide")[k // 8 % 2], k // 16]}


def block_dense(b):
    m, n, k, dt = b["m"], b["n"], b["k"], np.dtype(b["dtype"])
    if k == "mat":
        return gen.fill(b["fill"], (m, n), dt, 3)
    if k == "eye":
        return np.eye(m, n, dtype=dt)
    if k == "zero":
        return np.zeros((m, n), dtype=dt)
    if k == "diag":
        return np.diag(gen.fill(b["fill"], (n,), dt, 4))
    if k == "flip":
        return np.eye(n, dtype=dt)[::-1].copy()
    if k == "deriv":
        a = np.zeros((n, n), dtype=dt)
        for i in range(n - 1):
            a[i, i], a[i, i + 1] = -1, 1
        return a
    if k == "sum":
        return np.tril(np.ones((n, n), dtype=dt))
    raise KeyError(k)


def block_make(b):
    import pylops
    m, n, k, dt = b["m"], b["n"], b["k"], np.dtype(b["dtype"])
    if k == "mat":
        return pylops.MatrixMult(block_dense(b), dtype=dt)
    if k == "eye":
        return pylops.Identity(m, n, dtype=dt)
    if k == "zero":
        return pylops.Zero(m, n, dtype=dt)
    if k == "diag":
        return pylops.Diagonal(gen.fill(b["fill"], (n,), dt, 4), dtype=dt)
    if k == "flip":
        return pylops.Flip(n, dtype=dt)
    if k == "deriv":
        return pylops.FirstDerivative(n, kind="forward", dtype=dt)
    if k == "sum":
        return pylops.CausalIntegration(n, kind="full", dtype=dt)
    raise KeyError(k)


def block_diag(mats):
    m, n = sum(a.shape[0] for a in mats), sum(a.shape[1] for a in mats)
    out = np.zeros((m, n), dtype=np.result_type(*mats))
    i = j = 0
    for a in mats:
        out[i:i + a.shape[0], j:j + a.shape[1]] = a
        i, j = i + a.shape[0], j + a.shape[1]
    return out


def split_parts(draw, total, lo=1, most=3):
    """A composition of total into 1..most parts of at least lo."""
    k = draw(st.integers(1, max(1, min(most, total // max(lo, 1)))))
    return gen.sizes(draw, k, total, lo) if k > 1 else [total]


# -- spaces ----------------------------------------------------------------------------------------------------------
def space_S(parts):
    return {"kind": "S", "parts": [int(p) for p in parts], "size": int(sum(parts))}


def space_B(size):
    return {"kind": "B", "parts": None, "size": int(size)}


def draw_space(draw, n, kinds="SSB", hi=4):
    hi = gen.up(hi)
    if draw(st.sampled_from(kinds)) == "S":
        if draw(st.integers(0, 3)) == 0:
            return space_S(gen.balanced(n * draw(st.integers(1, hi)) + draw(st.integers(0, n - 1)), n))
        return space_S([draw(st.integers(1, hi)) for _ in range(n)])
    return space_B(draw(st.integers(1, 3 * hi)))


def cut(space, g, n):
    return gen.cut(g, space["parts"]) if space["kind"] == "S" else [g] * n


def vector(env, space, g, comm=None, parts=None, unsafe=False, mask=None):
    """g as a distributed vector of the space (parts: another layout than the natural one)."""
    D, P = env.pm.DistributedArray, env.P
    comm = env.comm if comm is None else comm
    if space["kind"] == "B":
        return D.to_dist(g, base_comm=comm, partition=P.UNSAFE_BROADCAST if unsafe else P.BROADCAST, mask=mask)
    p = space["parts"] if parts is None else parts
    return D.to_dist(g, base_comm=comm, local_shapes=[(int(v),) for v in p], mask=mask)


def can_shift(src, dst):
    """Whether going from one layout to another needs only the direct neighbours' cells."""
    so, do = gen.offsets(src), gen.offsets(dst)
    for r in range(len(src) - 1):
        d = do[r + 1] - so[r + 1]
        if d > 0 and d > src[r + 1]:
            return False
        if d < 0 and -d > src[r]:
            return False
    return True


# -- operators -------------------------------------------------------------------------------------------------------
def draw_leaf(draw, n, model, data, dtype):
    """Some operator from one space to another."""
    k = model["kind"] + data["kind"]
    if k == "SS":
        if (model == data and dtype in REAL + CPLX and draw(st.integers(0, 3)) == 0):
            c = draw_deriv_on(draw, n, model, dtype)
            if c:
                return c
            if draw(st.booleans()):
                return draw_own_on(draw, n, model, dtype) if draw(st.booleans()) else {
                    "op": "user", "dtype": dtype, "fill": gen.recipe(draw), "model": model, "data": data}
        return draw_blockdiag(draw, n, model, data, dtype)
    if k == "BS":
        blocks = [[draw_block(draw, p, model["size"], dtype) for p in split_parts(draw, q)] for q in data["parts"]]
        return {"op": "vstack", "blocks": blocks, "dtype": dtype, "model": model, "data": data, "omit": draw(st.booleans())}
    if k == "SB":
        blocks = [[draw_block(draw, data["size"], p, dtype) for p in split_parts(draw, q)] for q in model["parts"]]
        return {"op": "hstack", "blocks": blocks, "dtype": dtype, "model": model, "data": data, "omit": draw(st.booleans())}
    if model == data and draw(st.integers(0, 5)) == 0:
        return {"op": "user", "dtype": dtype, "fill": gen.recipe(draw), "model": model, "data": data}
    fr = draw_fredholm_on(draw, n, model, data, dtype) if draw(st.integers(0, 2)) == 0 else None
    if fr:
        return fr
    return {"op": "wrap", "block": draw_block(draw, data["size"], model["size"], dtype), "dtype": dtype, "model": model,
            "data": data}


def draw_blockdiag(draw, n, model, data, dtype):
    blocks = []
    for r in range(n):
        rr = split_parts(draw, data["parts"][r])
        k = min(len(rr), model["parts"][r])
        rr = rr[:k - 1] + [sum(rr[k - 1:])]
        cc = gen.sizes(draw, k, model["parts"][r], 1) if k > 1 else [model["parts"][r]]
        blocks.append([draw_block(draw, a, b, dtype) for a, b in zip(rr, cc)])
    return {"op": "blockdiag", "blocks": blocks, "dtype": dtype, "model": model, "data": data, "omit": draw(st.booleans())}


def min_rows(op, kind, order=3, edge=False):
    """Rows per rank that a derivative along the distributed axis is sure to be content with (several ranks)."""
    if op == "first":
        if kind != "centered":
            return 1
        return 4 if order == 5 else 2
    return 3 if edge and kind == "centered" else 2


def draw_deriv_on(draw, n, space, dtype):
    """A derivative of vectors of the space, if its layout is the balanced one of some grid."""
    p = space["parts"]
    op = draw(st.sampled_from(("first", "second")))
    kind = draw(st.sampled_from(("forward", "backward", "centered")))
    order = draw(st.sampled_from((3, 5))) if op == "first" and kind == "centered" else 3
    edge = draw(st.booleans())
    cols = draw(st.sampled_from((1, 1, 2, 3)))
    if space["size"] % cols:
        cols = 1
    rows = space["size"] // cols
    if [v * cols for v in gen.balanced(rows, n)] != p or min(p) // cols < min_rows(op, kind, order, edge):
        return None
    if n == 1 and rows < 5:
        return None
    return {"op": op, "dims": [rows] if cols == 1 else [rows, cols], "kind": kind, "order": order, "edge": edge,
            "samp": draw(st.sampled_from((1.0, 0.5, 2.0))), "dtype": dtype, "model": space, "data": space, "omit": draw(st.booleans())}


def draw_fredholm_on(draw, n, model, data, dtype):
    M, N = data["size"], model["size"]
    opts = [(s, z) for s in range(2 * n, min(M, N) + 1) if M % s == 0 and N % s == 0
            for z in (1, 2, 3) if (M // s) % z == 0 and (N // s) % z == 0]
    if not opts:
        return None
    s, z = draw(st.sampled_from(opts))
    return {"op": "fredholm", "slices": gen.sizes(draw, n, s, 2), "nx": M // s // z, "ny": N // s // z, "nz": z,
            "saveGt": draw(st.booleans()), "usematmul": draw(st.booleans()), "dtype": dtype, "fill": gen.recipe(draw),
            "model": model, "data": data, "omit": draw(st.booleans())}


def unless_default(c, given, **default):
    """Keywords, without those that only say the (documented) default, where the case leaves these out."""
    if not c.get("omit"):
        return given
    return {k: v for k, v in given.items() if k not in default or v != default[k] or isinstance(v, bool) != isinstance(default[k], bool)}


MORE = {}  # further kinds of operators: how to make them, their matrix


def leaf_make(env, c, comm=None):
    import pylops_mpi  # noqa: F401
    if c["op"] in MORE:
        return MORE[c["op"]][0](env, c, comm)
    pm = env.pm
    on = {} if c.get("omit") and (comm is None or comm is env.comm) else {"base_comm": env.comm if comm is None else comm}
    comm = env.comm if comm is None else comm
    r = comm.Get_rank()
    k = c["op"]
    if k in ("blockdiag", "vstack", "hstack"):
        cls = {"blockdiag": pm.MPIBlockDiag, "vstack": pm.MPIVStack, "hstack": pm.MPIHStack}[k]
        kw = {"mask": c["mask"]} if c.get("mask") else {}
        if c.get("opdtype"):
            kw["dtype"] = c["opdtype"]
        return cls([block_make(b) for b in c["blocks"][r]], **on, **kw)
    if k == "wrap":
        return pm.MPILinearOperator(Op=block_make(c["block"]), **on)
    if k == "first":
        return pm.MPIFirstDerivative(tuple(c["dims"]), **on, **unless_default(
            c, dict(sampling=c["samp"], kind=c["kind"], edge=c["edge"], order=c["order"], dtype=c["dtype"]),
            sampling=1.0, kind="centered", edge=False, order=3, dtype="float64"))
    if k == "second":
        return pm.MPISecondDerivative(tuple(c["dims"]), **on, **unless_default(
            c, dict(sampling=c["samp"], kind=c["kind"], edge=c["edge"], dtype=c["dtype"]),
            sampling=1.0, kind="centered", edge=False, dtype="float64"))
    if k == "user":
        return user_op(env, c, comm)
    if k == "own":
        return own_op(env, c, on)
    if k == "gradient":
        return pm.MPIGradient(tuple(c["dims"]), **on, **unless_default(
            c, dict(sampling=as_given(c["samp"]), kind=c["kind"], edge=c["edge"], dtype=c["dtype"]),
            sampling=1, kind="centered", edge=False, dtype="float64"))
    if k == "laplacian":
        return pm.MPILaplacian(tuple(c["dims"]), **on, **unless_default(
            c, dict(axes=tuple(c["axes"]), weights=tuple(c["weights"]), sampling=tuple(c["samp"]), kind=c["kind"], edge=c["edge"],
                    dtype=c["dtype"]),
            axes=(-2, -1), weights=(1, 1), sampling=(1, 1), kind="centered", edge=False, dtype="float64"))
    if k == "fredholm":
        G = fredholm_G(c)
        o = gen.offsets(c["slices"])
        return env.pm.signalprocessing.MPIFredholm1(
            G[o[r]:o[r + 1]].copy(), **on, **unless_default(
                c, dict(nz=c["nz"], saveGt=c["saveGt"], usematmul=c["usematmul"], dtype=c["dtype"]),
                nz=1, saveGt=False, usematmul=True, dtype="float64"))
    raise KeyError(k)


def user_op(env, c, comm):
    """An operator written by a user: multiplies by a distributed array."""
    cls = getattr(env.pm, "_verif_user_op", None)
    if cls is None:
        class Times(env.pm.MPILinearOperator):
            def __init__(self, d, dtype, base_comm):
                self.d = d
                super().__init__(shape=(d.global_shape[0],) * 2, dtype=np.dtype(dtype), base_comm=base_comm)

            def _matvec(self, x):
                return x.multiply(self.d)

            def _rmatvec(self, x):
                return x.multiply(self.d.conj())
        cls = env.pm._verif_user_op = Times
    return cls(vector(env, c["model"], user_diag(c), comm), c["dtype"], comm)


def user_diag(c):
    return gen.fill(c["fill"], (c["model"]["size"],), c["dtype"], 8)


# -- operators written by a user with the `reshaped` decorator ---------------------------------------------------------
OWN_WORK = ("local", "ghost", "gather", "local", "ghost", "gather", "same")


def draw_own(draw, n, dims, dtype, work=None):
    """One that sees its vectors as grids."""
    rows, cols = dims[0], int(np.prod(dims[1:], dtype=int))
    s = space_S([v * cols for v in gen.balanced(rows, n)])
    w = draw(st.sampled_from(OWN_WORK)) if work is None else work
    return {"op": "own", "form": "grid", "dims": list(dims), "work": "local" if w == "ghost" and rows < n else w,
            "deco": draw(st.sampled_from(("bare", "called", "told"))), "flat": draw(st.sampled_from((True, False, False, "turned"))),
            "spoil": draw(st.booleans()),
            "dtype": dtype, "fill": gen.recipe(draw), "model": s, "data": s, "omit": draw(st.booleans())}


def draw_own_stack(draw, n, model, data, dtype):
    """One that sees its vectors as a stack of the ranks' parts."""
    return {"op": "own", "form": "stack", "work": "stack", "deco": "told", "flat": False, "dtype": dtype, "fill": gen.recipe(draw),
            "model": model, "data": data, "omit": draw(st.booleans())}


def draw_own_on(draw, n, space, dtype):
    """One of either kind whose vectors are those of the space."""
    grids = [k for k in (1, 2, 3) if space["size"] % k == 0 and [v * k for v in gen.balanced(space["size"] // k, n)] == space["parts"]]
    if grids and draw(st.integers(0, 3)):
        k = draw(st.sampled_from(grids))
        return draw_own(draw, n, [space["size"] // k] + ([k] if k > 1 else []), dtype)
    return draw_own_stack(draw, n, space, space, dtype)


def own_numbers(c):
    """What the operator is made of."""
    if c["work"] == "stack":
        return [gen.fill(c["fill"], (b, a), c["dtype"], 20 + i) for i, (a, b) in enumerate(zip(c["model"]["parts"], c["data"]["parts"]))]
    d = c["dims"]
    if c["work"] == "same":
        return None
    if c["work"] == "local":
        return gen.fill(c["fill"], d, c["dtype"], 20), gen.fill(c["fill"], (d[-1],) * 2, c["dtype"], 21) if len(d) > 1 else None
    if c["work"] == "ghost":
        return gen.fill(c["fill"], (3,), c["dtype"], 22)
    return gen.fill(c["fill"], (int(np.prod(d)),) * 2, c["dtype"], 23)


def own_dense(c):
    w = own_numbers(c)
    if c["work"] == "stack":
        return block_diag(w)
    if c["work"] == "gather":
        return w
    size = int(np.prod(c["dims"]))
    if c["work"] == "same":
        return np.eye(size, dtype=c["dtype"])
    if c["work"] == "ghost":
        rows = c["dims"][0]
        return along(c["dims"], 0, sum(v * np.eye(rows, k=k) for v, k in zip(w, (-1, 0, 1))).astype(c["dtype"]))
    a = np.eye(size) if w[1] is None else along(c["dims"], len(c["dims"]) - 1, w[1])
    return (w[0].reshape(-1, 1) * a).astype(c["dtype"])


def own_op(env, c, on):
    pm = env.pm
    from pylops_mpi.utils.decorators import reshaped
    D, w = pm.DistributedArray, own_numbers(c)

    def part(g, x):
        return gen.cut(g, gen.balanced(c["dims"][0], x.size))[x.rank]

    def work(self, x, adj):
        self.seen.append({"local": np.array(x.local_array), "gshape": tuple(int(v) for v in x.global_shape),
                          "lshape": tuple(int(v) for v in x.local_shape), "axis": x.axis, "kind": x.partition.name,
                          "dtype": str(x.local_array.dtype), "comm": x.base_comm is self.base_comm})
        kw = dict(base_comm=x.base_comm, engine=x.engine, dtype=self.dtype)
        loc = x.local_array
        if c["work"] == "stack":
            m = w[x.rank]
            y = D(global_shape=self.shape[1 if adj else 0],
                  local_shapes=self.local_shapes_m if adj else self.local_shapes_n, **kw)
            y[:] = m.conj().T @ loc if adj else m @ loc
            return y
        if c["work"] == "same" and x.local_array.dtype == self.dtype:
            return x.ravel() if c["flat"] is True else x
        y = D(global_shape=x.global_shape, **kw)
        if c["work"] == "same":
            y[:] = loc
        elif c["work"] == "gather":
            y[:] = part(((w.conj().T if adj else w) @ x.asarray().ravel()).reshape(c["dims"]), x)
        elif c["work"] == "ghost":
            a = w.conj()[::-1] if adj else w
            g = x.add_ghost_cells(cells_front=1, cells_back=1)
            front, back = x.rank > 0, x.rank < x.size - 1
            none = np.zeros((1,) + g.shape[1:], dtype=g.dtype)
            g = np.concatenate(([] if front else [none]) + [g] + ([] if back else [none]))
            y[:] = a[0] * g[:-2] + a[1] * g[1:-1] + a[2] * g[2:]
        else:
            d, m = part(w[0], x), w[1]
            if adj:
                z = d.conj() * loc
                y[:] = z if m is None else z @ m.conj()
            else:
                y[:] = d * (loc if m is None else loc @ m.T)
        if c["spoil"]:  # what it was given is its own
            x[:] = 3
        if c["flat"] == "turned":  # a grid scattered along its second axis, whose parts in turn make up the same vector
            z = D(global_shape=(int(np.prod(c["dims"][1:], dtype=int)), c["dims"][0]), axis=1, **kw)
            z[:] = y.local_array.reshape(z.local_shape)
            return z
        return y.ravel() if c["flat"] else y

    def forward(self, x):
        """Forward."""
        return work(self, x, False)

    def adjoint(self, x):
        return work(self, x, True)
    stack = c["work"] == "stack"
    if c["deco"] == "bare":
        forward, adjoint = reshaped(forward), reshaped(adjoint)
    elif c["deco"] == "called":
        forward, adjoint = reshaped()(forward), reshaped()(adjoint)
    else:
        forward, adjoint = (reshaped(forward=f, stacking=stack)(g) for f, g in ((True, forward), (False, adjoint)))

    class Own(pm.MPILinearOperator):
        def __init__(self):
            self.seen = []
            if stack:
                self.local_shapes_m = [(v,) for v in c["model"]["parts"]]
                self.local_shapes_n = [(v,) for v in c["data"]["parts"]]
            else:
                self.dims = tuple(c["dims"])
            super().__init__(shape=(c["data"]["size"], c["model"]["size"]), dtype=np.dtype(c["dtype"]), **on)
    Own._matvec, Own._rmatvec = forward, adjoint
    return Own()


def fredholm_G(c):
    return gen.fill(c["fill"], (sum(c["slices"]), c["nx"], c["ny"]), c["dtype"], 6)


def leaf_dense(c):
    k = c["op"]
    if k in MORE:
        return MORE[k][1](c)
    if k == "blockdiag":
        return block_diag([block_dense(b) for bs in c["blocks"] for b in bs])
    if k == "vstack":
        return np.vstack([block_dense(b) for bs in c["blocks"] for b in bs])
    if k == "hstack":
        return np.hstack([block_dense(b) for bs in c["blocks"] for b in bs])
    if k == "wrap":
        return block_dense(c["block"])
    if k in ("first", "second"):
        s = (first_stencil(c["dims"][0], c["kind"], c["order"], c["edge"]) / c["samp"] if k == "first" else
             second_stencil(c["dims"][0], c["kind"], c["edge"]) / c["samp"] ** 2)
        return np.kron(s, np.eye(int(np.prod(c["dims"][1:]))))
    if k == "user":
        return np.diag(user_diag(c))
    if k == "own":
        return own_dense(c)
    if k == "gradient":
        samp = c["samp"] if isinstance(c["samp"], list) else [c["samp"]] * len(c["dims"])
        return np.vstack([along(c["dims"], i, first_stencil(d, c["kind"], 3, c["edge"]) / samp[i])
                          for i, d in enumerate(c["dims"])])
    if k == "laplacian":
        out = 0
        for i, (ax, w, h) in enumerate(zip(c["axes"], c["weights"], c["samp"])):
            # (as in serial PyLops, the kind is that of the first axis given)
            d = second_stencil(c["dims"][ax], c["kind"] if i == 0 else "centered", c["edge"])
            out = out + w * along(c["dims"], ax % len(c["dims"]), d / h ** 2)
        return out
    if k == "fredholm":
        G = fredholm_G(c)
        return block_diag([np.kron(g, np.eye(c["nz"])) for g in G])
    raise KeyError(k)


def as_given(v):
    return tuple(v) if isinstance(v, list) else v


def along(dims, axis, a):
    """The matrix a applied along one axis of a grid."""
    return np.kron(np.kron(np.eye(int(np.prod(dims[:axis]))), a), np.eye(int(np.prod(dims[axis + 1:]))))


def first_stencil(n, kind, order=3, edge=False):
    """The matrix of the first derivative along an axis of n samples, unit sampling (from its documentation)."""
    a = np.zeros((n, n))
    if kind == "forward":
        for i in range(n - 1):
            a[i, i], a[i, i + 1] = -1, 1
    elif kind == "backward":
        for i in range(1, n):
            a[i, i - 1], a[i, i] = -1, 1
    elif order == 3:
        for i in range(1, n - 1):
            a[i, i - 1], a[i, i + 1] = -0.5, 0.5
        if edge:
            a[0, :2] = -1, 1
            a[-1, -2:] = -1, 1
    else:
        for i in range(2, n - 2):
            a[i, i - 2:i + 3] = np.array([1, -8, 0, 8, -1]) / 12
        if edge:
            a[0, :2] = -1, 1
            a[1, :3] = -0.5, 0, 0.5
            a[-2, -3:] = -0.5, 0, 0.5
            a[-1, -2:] = -1, 1
    return a


def second_stencil(n, kind, edge=False):
    a = np.zeros((n, n))
    if kind == "forward":
        for i in range(n - 2):
            a[i, i:i + 3] = 1, -2, 1
    elif kind == "backward":
        for i in range(2, n):
            a[i, i - 2:i + 1] = 1, -2, 1
    else:
        for i in range(1, n - 1):
            a[i, i - 1:i + 2] = 1, -2, 1
        if edge:
            a[0, :3] = 1, -2, 1
            a[-1, -3:] = 1, -2, 1
    return a


# -- vectors ---------------------------------------------------------------------------------------------------------
def x_dtype(draw, dtype):
    """A dtype of vectors that the operator's dtype covers."""
    return draw(st.sampled_from([t for t in gen.FLOATS if np.result_type(t, dtype) == np.dtype(dtype)]))


def tol(*dts):
    return 64 * core.eps_of(*dts)


def scale(A, x):
    return max(core.TINY, float(np.max(np.abs(A) @ np.abs(x), initial=0.0)))


def obs(env, y, comm=None):
    comm = env.comm if comm is None else comm
    return {"local": np.array(y.local_array), "lshape": tuple(int(v) for v in y.local_shape),
            "gshape": tuple(int(v) for v in y.global_shape), "kind": y.partition.name, "dtype": str(y.local_array.dtype),
            "mask": None if y.mask is None else [int(v) for v in y.mask], "comm": y.base_comm is comm,
            "global": np.array(y.asarray())}


def check(what, r, s, space, want, n, tol_, sc, dtype=None, mask=None):
    loc = cut(space, want, n)[r]
    kind = {"S": "SCATTER", "B": "BROADCAST", "U": "UNSAFE_BROADCAST"}[space["kind"]]
    for k, got, exp in (("global shape", s["gshape"], want.shape), ("local shape", s["lshape"], loc.shape),
                        ("partition", s["kind"], kind), ("communicator", s["comm"], True), ("mask", s["mask"], mask)):
        if got != exp:
            return f"rank {r}: {what}: {k} is {got}, expected {exp}"
    t = core.first(core.expect_close(f"rank {r}: {what}: global view", s["global"], want, tol_, sc),
                   core.expect_close(f"rank {r}: {what}: local part", s["local"], loc, tol_, sc))
    if t:
        return t
    if dtype is not None and np.dtype(s["dtype"]) != np.dtype(dtype):
        return f"rank {r}: {what}: dtype is {s['dtype']}, expected {dtype}"
    return None
