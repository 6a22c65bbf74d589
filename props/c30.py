"""C30: a serial operator wrapped for distributed use acts on replicated vectors as it does serially."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import zoo
from core import Sub

RULE = ("serial operator (matrix, finite differences, Fourier transforms, restriction, padding, spreading, stacks, sums, chains, "
        "scaled and adjoint views ...), its or a requested dtype, broadcast or unsafely broadcast vectors, via the class, the "
        "converter or products of wrapped operators; non-trivial: more than one rank")

KINDS = ("matrix", "diagonal", "first", "second", "restriction", "pad", "sum", "fft", "ifft", "vstack", "hstack", "blockdiag", "chain",
         "sumop", "scaled", "adjoint", "transpose", "roll", "flip", "symmetrize", "integral", "smoothing", "complex chain", "zero",
         "identity", "conj", "sparse")


def g_wrap(draw, n):
    k = draw(st.sampled_from(KINDS))
    dt = draw(st.sampled_from(("complex128", "complex64") if k == "complex chain" else gen.FLOATS))
    c = {"op": k, "dtype": dt, "m": draw(st.integers(1, 6)), "k": draw(st.integers(1, 6)), "fill": gen.recipe(draw),
         "x": gen.recipe(draw), "v": gen.recipe(draw), "unsafe": draw(st.booleans()), "want": None,
         "how": draw(st.sampled_from(("class", "class", "converter", "twice"))), "style": draw(st.sampled_from(("matvec", "mul", "matmul", "dot"))),
         "adj": draw(st.sampled_from(("rmatvec", "H")))}
    if c["how"] == "class" and draw(st.integers(0, 2)) == 0:
        # a dtype that covers the operator's
        c["want"] = draw(st.sampled_from([t for t in gen.FLOATS if np.result_type(t, serial(c).dtype) == np.dtype(t)] or [None]))
    return c


def serial(c):
    import pylops
    import scipy.sparse as sp
    k, dt, m, n = c["op"], np.dtype(c["dtype"]), c["m"], c["k"]

    def mat(a, b, s=0):
        return pylops.MatrixMult(gen.fill(c["fill"], (a, b), dt, 10 + s), dtype=dt)
    if k == "matrix":
        return mat(m, n)
    if k == "sparse":
        return pylops.MatrixMult(sp.csr_matrix(gen.fill(c["fill"], (m, n), dt, 10)), dtype=dt)
    if k == "diagonal":
        return pylops.Diagonal(gen.fill(c["fill"], (n,), dt, 11), dtype=dt)
    if k == "first":
        return pylops.FirstDerivative((n + 2, m), axis=0, dtype=dt)
    if k == "second":
        return pylops.SecondDerivative((m, n + 2), axis=1, dtype=dt)
    if k == "restriction":
        return pylops.Restriction(n + 2, np.arange(0, n + 2, 2), dtype=dt)
    if k == "pad":
        return pylops.Pad((m, n), ((1, 0), (0, 2)), dtype=dt)
    if k == "sum":
        return pylops.Sum((m, n + 1), axis=0, dtype=dt)
    if k in ("fft", "ifft"):
        r = k == "fft" and dt.kind == "f"
        op = pylops.signalprocessing.FFT(2 * n + 2, real=r, dtype=dt)
        return op if k == "fft" else op.H
    if k == "vstack":
        return pylops.VStack([mat(m, n), mat(2, n, 1)], dtype=dt)
    if k == "hstack":
        return pylops.HStack([mat(m, n), mat(m, 2, 1)], dtype=dt)
    if k == "blockdiag":
        return pylops.BlockDiag([mat(m, n), mat(2, 1, 1)], dtype=dt)
    if k in ("chain", "complex chain"):
        return mat(m, 3) @ mat(3, n, 1)
    if k == "sumop":
        return mat(m, n) + 2 * mat(m, n, 1)
    if k == "scaled":
        return -1.5 * mat(m, n)
    if k == "adjoint":
        return mat(m, n).H
    if k == "transpose":
        return mat(m, n).T
    if k == "conj":
        return mat(m, n).conj()
    if k == "roll":
        return pylops.Roll(n + 1, shift=2, dtype=dt)
    if k == "flip":
        return pylops.Flip((m, n), axis=1, dtype=dt)
    if k == "symmetrize":
        return pylops.Symmetrize(n + 1, dtype=dt)
    if k == "integral":
        return pylops.CausalIntegration(n + 1, dtype=dt)
    if k == "smoothing":
        return pylops.Smoothing1D(3, n + 3, dtype=dt)
    if k == "zero":
        return pylops.Zero(m, n, dtype=dt)
    if k == "identity":
        return pylops.Identity(m, n, dtype=dt)
    raise KeyError(k)


def dtypes(c):
    """Of the results, and of vectors for each mode."""
    S = serial(c)
    dt = np.dtype(c["want"] or S.dtype)
    # real transforms take real vectors to complex ones and back
    real = c["op"] == "fft" and np.dtype(c["dtype"]).kind == "f"
    rd = np.zeros(1, S.dtype).real.dtype
    return dt, (rd if real else S.dtype), S.dtype


def vec(c, which):
    S = serial(c)
    dt, xd, vd = dtypes(c)
    return gen.fill(c[which], (S.shape[1 if which == "x" else 0],), xd if which == "x" else vd, 1 if which == "x" else 2)


def s_wrap(env, c):
    S = serial(c)
    if c["how"] == "class":
        op = env.pm.MPILinearOperator(Op=S, dtype=c["want"], base_comm=env.comm)
    else:
        op = env.pm.asmpilinearoperator(S)
    same = True
    if c["how"] == "twice":
        same = env.pm.asmpilinearoperator(op) is op
    out = {"shape": tuple(int(v) for v in op.shape), "dtype": str(np.dtype(op.dtype)), "same": same,
           "is": isinstance(op, env.pm.MPILinearOperator)}
    for which in "xv":
        g = vec(c, which)
        x = env.pm.DistributedArray.to_dist(g, partition=env.P.UNSAFE_BROADCAST if c["unsafe"] else env.P.BROADCAST)
        A = op if which == "x" else op.H
        if which == "v" and c["adj"] == "rmatvec":
            y = op.rmatvec(x)
        else:
            y = {"matvec": A.matvec, "dot": A.dot, "mul": lambda q: A * q, "matmul": lambda q: A @ q}[c["style"]](x)
        o = zoo.obs(env, y)
        o["comm"] = True  # (the converter takes no communicator: see C27)
        y[:] = 0
        o["kept"] = core.same(x.local_array, g)
        out[which] = o
    return out


def j_wrap(c, o):
    S = serial(c)
    dt = dtypes(c)[0]
    n = c["n"]
    for r, v in enumerate(o.values()):
        if v["shape"] != tuple(S.shape) or np.dtype(v["dtype"]) != dt or not v["same"] or not v["is"]:
            return (f"rank {r}: operator of shape {v['shape']}, dtype {v['dtype']}, distributed {v['is']}, itself when converted "
                    f"again {v['same']}; expected {S.shape}, {dt}")
    for which in "xv":
        g = vec(c, which)
        want = np.asarray(S.matvec(g) if which == "x" else S.rmatvec(g))
        if dt.kind != "c" and want.dtype.kind == "c":
            want = want.real
        sc = max(1.0, float(np.sum(np.abs(g))) * 40)
        space = zoo.space_B(len(want))
        if c["unsafe"]:
            space["kind"] = "U"
        for r, v in enumerate(o.values()):
            t = zoo.check("forward" if which == "x" else "adjoint", r, v[which], space, want, n,
                          16 * core.eps_of(dt, S.dtype, g.dtype), sc, dt)
            if t:
                return t
            if not v[which]["kept"]:
                return f"rank {r}: the vector changed, or the result shares its memory"
    return None


SUBS = [Sub("wrap", g_wrap, s_wrap, j_wrap, quick=1500, thorough=40000, real=8,
            label=lambda c: [c["op"], c["dtype"], c["how"], "requested dtype" if c["want"] else "own dtype"])]
KNOWN = {}
