"""C20: multi-dimensional convolution over distributed frequencies is the serial one."""
import numpy as np
from hypothesis import strategies as st

import core
import gen
import zoo
from core import Sub

RULE = ("2-4 frequencies per rank (uneven), 1-4 sources and receivers, 1-3 virtual sources, length, sidedness, conjugation, scaling, "
        "sampling, both ways of computing, stored adjoint or not, precision; non-trivial: more than one rank")


def g_mdc(draw, n):
    dt = draw(st.sampled_from(("complex128", "complex128", "complex64")))
    fr = [draw(st.integers(2, 4)) for _ in range(n)]
    two = draw(st.booleans())
    nf = sum(fr)
    # as many frequencies as the length has, or more
    nt = 2 * nf - 1 + draw(st.sampled_from((0, 0, 2, 4, 1, 3)))
    if two and nt % 2 == 0:
        nt += 1
    if int(np.ceil((nt + 1) / 2)) < nf:
        nt += 1
    return {"slices": fr, "ns": draw(st.sampled_from((2, 3, 1, 4))), "nr": draw(st.sampled_from((2, 3, 4, 1))), "nv": draw(st.integers(1, 3)), "nt": nt,
            "twosided": two, "conj": draw(st.booleans()), "prescaled": draw(st.booleans()), "saveGt": draw(st.booleans()),
            "usematmul": draw(st.booleans()), "dt": draw(st.sampled_from((1.0, 0.5, 0.004))),
            "dr": draw(st.sampled_from((1.0, 2.0))), "dtype": dt, "g": gen.recipe(draw, tiny=True), "x": gen.recipe(draw, tiny=True),
            "v": gen.recipe(draw, tiny=True), "engine": draw(st.sampled_from(("numpy", "numpy", "scipy"))),
            "omit": draw(st.booleans())}


def kernel(c):
    return gen.fill(c["g"], (sum(c["slices"]), c["ns"], c["nr"]), c["dtype"], 1)


def rdtype(c):
    return np.zeros(1, dtype=c["dtype"]).real.dtype


def vec(c, which):
    return gen.fill(c[which], (c["nt"] * c["nr" if which == "x" else "ns"] * c["nv"],), rdtype(c), 2 if which == "x" else 3)


def opts(c):
    return dict(dt=c["dt"], dr=c["dr"], twosided=c["twosided"], saveGt=c["saveGt"], conj=c["conj"], usematmul=c["usematmul"],
                prescaled=c["prescaled"], fftengine=c["engine"])


DEFAULT = dict(dt=1.0, dr=1.0, twosided=True, saveGt=True, conj=False, usematmul=False, prescaled=False, fftengine="numpy")


def make(env, c, comm=None):
    comm = env.comm if comm is None else comm
    r = comm.Get_rank()
    o = gen.offsets(c["slices"])
    return env.pm.waveeqprocessing.MPIMDC(kernel(c)[o[r]:o[r + 1]].copy(), c["nt"], c["nv"], sum(c["slices"]), base_comm=comm,
                                          **zoo.unless_default(c, opts(c), **DEFAULT))


def serial(c):
    """The serial forward and adjoint (which need two sources and receivers at least: the others are made up, and mute)."""
    from pylops.waveeqprocessing import MDC
    ns, nr = max(2, c["ns"]), max(2, c["nr"])
    S = MDC(np.pad(kernel(c), ((0, 0), (0, ns - c["ns"]), (0, nr - c["nr"]))), c["nt"], c["nv"], **opts(c))

    def run(fun, g, n, n1, m):
        g = np.pad(g.reshape(c["nt"], n, c["nv"]), ((0, 0), (0, n1 - n), (0, 0)))
        return np.asarray(fun(g.ravel())).reshape(c["nt"], -1, c["nv"])[:, :m].ravel()
    return lambda g: run(S.matvec, g, c["nr"], nr, c["ns"]), lambda g: run(S.rmatvec, g, c["ns"], ns, c["nr"])


def s_mdc(env, c, comm=None):
    op = make(env, c, comm)
    comm = env.comm if comm is None else comm
    out = {"shape": tuple(int(v) for v in op.shape), "dtype": str(np.dtype(op.dtype)), "comm": op.base_comm is comm}
    for which in "xv":
        g = vec(c, which)
        x = env.pm.DistributedArray.to_dist(g, base_comm=comm, partition=env.P.BROADCAST)
        y = op.matvec(x) if which == "x" else op.rmatvec(x)
        out[which] = zoo.obs(env, y, comm)
        out[which]["kept"] = core.same(x.local_array, g)
        y[:] = 0
        y = op @ x if which == "x" else op.H @ x
        out[which]["again"] = np.array(y.local_array)
    return out


def j_mdc(c, o):
    forward, adjoint = serial(c)
    shape = (c["nt"] * c["ns"] * c["nv"], c["nt"] * c["nr"] * c["nv"])
    G = kernel(c)
    size = (1.0 if c["prescaled"] else c["dr"] * c["dt"] * np.sqrt(c["nt"])) * float(np.sqrt(np.max(np.sum(
        np.abs(G) ** 2, axis=(1, 2)))))
    for which in "xv":
        g = vec(c, which)
        want = (forward if which == "x" else adjoint)(g)
        sc = max(float(np.max(np.abs(want), initial=0.0)), size * float(np.linalg.norm(g)))
        space = zoo.space_B(shape[0 if which == "x" else 1])
        for r, v in enumerate(o.values()):
            if v["shape"] != shape or not v["comm"] or np.dtype(v["dtype"]) != rdtype(c):
                return f"rank {r}: operator of shape {v['shape']}, dtype {v['dtype']}, its communicator {v['comm']}"
            what = "forward" if which == "x" else "adjoint"
            # (the single-precision FFT options compute in double or single precision)
            t = core.first(zoo.check(what, r, v[which], space, np.asarray(want), c["n"], 256 * core.eps_of(c["dtype"]), max(sc, 1e-30)),
                           core.expect_same(f"rank {r}: {what}, applied again", v[which]["again"], v[which]["local"]))
            if t:
                return t
            if not v[which]["kept"]:
                return f"rank {r}: {what}: the vector changed"
            if not core.same(v[which]["local"], o.values()[0][which]["local"]):
                return f"rank {r}: {what}: the replicated result is not that of rank 0"
    return None


def g_even(draw, n):
    c = g_mdc(draw, n)
    c["nt"] += c["nt"] % 2 if draw(st.booleans()) else 1 - c["nt"] % 2
    return c


def s_even(env, c):
    try:
        op = make(env, c)
    except ValueError:
        return "refused", env.comm.allreduce(1)
    return tuple(int(v) for v in op.shape), env.comm.allreduce(1)


def j_even(c, o):
    want = "refused" if c["twosided"] and c["nt"] % 2 == 0 else (c["nt"] * c["ns"] * c["nv"], c["nt"] * c["nr"] * c["nv"])
    for r, v in enumerate(o.values()):
        if v != (want, c["n"]):
            return f"rank {r}: {v}, expected {want}"
    return None


SUBS = [Sub("mdc", g_mdc, s_mdc, j_mdc, quick=500, thorough=20000, real=5, ranks=(1, 5),
            label=lambda c: ["two-sided" if c["twosided"] else "one-sided", "conj" if c["conj"] else "plain", c["dtype"],
                             f"nv={c['nv']}", f"matmul={c['usematmul']}", f"saveGt={c['saveGt']}", c["engine"]]),
        Sub("even", g_even, s_even, j_even, quick=100, thorough=1000, real=2, ranks=(1, 5),
            label=lambda c: ["refused" if c["twosided"] and c["nt"] % 2 == 0 else "accepted"])]
KNOWN = {}
