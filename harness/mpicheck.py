"""Random MPI programs with known results: the simulator (and, in the same way, the real MPI) is held to them."""
import numpy as np
from hypothesis import strategies as st

from core import Sub

RULE = "random sequences of MPI calls"
OPS = ("bcast", "Bcast", "allgather", "Allgather", "Allgatherv", "allreduce", "Allreduce", "reduce", "gather", "Gather",
       "scatter", "Scatter", "alltoall", "ring", "Ring", "sendrecv", "split", "dup", "barrier", "scan", "exchange")


def g_program(draw, n):
    return {"ops": [[draw(st.sampled_from(OPS)), draw(st.integers(0, n - 1)), draw(st.integers(0, 50)), draw(st.integers(1, 4))]
                    for _ in range(draw(st.integers(1, 12)))]}


def data(r, seed, k):
    return np.arange(k, dtype=float) * 3 + 100 * r + seed


def s_program(env, c):
    MPI, comm, out = env.MPI, env.comm, []
    for op, root, seed, k in c["ops"]:
        r, n = comm.Get_rank(), comm.Get_size()
        x = data(r, seed, k)
        root %= n
        res = None
        if op == "bcast":
            res = comm.bcast(x if r == root else None, root=root)
        elif op == "Bcast":
            res = x.copy()
            comm.Bcast(res, root=root)
        elif op == "allgather":
            res = comm.allgather(x)
        elif op == "Allgather":
            res = np.empty((n, k))
            comm.Allgather(x, res)
        elif op == "Allgatherv":
            cnt = [k + i for i in range(n)]
            res = np.empty(sum(cnt))
            comm.Allgatherv(data(r, seed, k + r), [res, cnt])
        elif op == "allreduce":
            res = comm.allreduce(x, op=MPI.SUM)
        elif op == "Allreduce":
            res = np.empty(k)
            comm.Allreduce(x, res, op=MPI.MAX)
        elif op == "reduce":
            res = comm.reduce(x, op=MPI.SUM, root=root)
        elif op == "gather":
            res = comm.gather(x, root=root)
        elif op == "Gather":
            res = np.empty((n, k)) if r == root else None
            comm.Gather(x, res, root=root)
        elif op == "scatter":
            res = comm.scatter([data(i, seed, k) for i in range(n)] if r == root else None, root=root)
        elif op == "Scatter":
            res = np.empty(k)
            comm.Scatter(np.array([data(i, seed, k) for i in range(n)]) if r == root else None, res, root=root)
        elif op == "alltoall":
            res = comm.alltoall([(r, i, seed) for i in range(n)])
        elif op in ("ring", "Ring"):
            if n > 1:
                to, fr = (r + 1) % n, (r - 1) % n
                q = comm.isend(x, dest=to, tag=k) if op == "ring" else comm.Isend(x, dest=to, tag=k)
                if op == "ring":
                    res = comm.recv(source=fr, tag=k)
                else:
                    res = np.empty(k)
                    comm.Recv(res, source=fr, tag=k)
                q.wait()
        elif op == "sendrecv":
            res = comm.sendrecv(x, dest=(r + 1) % n, source=(r - 1) % n)
        elif op == "exchange":  # several messages at once, taken by tag
            if r == root:
                res = [comm.recv(source=MPI.ANY_SOURCE, tag=i) for i in reversed(range(n)) if i != root]
            else:
                comm.send((r, seed), dest=root, tag=r)
        elif op == "split":
            sub = comm.Split(color=r % 2, key=-r)
            res = [sub.Get_rank(), sub.allgather(r)]
            sub.Free()
        elif op == "dup":
            d = comm.Dup()
            res = d.allreduce(1)
            d.Free()
        elif op == "barrier":
            comm.Barrier()
        elif op == "scan":
            res = comm.scan(r + seed)
        out.append(res)
    return out


def want(op, root, seed, k, n, r):
    all_ = [data(i, seed, k) for i in range(n)]
    root %= n
    return {"bcast": lambda: all_[root], "Bcast": lambda: all_[root], "allgather": lambda: all_,
            "Allgather": lambda: np.array(all_),
            "Allgatherv": lambda: np.concatenate([data(i, seed, k + i) for i in range(n)]),
            "allreduce": lambda: sum(all_), "Allreduce": lambda: all_[-1], "reduce": lambda: sum(all_) if r == root else None,
            "gather": lambda: all_ if r == root else None, "Gather": lambda: np.array(all_) if r == root else None,
            "scatter": lambda: all_[r], "Scatter": lambda: all_[r], "alltoall": lambda: [(i, r, seed) for i in range(n)],
            "ring": lambda: all_[r - 1] if n > 1 else None, "Ring": lambda: all_[r - 1] if n > 1 else None,
            "sendrecv": lambda: all_[r - 1],
            "exchange": lambda: [(i, seed) for i in reversed(range(n)) if i != root] if r == root else None,
            "split": lambda: [sorted([i for i in range(n) if i % 2 == r % 2], reverse=True).index(r),
                              sorted([i for i in range(n) if i % 2 == r % 2], reverse=True)],
            "dup": lambda: n, "barrier": lambda: None, "scan": lambda: sum(i + seed for i in range(r + 1))}[op]()


def eq(a, b):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if b is None or a is None:
        return a is b
    return np.array_equal(a, b)


def j_program(c, o):
    for r, v in enumerate(o.values()):
        for i, (op, got) in enumerate(zip(c["ops"], v)):
            w = want(*op, c["n"], r)
            if not eq(got, w):
                return f"rank {r}: call {i} {op}: {got}, expected {w}"
    return None


SUBS = [Sub("program", g_program, s_program, j_program, quick=300, thorough=3000, real=40, leftovers=True)]
KNOWN = {}
