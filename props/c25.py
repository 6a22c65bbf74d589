"""C25: inputs stay as they are and results are nobody else's memory, whatever is applied and overwritten in between."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import solve
import zoo
from core import Sub
from props import c16, c20

RULE = ("an operator of the library, an expression or a solver problem, some of its views (adjoint, transpose, conjugate, negative, "
        "multiple), and up to 12 steps that apply them to anything alive, solve, overwrite a result or an input, and look at all "
        "others; non-trivial: more than one rank and a step that overwrites")

VIEWS = ("op", "op", "H", "T", "conj", "neg", "scaled", "HH")
FLIP = ("H", "T")


def g_history(draw, n):
    how = draw(st.sampled_from(("any", "any", "solve", "mdc", "any", "identity")))
    c = {"how": how, "unsafe": draw(st.booleans())}
    if how == "solve":
        c["problem"] = solve.draw_problem(draw, n, draw(st.sampled_from(("cg", "cgls"))))
        c.update({k: c["problem"][k] for k in ("tree", "model", "data")})
        c["dt"] = c["problem"]["dtype"]
    elif how == "mdc":
        c["mdc"] = c20.g_mdc(draw, n)
        m = c["mdc"]
        c["model"], c["data"] = (zoo.space_B(m["nt"] * m[k] * m["nv"]) for k in ("nr", "ns"))
        c["dt"] = str(c20.rdtype(m))
    elif how == "identity":
        # operators that may hand back what they are given
        s = zoo.draw_space(draw, n, "SBB") if draw(st.integers(0, 3)) else expr.space_K([zoo.draw_space(draw, n, "SBB") for _ in range(2)])
        c["dt"] = draw(st.sampled_from(gen.DOUBLES))
        if draw(st.integers(0, 2)) == 0:
            leaf = zoo.draw_own(draw, n, [draw(st.integers(n, 3 * n))] + draw(st.sampled_from(([], [2]))), c["dt"], "same")
            c["tree"], s = {"t": "leaf", "leaf": leaf}, leaf["model"]
        else:
            c["tree"] = solve.eye_tree(s, c["dt"], n)
        c["model"] = c["data"] = s
    else:
        c["tree"], c["model"], c["data"] = c16.draw_any(draw, n)
        c["dt"] = "complex128" if expr.is_complex(c["tree"]) else "float64"
        expr.settle(c["tree"], c["dt"], c["dt"])
    views = [v for v in VIEWS if how != "mdc" or v in ("op", "H", "HH", "neg")]
    c["views"] = draw(st.lists(st.sampled_from(views), min_size=1, max_size=3))
    # the vectors alive: which space they are of
    alive = ["m", "d"]
    steps = []
    for _ in range(draw(st.sampled_from((2, 4, 8, 12)))):
        k = draw(st.sampled_from(("apply", "apply", "apply", "again", "write", "write", "source") + (("solve",) if how == "solve" else ())))
        if k == "apply":
            v = draw(st.integers(0, len(c["views"]) - 1))
            adj = draw(st.booleans())
            side = "d" if (c["views"][v] in FLIP) == adj else "m"
            i = draw(st.sampled_from([i for i, s in enumerate(alive) if s != side]))
            steps.append([k, v, adj, i, draw(st.sampled_from(expr.STYLES))])
            alive.append(side)
        elif k == "again":
            done = [i for i, s in enumerate(steps) if s[0] in ("apply", "solve")]
            if not done:
                continue
            steps.append(list(steps[draw(st.sampled_from(done))]))
            alive.append("m" if steps[-1][0] == "solve" else side_of(c, steps[-1]))
        elif k == "solve":
            y = draw(st.sampled_from([i for i, s in enumerate(alive) if s == "d"]))
            x = draw(st.sampled_from([i for i, s in enumerate(alive) if s == "m"]))
            steps.append([k, y, x, draw(st.integers(0, 3))])
            alive.append("m")
        elif k == "write":
            steps.append([k, draw(st.integers(0, len(alive) - 1)), draw(st.integers(-3, 3))])
        else:
            steps.append([k, draw(st.integers(0, 1))])
    c["steps"], c["x"], c["v"] = steps, gen.recipe(draw), gen.recipe(draw)
    return c


def side_of(c, step):
    return "d" if (c["views"][step[1]] in FLIP) == step[2] else "m"


def view(op, v):
    if v == "op":
        return op
    if v in ("H", "T"):
        return getattr(op, v)
    if v == "HH":
        return op.H.H
    return {"conj": lambda: op.conj(), "neg": lambda: -op, "scaled": lambda: op * 2}[v]()


class Sources:
    """Vectors made from arrays of the caller's."""

    def __init__(self, env, space, g, unsafe):
        self.space, self.parts = space, [np.array(p) for p in expr.split(space, g)]
        self.shapes = []
        D, P = env.pm.DistributedArray, env.P
        xs = []
        for s, p in zip(expr.members(space), self.parts):
            if s["kind"] == "B":
                xs.append(D.to_dist(p, partition=P.UNSAFE_BROADCAST if unsafe else P.BROADCAST))
            else:
                ls = [(int(v),) for v in s["parts"]]
                self.shapes.append((ls, list(ls)))
                xs.append(D.to_dist(p, local_shapes=ls))
        self.x = env.pm.StackedDistributedArray(xs) if space["kind"] == "K" else xs[0]
        self.kept = [p.copy() for p in self.parts]

    def same(self):
        return all(core.same(a, b) for a, b in zip(self.parts, self.kept)) and all(a == b for a, b in self.shapes)

    def write(self):
        for p in self.parts:
            p[...] = 9
        self.kept = [p.copy() for p in self.parts]


def s_history(env, c):
    if c["how"] == "mdc":
        G = c20.kernel(c["mdc"])
        o = gen.offsets(c["mdc"]["slices"])
        G = G[o[env.rank]:o[env.rank + 1]].copy()
        m = c["mdc"]
        op = env.pm.waveeqprocessing.MPIMDC(G, m["nt"], m["nv"], sum(m["slices"]), **c20.opts(m))
    else:
        op, G = expr.make(env, c["tree"]), None
        if c["tree"]["t"] == "leaf" and c["tree"]["leaf"]["op"] == "fredholm":
            leaf = c["tree"]["leaf"]
            o = gen.offsets(leaf["slices"])
            G = zoo.fredholm_G(leaf)[o[env.rank]:o[env.rank + 1]].copy()
            op = env.pm.signalprocessing.MPIFredholm1(G, nz=leaf["nz"], saveGt=leaf["saveGt"], usematmul=leaf["usematmul"],
                                                      dtype=leaf["dtype"])
    keepG = None if G is None else G.copy()
    unsafe = c["unsafe"] and (c["how"] == "identity" or c["how"] == "any" and all(
        leaf["op"] == "wrap" for leaf in expr.leaves(c["tree"])))
    src = [Sources(env, c["model"], gen.fill(c["x"], (c["model"]["size"],), c["dt"], 1), unsafe),
           Sources(env, c["data"], gen.fill(c["v"], (c["data"]["size"],), c["dt"], 2), unsafe)]
    ops = [view(op, v) for v in c["views"]]
    alive = [s.x for s in src]
    state = [solve.keep(x) for x in alive]
    version = [0, 0]
    memo = {}
    bad = []

    def note(t, step, text):
        bad.append(f"step {t} {step}: {text}")
    for t, step in enumerate(c["steps"]):
        k = step[0]
        written = None
        if k == "apply":
            _, v, adj, i, style = step
            x = alive[i]
            y = ops[v].rmatvec(x) if adj else expr.call(ops[v], x, style)
            key = (v, adj, i, version[i])
        elif k == "solve":
            _, iy, ix, niter = step
            p = c["problem"]
            kw = {"niter": niter, "tol": 0.0}
            if p["solver"] == "cg":
                y = env.pm.cg(op, alive[iy], alive[ix], **kw)[0]
            else:
                y = env.pm.cgls(op, alive[iy], alive[ix], damp=p["damp"], **kw)[0]
            key = ("s", iy, ix, niter, version[iy], version[ix])
        elif k == "write":
            written = step[1]
            for a in expr.arrays(alive[written]):
                a.local_array[...] = step[2]
            version[written] += 1
            state[written] = solve.keep(alive[written])
        else:
            src[step[1]].write()
        if k in ("apply", "solve"):
            alive.append(y)
            version.append(0)
            state.append(solve.keep(y))
            if key in memo and not all(core.same(a, b) for a, b in zip(memo[key], state[-1])):
                note(t, step, "gave another result than before, for the same vector")
            memo.setdefault(key, state[-1])
        for i, (x, s) in enumerate(zip(alive, state)):
            if not all(core.same(a, b.local_array) for a, b in zip(s, expr.arrays(x))):
                note(t, step, f"vector {i} changed")
                state[i] = solve.keep(x)
        for i, s in enumerate(src):
            if not s.same():
                note(t, step, f"the caller's array or list {i} changed")
        if G is not None and not core.same(G, keepG):
            note(t, step, "the caller's kernel changed")
    return bad, [np.array(x.asarray()) for x in alive]


def j_history(c, o):
    for r, v in enumerate(o.values()):
        if v[0]:
            return f"rank {r}: {v[0][0]}"
    # replicated vectors stay replicated, and gathered ones agree
    for i in range(len(o.values()[0][1])):
        for r, v in enumerate(o.values()):
            if not core.same(v[1][i], o.values()[0][1][i]):
                return f"rank {r}: the global view of vector {i} is not that of rank 0"
    return None


EFFORT = 4
SUBS = [Sub("history", g_history, s_history, j_history, quick=1200, thorough=40000, real=6, ranks=(1, 6),
            nontrivial=lambda c: c["n"] > 1 and any(s[0] in ("write", "source") for s in c["steps"]),
            label=lambda c: [c["how"]] + ["unsafe"] * c["unsafe"] + c["views"] + sorted({s[0] for s in c["steps"]}))]
KNOWN = {}
