"""C29: solvers give the same however they are driven."""
import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import solve
from core import Sub

RULE = ("problems as for C21 and C22 (ranks without elements included); driven by the one-call function, the object, setup and "
        "steps, runs in pieces, an object used before, progress shown, callbacks of both kinds, another limit; non-trivial: more "
        "than one rank and at least one iteration")

MODES = ("show", "callback", "watched", "solve", "steps", "pieces", "reuse", "fewer", "poked", "defaults")


def g_drive(draw, n):
    c = solve.draw_problem(draw, n, draw(st.sampled_from(("cg", "cgls"))))
    c["modes"] = draw(st.lists(st.sampled_from(MODES), min_size=1, max_size=4, unique=True))
    c["itershow"] = [draw(st.integers(0, 4)), draw(st.sampled_from((0, 1, 2, 3, 4, 9))), draw(st.integers(1, 5))]
    c["stepshow"] = draw(st.booleans())
    c["cuts"] = sorted(draw(st.lists(st.integers(0, max(1, c["niter"])), max_size=3)))
    c["k"] = draw(st.integers(0, c["niter"]))
    c["other"] = {"y": gen.recipe(draw), "x0": gen.recipe(draw), "niter": draw(st.integers(0, 3)),
                  "damp": draw(st.sampled_from((0.0, 2.0, -1.0))), "tol": draw(st.sampled_from((0.0, 1e30)))}
    return c


def s_drive(env, c):
    import pylops_mpi.optimization.cls_basic as cls
    from pylops.optimization.callback import Callbacks
    cg = c["solver"] == "cg"
    fun = env.pm.cg if cg else env.pm.cgls
    Cls = cls.CG if cg else cls.CGLS
    kw = {"tol": c["tol"]} if cg else {"tol": c["tol"], "damp": c["damp"]}
    op, y, x0 = solve.setup(env, c)
    ky, kx = solve.keep(y), solve.keep(x0)
    it = tuple(c["itershow"])

    def state(res):
        res = (res[0], *[np.array(v) for v in res[1:]])
        return {"x": expr.obs(env, res[0]), "rest": res[1:]}

    def ended(s, x):
        return state((x, s.iiter, s.cost) if cg else (x, s.istop, s.iiter, s.r1norm, s.r2norm, s.cost))

    def loc(x):
        return [np.array(a.local_array) for a in expr.arrays(x)]

    out = {"base": state(fun(op, y, x0, niter=c["niter"], **kw))}
    for m in c["modes"]:
        if m == "show":
            o = state(fun(op, y, x0, niter=c["niter"], show=True, itershow=it, **kw))
        elif m == "callback":
            seen = []
            o = state(fun(op, y, x0, niter=c["niter"], callback=lambda x: seen.append(loc(x)), **kw))
            o["seen"] = seen
        elif m == "watched":
            calls, seen = [], []

            class W(Callbacks):
                def on_setup_begin(self, s, x):
                    calls.append("setup")

                def on_setup_end(self, s, x):
                    calls.append("set up")

                def on_run_begin(self, s, x):
                    calls.append("run")

                def on_run_end(self, s, x):
                    calls.append("ran")

                def on_step_begin(self, s, x):
                    calls.append(f"step {s.iiter}")

                def on_step_end(self, s, x):
                    calls.append(f"stepped {s.iiter}")
                    seen.append(loc(x))
            o = state(Cls(op, callbacks=[W()]).solve(y, x0, niter=c["niter"], **kw))
            o["calls"], o["seen"] = calls, seen
        elif m == "solve":
            o = state(Cls(op).solve(y, x0, niter=c["niter"], show=c["stepshow"], itershow=it, **kw))
        elif m == "reuse":
            s, q = Cls(op), c["other"]
            okw = {"tol": q["tol"]} if cg else {"tol": q["tol"], "damp": q["damp"]}
            y1 = expr.vector(env, c["data"], gen.fill(q["y"], (c["data"]["size"],), c["dtype"], 15))
            x1 = expr.vector(env, c["model"], gen.fill(q["x0"], (c["model"]["size"],), c["dtype"], 16))
            s.solve(y1, x1, niter=q["niter"], **okw)
            o = state(s.solve(y, x0, niter=c["niter"], **kw))
        elif m == "steps":
            s = Cls(op)
            x = s.setup(y, x0, show=c["stepshow"], **kw)
            while s.iiter < c["niter"] and s.kold > c["tol"]:
                x = s.step(x, c["stepshow"])
            s.finalize(c["stepshow"])
            o = ended(s, x)
        elif m == "pieces":
            s = Cls(op)
            x = s.setup(y, x0, niter=c["niter"], **kw)
            for k in c["cuts"]:
                x = s.run(x, min(k, c["niter"]), show=c["stepshow"], itershow=it)
            x = s.run(x)
            s.finalize()
            o = ended(s, x)
        elif m == "defaults":
            # (deterministic, so the same even where rounding is all that is left)
            full = {"niter": 10, "tol": 1e-4, **({} if cg else {"damp": 0.0})}
            o = state(fun(op, y, x0))
            o["full"] = state(fun(op, y, x0, **full))
            o["object"] = state(Cls(op).solve(y, x0))
        elif m == "fewer":
            seen = []
            fun(op, y, x0, niter=c["niter"], callback=lambda x: seen.append(loc(x)), **kw)
            o = state(fun(op, y, x0, niter=c["k"], **kw))
            o["seen"] = seen
        else:
            # what setup hands out is the solver's own
            s = Cls(op)
            x = s.setup(y, x0, niter=c["niter"], **kw)
            for a in expr.arrays(x):
                if a.local_array.size:
                    a.local_array[...] = 3
            o = state(fun(op, y, x0, niter=c["niter"], **kw))
        out[m] = o
    out["kept"] = all(core.same(a, b) for k, v in ((ky, y), (kx, x0)) for a, b in zip(k, solve.keep(v)))
    return out


def diff(c, what, got, want):
    if not core.same(got["x"]["global"], want["x"]["global"]):
        return f"{what}: solution {core.short(got['x']['global'])} instead of {core.short(want['x']['global'])}"
    for i, (a, b) in enumerate(zip(got["x"]["of"], want["x"]["of"])):
        if not core.same(a["local"], b["local"]) or any(a[k] != b[k] for k in ("gshape", "lshape", "kind", "comm", "mask", "dtype")):
            return f"{what}: array {i} of the solution differs"
    names = ("iterations", "cost") if c["solver"] == "cg" else ("status", "iterations", "r1norm", "r2norm", "cost")
    for k, a, b in zip(names, got["rest"], want["rest"]):
        if not core.same(a, b):
            return f"{what}: {k} {core.short(a)} instead of {core.short(b)}"
    return None


def j_drive(c, o):
    cg = c["solver"] == "cg"
    for r, v in enumerate(o.values()):
        base = v["base"]
        it = int(base["rest"][0 if cg else 1])
        if not v["kept"]:
            return f"rank {r}: the data or the guess changed"
        for m in c["modes"]:
            got = v[m]
            what = f"rank {r}: {m}"
            if m == "defaults":
                t = diff(c, what, got, got["full"]) or diff(c, what + " of the object", got["object"], got["full"])
                if t:
                    return t
            elif m != "fewer":
                t = diff(c, what, got, base)
                if t:
                    return t
            if "seen" in got:
                if len(got["seen"]) != it:
                    return f"{what}: {len(got['seen'])} calls for {it} iterations"
                last = [a["local"] for a in base["x"]["of"]]
                if it and not all(core.same(a, b) for a, b in zip(got["seen"][-1], last)):
                    return f"{what}: the last call was not given the solution"
            if m == "watched":
                want = ["setup", "set up", "run"] + [s for k in range(it) for s in (f"step {k}", f"stepped {k + 1}")] + ["ran"]
                if got["calls"] != want:
                    return f"{what}: calls {got['calls']}, expected {want}"
            if m == "fewer":
                k = min(c["k"], it)
                i = 0 if cg else 1
                if int(got["rest"][i]) != k:
                    return f"{what}: {int(got['rest'][i])} iterations, expected {k}"
                if not core.same(got["rest"][-1], base["rest"][-1][:k + 1]):
                    return f"{what}: the history is not the beginning of the longer one"
                if k and not all(core.same(a, b["local"]) for a, b in zip(got["seen"][k - 1], got["x"]["of"])):
                    return f"{what}: the solution after {k} iterations is not what call {k} was given"
    return None


EFFORT = 1
SUBS = [Sub("drive", g_drive, s_drive, j_drive, quick=400, thorough=20000, real=6, ranks=(1, 5),
            nontrivial=lambda c: c["n"] > 1 and c["niter"] > 0,
            label=lambda c: c["modes"] + [c["solver"], "tolerance" if c["tol"] else "no tolerance", f"iterations<={min(4, c['niter'])}",
                                          "stack" if "K" in c["model"]["kind"] + c["data"]["kind"] else "plain"])]
KNOWN = {}
