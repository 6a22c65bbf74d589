"""C31: solvers report their progress at the first rank only, when asked, on the steps asked for, and truthfully."""
import re
import time

import numpy as np
from hypothesis import strategies as st

import core
import expr
import groups
import ranks
import solve
from core import Sub

RULE = ("problems as for C21 and C22, run by the one-call function, the object, in pieces or step by step, by all ranks or groups of them; shown or not, any choice of "
        "steps to show; non-trivial: more than one rank and at least one iteration shown")

DRIVES = ("call", "call", "solve", "pieces", "steps")


def g_show(draw, n):
    c = solve.draw_problem(draw, n, draw(st.sampled_from(("cg", "cgls"))))
    c["drive"] = draw(st.sampled_from(DRIVES))
    c["show"] = draw(st.integers(0, 3)) > 0
    c["said"] = draw(st.booleans())  # show=False given, or left to its default
    c["itershow"] = [draw(st.sampled_from((0, 1, 2, 3, 4, 11))), draw(st.sampled_from((0, 1, 2, 3, 4, 9))), draw(st.sampled_from((1, 2, 3, 4, 5, 10)))]
    c["steps"] = draw(st.lists(st.booleans(), min_size=8, max_size=8))
    c["ends"] = [draw(st.booleans()), draw(st.booleans())]
    c["limit"] = draw(st.booleans())
    c["cut"] = draw(st.integers(0, max(1, c["niter"])))
    return c


def cell(x):
    """The first cell the rank holds."""
    a = expr.arrays(x)[0].local_array
    return None if a.size == 0 else complex(a.ravel()[0])


def s_show(env, c, comm=None):
    import pylops_mpi.optimization.cls_basic as cls
    cg = c["solver"] == "cg"
    fun, Cls = (env.pm.cg, cls.CG) if cg else (env.pm.cgls, cls.CGLS)
    kw = {"tol": c["tol"]} if cg else {"tol": c["tol"], "damp": c["damp"]}
    op, y, x0 = solve.setup(env, c, comm)
    how = {"show": True, "itershow": tuple(c["itershow"])} if c["show"] else {"show": False} if c["said"] else {}
    cells, made, cost1 = [cell(x0)], time.time(), None
    out = {"shape": tuple(int(v) for v in op.shape)}
    with ranks.printed() as said:
        if c["drive"] == "call":
            res = fun(op, y, x0, niter=c["niter"], callback=lambda x: cells.append(cell(x)), **kw, **how)
            out["it"], out["cost"] = int(res[1 if cg else 2]), np.array(res[-1])
        else:
            s = Cls(op)
            s.callback = lambda x: cells.append(cell(x))
            if c["drive"] == "solve":
                s.solve(y, x0, niter=c["niter"], **kw, **how)
            elif c["drive"] == "pieces":
                first = {k: v for k, v in how.items() if k == "show"}
                x = s.setup(y, x0, niter=c["niter"], **kw, **first)
                out["head"] = said.getvalue()
                x = s.run(x, min(c["cut"], c["niter"]), **how)
                x = s.run(x, **how)
                s.finalize(**first)
            else:
                out["steps"] = []
                x = s.setup(y, x0, show=c["ends"][0], **kw, **({"niter": c["niter"]} if c["limit"] else {}))
                out["head"] = said.getvalue()
                while s.iiter < c["niter"] and s.kold > c["tol"]:
                    x = s.step(x, c["steps"][s.iiter % 8])
                    cells.append(cell(x))
                out["steps"] = said.getvalue()[len(out["head"]):]
                s.finalize(c["ends"][1])
                out["foot"] = said.getvalue()[len(out["head"]) + len(out["steps"]):]
            out["it"], out["cost"] = int(s.iiter), np.array(s.cost)
            out["elapsed"] = (0 <= s.telapsed <= time.time() - made)
            cost1 = None if cg else np.array(s.cost1)
    out["took"] = time.time() - made
    out["said"], out["cells"], out["cost1"] = said.getvalue(), cells, cost1
    return out


NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)"


def lines(text):
    """The iteration lines: (number, middle, norms)."""
    out = []
    for s in text.splitlines():
        t = s.split()
        if len(t) >= 3 and re.fullmatch(r"\d+", t[0]) and re.fullmatch(NUM, t[-1]):
            out.append((int(t[0]), t[1:], s))
    return out


def wanted(lo, hi, niter, itershow, shown):
    """What is wrong with the steps shown of a run that did steps lo+1..hi with the limit niter."""
    a, b, k = itershow
    shown = [i for i in shown if lo < i <= hi]
    for i in range(lo + 1, hi + 1):
        if i not in shown and (i <= a or i > niter - b):
            return f"step {i} of {niter} is not shown, with itershow={itershow}"
    mid = [i for i in range(lo + 1, hi + 1) if a < i <= niter - b]
    got = [i for i in mid if i in shown]
    if len({i % k for i in got}) > 1:
        return f"steps {got} between are shown, with itershow={itershow}"
    for i in range(len(mid) - k + 1):
        if not any(j in got for j in mid[i:i + k]):
            return f"none of the steps {mid[i:i + k]} is shown, with itershow={itershow}"
    return None


def near(tok, v, rel=2e-4):
    f = float(tok)
    return (np.isnan(f) and np.isnan(v)) or abs(f - v) <= rel * abs(v) + 1e-300


def j_show(c, o):
    cg = c["solver"] == "cg"
    vs = o.values()
    for r, v in enumerate(vs):
        if "elapsed" in v and not v["elapsed"]:
            return f"rank {r}: the time taken is not that of the run"
        if r and v["said"]:
            return f"rank {r} prints {v['said'][:200]!r}"
    v = vs[0]
    shows = c["show"] if c["drive"] != "steps" else None
    if shows is False:
        return f"prints {v['said'][:200]!r}, not asked to" if v["said"] else None
    it, got = v["it"], lines(v["said"])
    nums = [g[0] for g in got]
    if nums != sorted(set(nums)) or any(not 1 <= i <= it for i in nums):
        return f"lines for the iterations {nums} of {it}"
    if shows is None:
        want = [i + 1 for i in range(it) if c["steps"][i % 8]]
        if nums != want:
            return f"shows the steps {nums}, expected {want}"
        for k, what in enumerate(("head", "foot")):
            if bool(v[what]) != c["ends"][k]:
                return f"{what} of the log: {v[what]!r}, asked for: {c['ends'][k]}"
        if lines(v["head"]) or lines(v["foot"]):
            return "steps outside of the steps"
    else:
        cut = min(c["cut"], c["niter"], it) if c["drive"] == "pieces" else 0
        t = core.first(wanted(0, cut, min(c["cut"], c["niter"]), c["itershow"], nums) if cut else None,
                       wanted(cut, it, c["niter"], c["itershow"], nums))
        if t:
            return t
    for i, toks, s in got:
        norms = [v["cost"][i]] if cg else [v["cost"][i], None if v["cost1"] is None else v["cost1"][i]]
        if len(toks) != len(norms) + 1:
            return f"line {s!r}: {len(toks)} values"
        for tok, w in zip(toks[1:], norms):
            if w is not None and not near(tok, w):
                return f"line {s!r}: {tok}, expected {w}"
        x = v["cells"][i]
        if (x is None) != (toks[0] == "-"):
            return f"line {s!r}: the first rank's first value is {x}"
        if x is not None:
            z = complex(toks[0].replace("+-", "-"))
            if abs(z.real - x.real) > 1e-2 * abs(x.real) + 1e-300 or abs(z.imag - x.imag) > 1e-2 * abs(x.imag) + 1e-300:
                return f"line {s!r}: the first rank's first value is {x}"
    head = shows or c["ends"][0]
    m = re.search(r"(\d+) rows and (\d+) col", v["said"])
    if head and (not m or tuple(map(int, m.groups())) != v["shape"]):
        return f"the operator's size is not said, or wrong: {v['said'][:200]!r}"
    m = re.search(rf"tol *= *({NUM})", v["said"])
    if head and (not m or not near(m[1], c["tol"], 1e-5)):
        return f"the tolerance is not said, or wrong: {v['said'][:300]!r}"
    m = re.search(r"niter *= *(\d+)", v["said"])
    if head and (shows or c["limit"]) and (not m or int(m[1]) != c["niter"]):
        return f"the limit is not said, or wrong: {v['said'][:300]!r}"
    foot = shows or c["ends"][1]
    m = re.search(rf"Iterations *= *(\d+) .*= *({NUM})", v["said"])
    if foot and (not m or int(m[1]) != it or not float(m[2]) <= v["took"] + 0.01):
        return f"the end of the log is missing or wrong: {v['said'][-200:]!r}, {it} iterations in {v['took']} s"
    return None


RUN = {"log": (s_show, j_show)}


def g_groups(draw, n):
    return groups.draw(draw, n, lambda d, m: {"kind": "log", "case": dict(g_show(d, m), n=m)})


SUBS = [Sub("show", g_show, s_show, j_show, quick=500, thorough=15000, real=6, ranks=(1, 5),
            nontrivial=lambda c: c["n"] > 1 and c["niter"] > 0 and (c["show"] or c["drive"] == "steps"),
            label=lambda c: [c["drive"], "shown" if c["show"] else "silent", c["solver"], c["dtype"], c["model"]["kind"],
                             f"iterations<={min(4, c['niter'])}"]),
        Sub("groups", g_groups, groups.scenario(RUN), groups.judge(RUN), quick=300, thorough=8000, real=3, ranks=(2, 6),
            nontrivial=groups.nontrivial, label=groups.labels)]
KNOWN = {}
