"""C22: CGLS gives the textbook iterates of the damped least-squares problem and reports them faithfully."""
import json

import numpy as np
from hypothesis import strategies as st

import core
import expr
import gen
import solve
import zoo
from core import Sub

RULE = ("random distributed and stacked operators, data, guess, damping, tolerance between two of the gradient norms or none, "
        "iteration limit; block-diagonal problems solved by groups of ranks; non-trivial: more than one rank and at least one "
        "iteration")


def g_groups(draw, n):
    """Every group of ranks solves the problem of its own blocks."""
    dtype = draw(st.sampled_from(gen.DOUBLES))
    model = zoo.space_S([draw(st.integers(1, 3)) for _ in range(n)])
    data = model if draw(st.booleans()) else zoo.space_S([draw(st.integers(1, 3)) for _ in range(n)])
    leaf = zoo.draw_blockdiag(draw, n, model, data, dtype)
    mask = gen.mask(draw, n) or [r % 2 for r in range(n)]
    leaf["mask"] = mask
    c = {"n": n, "solver": "cgls", "tree": solve.small({"t": "leaf", "leaf": leaf}), "model": model, "data": data, "dtype": dtype,
         "y": gen.recipe(draw), "x0": gen.recipe(draw) if draw(st.booleans()) else None,
         "damp": draw(st.sampled_from((0.5, 1.0, 0.0, -1.0))), "mask": mask, "tol": 0.0}
    # as many iterations as every group can make
    A = expr.dense(c["tree"])
    good = 4
    for rows, cols in groups(c).values():
        lo = solve.reference(c, np.complex128 if expr.cplx(dtype) else np.float64, 4, A, rows, cols)
        hi = solve.reference(c, solve.LD[dtype], 4, A, rows, cols)
        sens = np.maximum.accumulate(solve.sensitivity(lo, hi))
        k = 0
        while k + 1 < len(sens) and sens[k + 1] < 1e-9 and float(hi[1][k]) > 1e-20 * float(hi[1][0]):
            k += 1
        good = min(good, k)
    c["niter"] = draw(st.integers(min(1, good), good))
    return c


def groups(c):
    mo, do = gen.offsets(c["model"]["parts"]), gen.offsets(c["data"]["parts"])
    out = {}
    for m in set(c["mask"]):
        rs = [r for r in range(c["n"]) if c["mask"][r] == m]
        out[m] = ([i for r in rs for i in range(do[r], do[r + 1])], [i for r in rs for i in range(mo[r], mo[r + 1])])
    return out


def s_groups(env, c):
    op = expr.make(env, c["tree"])
    y = zoo.vector(env, c["data"], solve.rhs(c), mask=c["mask"])
    x0 = zoo.vector(env, c["model"], solve.guess(c), mask=c["mask"])
    x, istop, it, r1, r2, cost = env.pm.cgls(op, y, x0, niter=c["niter"], damp=c["damp"], tol=c["tol"])
    return {"local": np.array(x.local_array), "mask": x.mask, "it": it, "r1": r1, "r2": r2, "cost": np.array(cost), "istop": istop}


def j_groups(c, o):
    A = expr.dense(c["tree"])
    mo = gen.offsets(c["model"]["parts"])
    for m, (rows, cols) in groups(c).items():
        e = solve.expected(c, A, rows, cols)
        it = e["it"]
        for r, v in enumerate(o.values()):
            if c["mask"][r] != m:
                continue
            if v["mask"] != c["mask"]:
                return f"rank {r}: the solution has mask {v['mask']}"
            if v["it"] != it:
                return f"rank {r}: {v['it']} iterations, expected {it}"
            at = [cols.index(i) for i in range(mo[r], mo[r + 1])]
            t = core.first(core.expect_close(f"rank {r}: solution of its group", v["local"], np.asarray(e["x"][it])[at].astype(
                np.complex128), e["tol"], max(1.0, float(np.max(np.abs(e["x"][it]))))), solve.j_numbers(r, v, c, e))
            if t:
                return t
    return None


SUBS = [Sub("solve", lambda draw, n: solve.draw_problem(draw, n, "cgls"), solve.scenario, solve.judge, quick=500,
            thorough=20000, real=6, ranks=(1, 5), nontrivial=lambda c: c["n"] > 1 and c["niter"] > 0, label=solve.labels),
        Sub("groups", g_groups, s_groups, j_groups, quick=300, thorough=10000, real=4, ranks=(2, 6),
            nontrivial=lambda c: len(set(c["mask"])) > 1 and c["niter"] > 0,
            label=lambda c: [f"groups={len(set(c['mask']))}", f"iterations={c['niter']}"])]
KNOWN = {}
