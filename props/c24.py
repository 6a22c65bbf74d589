"""C24: neither the results nor the communication depend on the schedule or on what the MPI library buffers."""
import re

import numpy as np
from hypothesis import strategies as st

import core
import ranks
from core import Sub
from props import c22, c27

RULE = ("programs of all kinds (array histories, operators, expressions, solvers, convolutions, dot-tests, solvers by groups of ranks), "
        "each under 4-5 schedules with buffered, synchronous and strict sends, delayed ranks included; non-trivial: more than one rank")


def g_worlds(draw, n):
    if n > 1 and draw(st.integers(0, 7)) == 0:
        p = {"kind": "groups", "case": c22.g_groups(draw, n)}
    else:
        p = c27.draw_program(draw, n)
    others = [[draw(st.integers(0, 2000)), draw(st.booleans()), draw(st.booleans())] for _ in range(draw(st.integers(2, 3)))]
    return {"prog": p, "worlds": [[0, True, True], [2, False, False]] + others}


def s_worlds(env, c):
    p = c["prog"]
    if p["kind"] == "groups":
        return c22.s_groups(env, p["case"])
    return c27.RUN[p["kind"]][0](env, p["case"], env.comm)


def alike(a, b):
    """The path to the first difference, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return ".keys"
        for k in set(a) - {"took"}:  # (the clock is no result)
            t = alike(a[k], b[k])
            if t is not None:
                return f".{k}{t}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return ".length"
        for i, (u, v) in enumerate(zip(a, b)):
            t = alike(u, v)
            if t is not None:
                return f"[{i}]{t}"
        return None
    if isinstance(a, (np.ndarray, np.generic, float, complex)) or isinstance(b, (np.ndarray, np.generic, float, complex)):
        return None if core.same(a, b) else f": {core.short(a)} and {core.short(b)}"
    if isinstance(a, str) and isinstance(b, str):
        a, b = (re.sub(r"time.*", "time", v) for v in (a, b))
    return None if a == b else f": {a!r} and {b!r}"


def j_worlds(c, o):
    if not o.stats:
        return None  # (real MPI has one schedule)
    base = o.values()
    for sched, sync, strict in c["worlds"]:
        # the order in which a reduction adds up is the library's choice: keep it
        sched = sched // 2 * 2 + c["sched"] % 2
        q = ranks.run_sim(s_worlds, c, c["n"], sched, sync, strict)
        name = f"schedule {sched}, {'synchronous' if sync else 'buffered'}{', strict' if strict else ''}"
        if q.problem():
            return f"{name}: {q.problem()}"
        if q.leftovers:
            return f"{name}: {'; '.join(q.leftovers)}"
        for r, (a, b) in enumerate(zip(base, q.values())):
            t = alike(a, b)
            if t is not None:
                return f"rank {r}: {name}: the result differs at {t}"
    return None


EFFORT = 0.7
SUBS = [Sub("worlds", g_worlds, s_worlds, j_worlds, quick=500, thorough=30000, real=4, ranks=(1, 8), leftovers=True,
            label=lambda c: [c["prog"]["kind"]])]
KNOWN = {}
