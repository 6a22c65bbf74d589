"""C27: everything works on a communicator of some of the ranks, without involving the others."""
from hypothesis import strategies as st

import expr
import gen
import groups
import opcheck
import solve
import zoo
from core import Sub
from props import c08, c16, c19, c20, c26, c28, c31, c33

RULE = ("ranks split into groups, in the same or the reversed order, some left out, groups of one and copies of the world included; every group "
        "runs a program of its own at the same time: a history of array operations, an operator or an expression forward and "
        "adjoint, a solver, a convolution, a dot-test, a solver's log, an operator of the user's; non-trivial: at least two groups, or a rank left out")

KINDS = ("arrays", "arrays", "op", "expr", "expr", "solve", "fredholm", "mdc", "dottest", "log", "own")


def draw_program(draw, n):
    kind = draw(st.sampled_from(KINDS))
    if kind == "arrays":
        c = c28.g_history(draw, n)
    elif kind == "op":
        leaf = c08.draw_op(draw, n)
        c = expr.draw_case(draw, n, {"t": "leaf", "leaf": leaf}, leaf["model"], leaf["data"], leaf["dtype"], leaf["dtype"])
    elif kind == "fredholm":
        c = opcheck.draw_apply(draw, n, c19.draw_kernel(draw, n))
    elif kind == "expr":
        tree, m, d = c16.draw_any(draw, n)
        dts = gen.FLOATS if expr.is_complex(tree) else ("float64", "float32")
        c = expr.draw_case(draw, n, tree, m, d, draw(st.sampled_from(dts)), draw(st.sampled_from(dts)))
    elif kind == "solve":
        c = solve.draw_problem(draw, n, draw(st.sampled_from(("cg", "cgls"))))
    elif kind == "mdc":
        c = c20.g_mdc(draw, n)
    elif kind == "log":
        c = c31.g_show(draw, n)
    elif kind == "own":
        leaf = c33.draw_own(draw, n, draw(st.sampled_from(gen.FLOATS)))
        c = opcheck.draw_apply(draw, n, leaf)
    else:
        c = c26.g_dot(draw, n)
    return {"kind": kind, "case": dict(c, n=n)}


RUN = {"arrays": (c28.s_history, c28.j_history), "op": (expr.scenario, expr.judge), "expr": (expr.scenario, expr.judge),
       "solve": (solve.scenario, solve.judge), "mdc": (c20.s_mdc, c20.j_mdc), "dottest": (c26.s_dot, c26.j_dot),
       "log": (c31.s_show, c31.j_show),
       "own": (lambda env, c, comm: opcheck.scenario(env, c, zoo.leaf_make, comm), opcheck.judge),
       "fredholm": (lambda env, c, comm: opcheck.scenario(env, c, zoo.leaf_make, comm), opcheck.judge)}


SUBS = [Sub("groups", lambda draw, n: groups.draw(draw, n, draw_program), groups.scenario(RUN), groups.judge(RUN), quick=1500,
            thorough=40000, real=10, ranks=(1, 8), leftovers=True, nontrivial=groups.nontrivial, label=groups.labels)]
KNOWN = {}
