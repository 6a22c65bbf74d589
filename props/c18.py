"""C18: the algebra of stacked operators is that of the matrices they stand for."""
from hypothesis import strategies as st

import expr
import gen
import zoo
from core import Sub

RULE = ("random expression of depth up to 3 over diagonal and vertical stacks of 1-3 random operators, between plain and "
        "stacked vectors; non-trivial: more than one rank and an expression that is not just one operator")


def draw_spaces(draw, n):
    k = draw(st.integers(1, 3))
    K = expr.space_K([zoo.draw_space(draw, n, hi=3) for _ in range(k)])
    how = draw(st.sampled_from(("KK", "KK=", "KK=", "pK", "Kp", "pp=", "pp")))
    if how == "KK":
        return K, expr.space_K([zoo.draw_space(draw, n, hi=3) for _ in range(k)])
    if how == "KK=":
        return K, K
    p = zoo.draw_space(draw, n, hi=3)
    if how == "pK":
        return p, K
    if how == "Kp":
        return K, p
    return p, (p if how == "pp=" else zoo.draw_space(draw, n, hi=3))


def g_tree(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS))
    model, data = draw_spaces(draw, n)
    tree = expr.draw_stree(draw, n, model, data, dt, draw(st.integers(1, 3)), inner=draw(st.sampled_from((0, 0, 1))))
    return expr.draw_case(draw, n, tree, model, data, draw(st.sampled_from(gen.FLOATS)), draw(st.sampled_from(gen.FLOATS)))


def g_chain(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS + ("complex128", "complex64")))
    model, data = draw_spaces(draw, n)
    tree = expr.draw_chain(draw, n, model, data, lambda m, d: expr.draw_stree(draw, n, m, d, dt, draw(st.sampled_from((0, 0, 1))), inner=0),
                           most=5)
    return expr.draw_case(draw, n, tree, model, data, draw(st.sampled_from(gen.FLOATS)), draw(st.sampled_from(gen.FLOATS)))


SUBS = [Sub("tree", g_tree, expr.scenario, expr.judge, quick=700, big=6, thorough=30000, real=6, ranks=(1, 5), label=expr.labels,
            nontrivial=lambda c: c["n"] > 1 and c["tree"]["t"] not in ("sbd", "svs")),
        Sub("chain", g_chain, expr.scenario, expr.judge, quick=500, big=6, thorough=15000, real=4, ranks=(1, 5), label=expr.labels)]
KNOWN = {}
