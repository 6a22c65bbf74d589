"""C17: sums, differences, products, powers, scalings, adjoints, transposes and conjugates mean what they mean for matrices."""
from hypothesis import strategies as st

import expr
import gen
import zoo
from core import Sub

RULE = ("random expression of depth up to 3 over block-diagonal, vertical and horizontal stacks, derivatives, frequency "
        "multiplications and wrapped serial operators; scalars of several types; the same operator more than once; chains of up to 6 unary operations; non-trivial: more than one rank and an "
        "expression that is not just one operator")


def g_tree(draw, n, most=3):
    dt = draw(st.sampled_from(gen.FLOATS))
    model = zoo.draw_space(draw, n)
    data = model if draw(st.booleans()) else zoo.draw_space(draw, n)
    tree = expr.draw_tree(draw, n, model, data, dt, draw(st.integers(1, most)))
    return expr.draw_case(draw, n, tree, model, data, draw(st.sampled_from(gen.FLOATS)), draw(st.sampled_from(gen.FLOATS)))


def g_chain(draw, n):
    dt = draw(st.sampled_from(gen.FLOATS + ("complex128", "complex64")))
    model = zoo.draw_space(draw, n)
    data = model if draw(st.booleans()) else zoo.draw_space(draw, n)
    tree = expr.draw_chain(draw, n, model, data, lambda m, d: expr.draw_tree(draw, n, m, d, dt, draw(st.sampled_from((0, 0, 1)))))
    return expr.draw_case(draw, n, tree, model, data, draw(st.sampled_from(gen.FLOATS)), draw(st.sampled_from(gen.FLOATS)))


SUBS = [Sub("tree", g_tree, expr.scenario, expr.judge, quick=900, big=8, thorough=40000, real=8, ranks=(1, 6), label=expr.labels,
            nontrivial=lambda c: c["n"] > 1 and c["tree"]["t"] != "leaf"),
        Sub("chain", g_chain, expr.scenario, expr.judge, quick=700, big=8, thorough=20000, real=4, ranks=(1, 6), label=expr.labels)]
KNOWN = {}
