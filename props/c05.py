"""C05: on masked arrays, dot products and norms are those of the rank's own group; masks survive and must agree."""
import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
from core import Sub

RULE = ("mask (interleaved and contiguous groups, single-rank groups), scattered array, layout, dtype, order, operation "
        "that derives the array first; non-trivial: at least two groups and one element")

DERIVE = ("none", "copy", "neg", "conj", "add", "sub", "mul", "scale", "iadd", "zeros_plus", "ravel")


def masked(draw, n):
    how = draw(st.sampled_from(("any", "any", "halves", "alternate", "own")))
    if how == "any":
        return draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))
    if how == "halves":
        return [int(r >= n // 2) for r in range(n)]
    if how == "alternate":
        return [r % 2 for r in range(n)]
    return [draw(st.integers(0, 1)) * 7 + r for r in range(n)]


def groups(mask):
    return {m: [r for r in range(len(mask)) if mask[r] == m] for m in set(mask)}


def g_reduce(draw, n):
    a = arr.draw_desc(draw, n, kinds="S", masks=False, lo=0)
    a["mask"] = masked(draw, n)
    return {"a": a, "bdtype": draw(st.sampled_from(arr.SIGNED)), "bfill": gen.recipe(draw, tiny=True),
            "ord": draw(st.sampled_from((None, 0, 1, 2, 3, "inf", "-inf", 0.5, 2.5))), "axis": draw(st.sampled_from(("flat", "dist"))),
            "derive": draw(st.sampled_from(DERIVE)), "twice": draw(st.booleans())}


def derive(how, x):
    if how == "none":
        return x
    if how == "zeros_plus":
        return x.zeros_like() + x
    if how == "add":
        return x + x
    if how == "sub":
        return x - (-x)
    if how == "mul":
        return x * x
    if how == "scale":
        return x * 2
    if how == "iadd":
        y = x.copy()
        y += x
        return y
    if how == "neg":
        return -x
    return {"copy": x.copy, "conj": x.conj, "ravel": x.ravel}[how]()


def derived(how, A):
    if how in ("none", "copy", "zeros_plus", "ravel"):
        return A
    if how in ("add", "sub", "scale", "iadd"):
        return A + A
    return {"mul": lambda: A * A, "neg": lambda: -A, "conj": A.conj}[how]()


def s_reduce(env, c):
    x = arr.build(env, c["a"])
    y = arr.build(env, dict(c["a"], dtype=c["bdtype"], fill=c["bfill"]), 5)
    z = derive(c["derive"], x)
    if c["derive"] == "ravel":
        y = y.ravel()
    kw = {"axis": z.axis} if c["axis"] == "dist" else {}
    o = {"inf": np.inf, "-inf": -np.inf}.get(c["ord"], c["ord"])
    res = {"dot": np.array(z.dot(y)), "norm": np.array(z.norm(o, **kw)), "mask": [int(v) for v in z.mask],
           "global": z.asarray()}
    if c["twice"]:
        res["dot2"], res["norm2"] = np.array(y.dot(z)), np.array(y.norm(1))
    return res


def j_reduce(c, o):
    a = c["a"]
    A = derived(c["derive"], arr.value(a))
    B = arr.value(dict(a, dtype=c["bdtype"], fill=c["bfill"]), 5)
    ax = a["axis"]
    al, bl = gen.cut(A, arr.parts(a), ax), gen.cut(B, arr.parts(a), ax)
    G = A
    if c["derive"] == "ravel":
        al, bl, ax = [x.ravel() for x in al], [x.ravel() for x in bl], 0
        G = np.concatenate(al)
    gr = groups(a["mask"])
    for r, v in enumerate(o.values()):
        mine = gr[a["mask"][r]]
        ga, gb = np.concatenate([al[i] for i in mine], axis=ax), np.concatenate([bl[i] for i in mine], axis=ax)
        fa = ga.astype(complex if ga.dtype.kind == "c" else float)
        o_ = {"inf": np.inf, "-inf": -np.inf}.get(c["ord"], c["ord"])
        dist = c["axis"] == "dist" and ga.ndim > 1
        if isinstance(c["ord"], str) and (fa.shape[ax] if dist else fa.size) == 0:
            wantn = None  # the extreme of no values is anybody's
        elif dist:
            wantn = np.linalg.norm(fa, o_, axis=ax)
        else:
            wantn = np.linalg.norm(fa.ravel(), o_)
        eps = max(core.eps_of("float64"), core.eps_of(A.dtype))
        t = core.first(
            core.expect_close(f"rank {r} (group {mine}): dot product", v["dot"], np.dot(ga.ravel(), gb.ravel()),
                              16 * core.eps_of(A.dtype, B.dtype), max(core.TINY, float(np.sum(np.abs(fa * gb))))),
            None if wantn is None else core.expect_close(f"rank {r} (group {mine}): norm", v["norm"], wantn, 64 * eps),
            core.expect_same(f"rank {r}: global view", v["global"], G),
            None if v["mask"] == a["mask"] else f"rank {r}: mask became {v['mask']}")
        if not t and c["twice"]:
            t = core.first(
                core.expect_close(f"rank {r} (group {mine}): dot product the other way round", v["dot2"],
                                  np.dot(gb.ravel(), ga.ravel()), 16 * core.eps_of(A.dtype, B.dtype),
                                  max(core.TINY, float(np.sum(np.abs(fa * gb))))),
                core.expect_close(f"rank {r} (group {mine}): 1-norm", v["norm2"],
                                  np.sum(np.abs(gb.astype(complex))), 64 * max(eps, core.eps_of(B.dtype))))
        if t:
            return t
        for i in mine:
            if not core.same(o.values()[i]["dot"], v["dot"]) or not core.same(o.values()[i]["norm"], v["norm"]):
                return f"ranks {r} and {i} of one group disagree"
    return None


def g_mismatch(draw, n):
    a = arr.draw_desc(draw, n, kinds="SSBU", masks=False)
    a["mask"] = draw(st.one_of(st.none(), st.just(masked(draw, n))))
    other = draw(st.one_of(st.none(), st.just(masked(draw, n))))
    return {"a": a, "other": other, "op": draw(st.sampled_from(("add", "iadd", "mul", "dot", "sub", "isub")))}


def s_mismatch(env, c):
    x = arr.build(env, c["a"])
    y = arr.build(env, dict(c["a"], mask=c["other"]), 5)
    before = x.local_array.copy()
    try:
        if c["op"] == "add":
            x + y
        elif c["op"] == "sub":
            x - y
        elif c["op"] == "iadd":
            x += y
        elif c["op"] == "isub":
            x -= y
        elif c["op"] == "mul":
            x * y
        else:
            x.dot(y)
    except ValueError:
        return "refused", core.same(before, x.local_array), x.copy().asarray()
    return "done", True, None


def j_mismatch(c, o):
    want = "done" if c["a"]["mask"] == c["other"] else "refused"
    A = arr.value(c["a"])
    for r, v in enumerate(o.values()):
        if v[0] != want:
            return f"rank {r}: {c['op']} with masks {c['a']['mask']} and {c['other']}: {v[0]}, expected {want}"
        if not v[1]:
            return f"rank {r}: the refused {c['op']} changed its operand"
        if v[2] is not None:
            t = core.expect_same(f"rank {r}: array after the refusal", v[2], A)
            if t:
                return t
    return None


SUBS = [Sub("reduce", g_reduce, s_reduce, j_reduce, quick=3000, big=2000, thorough=80000, real=10, ranks=(2, 8),
            nontrivial=lambda c: len(set(c["a"]["mask"])) > 1 and arr.size(c["a"]) > 0,
            label=lambda c: [c["derive"], f"ord={c['ord']}", f"groups={len(set(c['a']['mask']))}"] + arr.labels(c["a"])),
        Sub("mismatch", g_mismatch, s_mismatch, j_mismatch, quick=600, thorough=10000, real=4,
            nontrivial=lambda c: c["a"]["mask"] != c["other"], label=lambda c: [c["op"]])]
KNOWN = {}
