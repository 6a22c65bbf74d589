"""C32: the plots show, at the first rank only, the array and who owns which part of it."""
import os

import numpy as np
from hypothesis import strategies as st

import arr
import core
import gen
import groups
from core import Sub

RULE = ("two-dimensional array, either axis distributed, any layout, mask and dtype, with and without title and limits; by all ranks or some; replicated "
        "arrays and other objects, to be refused; non-trivial: more than one rank")


def g_plot(draw, n):
    lo = draw(st.sampled_from((0, 1, 1)))
    a = arr.draw_desc(draw, n, dtypes=("float64", "float32", "int64", "int32"), kinds="SSSSB",
                      shp=[draw(st.integers(1, 7)), draw(st.integers(1, 7))])
    what = draw(st.sampled_from(("owners", "owners", "locals", "locals", "other")))
    if what == "owners":
        a["lo"] = lo
    if what == "locals" and a["kind"] == "S":
        # an empty part cannot be drawn
        ax = a["axis"]
        a["shape"][ax] = max(a["shape"][ax], n)
        a["parts"] = gen.sizes(draw, n, a["shape"][ax], 1) if draw(st.booleans()) else None
    return {"a": a, "what": what, "title": draw(st.sampled_from((None, "some title"))), "lim": draw(st.sampled_from((None, None, [-3.0, 5.0], [0.0, 4.0], [-2.0, 0.0], [1.0, None], [None, 0.0], [0.0, None])))}


def s_plot(env, c, comm=None):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    import pylops_mpi.plotting.plotting as pl
    w = env.comm if comm is None else comm
    x = arr.build(env, c["a"], comm=w)
    keep = x.local_array.copy()
    if w.Get_rank() == 0:
        plt.close("all")
    w.barrier()
    out = {}
    try:
        if c["what"] == "owners":
            pl.plot_distributed_array(x)
        elif c["what"] == "other":
            pl.plot_distributed_array(x.local_array)
        else:
            kw = {k: v for k, v in zip(("vmin", "vmax"), c["lim"] or ()) if v is not None}
            pl.plot_local_arrays(x, **kw, **({} if c["title"] is None else {"title": c["title"]}))
    except Exception as e:
        out["error"] = type(e).__name__
    w.barrier()
    out["kept"] = core.same(keep, x.local_array)
    figs = plt.get_fignums()
    out["figures"] = len(figs)
    out["process"] = os.getpid()
    if w.Get_rank() == 0 and figs and "error" not in out:
        f = plt.gcf()
        out["panels"] = []
        for a in f.axes:
            im = a.get_images()
            if im:
                d = im[0].get_array()
                out["panels"].append({"data": np.array(np.ma.filled(d.astype(float), np.nan)), "title": a.get_title(),
                                      "lim": [float(v) for v in im[0].get_clim()], "n": len(im)})
        out["title"] = f.get_suptitle()
        out["ticks"] = [[float(t) for t in a.get_yticks()] for a in f.axes if not a.get_images()]
    w.barrier()
    if w.Get_rank() == 0:
        plt.close("all")
    w.barrier()
    return out


def j_plot(c, o):
    a, n = c["a"], c["n"]
    vs = o.values()
    want = {"other": "TypeError", "owners": "NotImplementedError" if a["kind"] == "B" else None}.get(c["what"])
    for r, v in enumerate(vs):
        if v.get("error") != want:
            return f"rank {r}: {c['what']}: {v.get('error')}, expected {want}"
        if not v["kept"]:
            return f"rank {r}: the array changed"
        # (simulated ranks share one pyplot)
        if v["figures"] != (want is None and (r == 0 or v["process"] == vs[0]["process"])):
            return f"rank {r}: {v['figures']} figures"
    if want:
        return None
    A = arr.value(a).astype(float)
    v = vs[0]
    if c["what"] == "owners":
        own = np.concatenate([np.full_like(p, r, dtype=float) for r, p in enumerate(arr.local(a, A))], axis=a["axis"])
        if len(v["panels"]) != 2:
            return f"{len(v['panels'])} panels"
        return core.first(core.expect_same("array shown", v["panels"][0]["data"], A),
                          core.expect_same("owners shown", v["panels"][1]["data"], own),
                          None if str(a["axis"]) in v["panels"][1]["title"] else f"the title is {v['panels'][1]['title']!r}",
                          core.expect_same("ranks at the colours", np.unique(v["ticks"]), np.arange(n)))
    loc = arr.local(a, A)
    if len(v["panels"]) != n:
        return f"{len(v['panels'])} panels for {n} ranks"
    for r in range(n):
        p = v["panels"][r]
        t = core.expect_same(f"part of rank {r}", p["data"], loc[r])
        if t:
            return t
        if str(r) not in p["title"]:
            return f"part of rank {r}: title {p['title']!r}"
        # a limit not given is that of the part, or of all parts, drawn
        for got, asked in zip(p["lim"], c["lim"] or ()):
            if asked is not None and got != asked:
                return f"part of rank {r}: limits {p['lim']}, asked for {c['lim']}"
    if c["title"] is not None and v["title"] != c["title"]:
        return f"title {v['title']!r}"
    return None


RUN = {"plot": (s_plot, j_plot)}


def g_groups(draw, n):
    # (one group only: simulated ranks share one pyplot)
    return groups.draw(draw, n, lambda d, m: {"kind": "plot", "case": dict(g_plot(d, m), n=m)}, (0, 0, None), ("split", "twice", "dup"))


SUBS = [Sub("plot", g_plot, s_plot, j_plot, quick=160, thorough=3000, real=4, ranks=(1, 5),
            label=lambda c: [c["what"], c["a"]["kind"], f"axis={c['a']['axis']}", c["a"]["dtype"]]),
        Sub("groups", g_groups, groups.scenario(RUN), groups.judge(RUN), quick=120, thorough=2000, real=2, ranks=(2, 5),
            nontrivial=groups.nontrivial, label=groups.labels)]
KNOWN = {}
