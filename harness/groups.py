"""Programs of groups of the ranks, each with a communicator of its own, all at the same time."""
from hypothesis import strategies as st

COLORS = (0, 0, 1, 1, 2, None)


class Part:
    """The outcome of one group, for the judge of its program."""

    def __init__(self, vals):
        self._vals = vals
        self.failure, self.leftovers, self.stats = None, [], {}

    def problem(self):
        return None

    def values(self):
        return self._vals


def members(c):
    """The groups: colour -> world ranks, in the order of the group's own ranks."""
    out = {}
    order = range(c["n"] - 1, -1, -1) if c["rev"] else range(c["n"])
    for r in order:
        if c["colors"][r] is not None:
            out.setdefault(c["colors"][r], []).append(r)
    return out


def draw(draw, n, program, colors=COLORS, hows=("split", "split", "split", "split", "self", "dup", "twice")):
    """`program(draw, n)` draws {"kind": ..., "case": ...}."""
    how = draw(st.sampled_from(hows))
    c = {"n": n, "how": how, "rev": how in ("split", "twice") and draw(st.booleans())}
    if how == "self":
        c["colors"] = list(range(n))
    elif how == "dup":
        c["colors"] = [0] * n
    else:
        c["colors"] = draw(st.lists(st.sampled_from(colors), min_size=n, max_size=n))
    c["progs"] = {str(k): program(draw, len(rs)) for k, rs in sorted(members(c).items())}
    return c


def scenario(run):
    """`run`: kind -> (scenario(env, case, comm), judge)."""
    def s_groups(env, c):
        w = env.comm
        color = c["colors"][env.rank]
        if c["how"] == "self":
            comm = env.MPI.COMM_SELF
        elif c["how"] == "dup":
            comm = w.Dup()
        else:
            sign = -1 if c["rev"] else 1
            base = w
            if c["how"] == "twice":
                base = w.Split(int(color is None), sign * env.rank)
            if c["how"] != "twice":
                comm = base.Split(env.MPI.UNDEFINED if color is None else color, sign * env.rank)
            else:
                comm = base.Split(0 if color is None else color, base.Get_rank())
        out = None
        if color is not None:
            p = c["progs"][str(color)]
            out = (comm.Get_rank(), run[p["kind"]][0](env, p["case"], comm))
        return out, w.allreduce(1)
    return s_groups


def judge(run):
    def j_groups(c, o):
        vals = o.values()
        for r, v in enumerate(vals):
            if v[1] != c["n"]:
                return f"rank {r}: the world counts {v[1]} ranks afterwards"
        for k, rs in members(c).items():
            for i, r in enumerate(rs):
                if vals[r][0][0] != i:
                    return f"harness: rank {r} is {vals[r][0][0]} in its group, expected {i}"
            p = c["progs"][str(k)]
            t = run[p["kind"]][1](p["case"], Part([vals[r][0][1] for r in rs]))
            if t:
                return f"group of ranks {rs}: {p['kind']}: {t}"
        return None
    return j_groups


def nontrivial(c):
    return len(members(c)) > 1 or None in c["colors"]


def labels(c):
    return [c["how"], f"groups={len(members(c))}", "reversed" if c["rev"] else "in order",
            "some left out" if None in c["colors"] else "all"] + [p["kind"] for p in c["progs"].values()]
