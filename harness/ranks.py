"""Runs SPMD scenarios on simulated ranks, each with its own import of the code under test from /repo."""
import contextlib
import importlib
import io
import os
import pickle
import sys
import threading
import traceback
import types
import warnings

import boot  # noqa: F401
import numpy as np

import simmpi

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pylops_mpi"
SUBMODULES = ("utils.dottest", "utils.decorators", "DistributedArray", "LinearOperator", "StackedLinearOperator",
              "signalprocessing.Fredholm1", "waveeqprocessing.MDC", "optimization.cls_basic", "optimization.basic",
              "plotting.plotting")

_code_cache = {}


class _Importer:
    """Imports pylops_mpi from REPO's sources, compiling each file once per process."""

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(
                    name, cand, loader=_Loader(name, cand),
                    submodule_search_locations=[os.path.dirname(cand)] if pkg else None)
        return None


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        code = _code_cache.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                code = _code_cache[self.path] = compile(f.read(), self.path, "exec", dont_inherit=True)
        return code


def _ours(name):
    return name == PKG or name.startswith(PKG + ".") or name == "mpi4py" or name.startswith("mpi4py.")


class RankModules:
    """The modules one rank of a world of n ranks sees."""

    def __init__(self, n, rank):
        self.n, self.rank = n, rank
        self.world_comm = simmpi.Intracomm(None, rank)
        self.self_comm = simmpi.Intracomm(None, 0)
        self.MPI = simmpi.make_mpi_module(self.world_comm, self.self_comm)
        pkg = types.ModuleType("mpi4py")
        pkg.__path__ = []
        pkg.MPI, pkg.__version__ = self.MPI, "4.1.2"
        pkg.rc = types.SimpleNamespace(initialize=True, finalize=None, threads=True)
        self.mods = {"mpi4py": pkg, "mpi4py.MPI": self.MPI}

    def load(self):
        for m in [m for m in sys.modules if _ours(m)]:
            del sys.modules[m]
        sys.modules.update(self.mods)
        self.pm = importlib.import_module(PKG)
        for s in SUBMODULES:
            importlib.import_module(f"{PKG}.{s}")
        self.mods = {m: sys.modules[m] for m in list(sys.modules) if _ours(m)}

    def install(self):
        sys.modules.update(self.mods)


_worlds = {}


def modules(n):
    if n not in _worlds:
        if not any(isinstance(f, _Importer) for f in sys.meta_path):
            sys.meta_path.insert(0, _Importer())
            warnings.simplefilter("ignore")
        mods = [RankModules(n, r) for r in range(n)]
        for m in mods:  # imports may call MPI: give them a world of their own
            w = simmpi.World(1)
            m.world_comm._ctx, m.self_comm._ctx = _ImportCtx(w, n), w.self_ctx[0]
            m.load()
        _worlds[n] = mods
    return _worlds[n]


class _ImportCtx(simmpi.Ctx):
    def __init__(self, world, n):
        super().__init__(world, list(range(n)))


class _Stdout(io.TextIOBase):
    """Standard output, by rank (a rank is a thread, or the whole process)."""
    mine = threading.local()

    def __init__(self, real):
        self.real = real

    def write(self, s):
        return (getattr(self.mine, "to", None) or self.real).write(s)

    def flush(self):
        self.real.flush()


@contextlib.contextmanager
def printed():
    """Collects what the calling rank prints."""
    if not isinstance(sys.stdout, _Stdout):
        sys.stdout = _Stdout(sys.stdout)
    before, buf = getattr(_Stdout.mine, "to", None), io.StringIO()
    _Stdout.mine.to = buf
    try:
        yield buf
    finally:
        _Stdout.mine.to = before


class Env:
    """What a scenario gets: the package, MPI and COMM_WORLD of its rank."""

    def __init__(self, pm, MPI, note=None):
        self.pm, self.MPI, self.comm = pm, MPI, MPI.COMM_WORLD
        self.rank, self.size = self.comm.Get_rank(), self.comm.Get_size()
        self.P = pm.Partition


class Outcome:
    """Of one case: per rank ('ok', value), ('exc', type name, text, trace) or ('stuck', pending call)."""

    def __init__(self, ranks, failure=None, leftovers=(), stats=None):
        self.ranks, self.failure, self.leftovers, self.stats = ranks, failure, list(leftovers), stats or {}
        self.hung = bool(failure and failure[0] == "hung")

    def problem(self):
        """Why the case did not simply complete on every rank, or None."""
        if self.failure and self.failure[0] in ("misuse", "no-progress", "abort", "hung"):
            return f"{self.failure[0]}: {self.failure[1]}"
        for r, o in enumerate(self.ranks):
            if o[0] == "exc":
                return f"rank {r} raised {o[1]}: {o[2]}\n{o[3]}"
        stuck = {r: o[1] for r, o in enumerate(self.ranks) if o[0] == "stuck"}
        if stuck:
            return f"ranks never return: {stuck}"
        return None

    def values(self):
        return [o[1] for o in self.ranks]


def run_sim(scenario, case, n, sched=0, sync=False, strict=False):
    mods = modules(n)
    w = simmpi.World(n, sched=sched, sync=sync, strict=strict, install=lambda r: mods[r].install())
    blob = pickle.dumps(case, protocol=5)
    fns = []
    for r in range(n):
        mods[r].world_comm._ctx, mods[r].self_comm._ctx = w.world_ctx, w.self_ctx[r]
        mods[r].world_comm._attrs, mods[r].self_comm._attrs = getattr(mods[r].world_comm, "_keep", {}), {}

        def fn(m=mods[r]):
            with np.errstate(all="ignore"):
                return scenario(Env(m.pm, m.MPI), pickle.loads(blob))
        fns.append(fn)
    w.run(fns)
    if w.unsupported:
        raise simmpi.Unsupported(w.unsupported)
    ranks = []
    for o in w.outcome:
        if o[0] == "exc":
            ranks.append(("exc", type(o[1]).__name__, str(o[1])[:300], short_trace(o[2])))
        else:
            ranks.append(o)
    clean = w.failure is None and all(o[0] == "ok" for o in ranks)
    return Outcome(ranks, w.failure, w.leftovers() if clean else (),
                   {"ops": w.ops, "kinds": w.kinds, "sends": w.nreal_sends, "splits": w.nsplits})


def short_trace(tb, keep=4):
    out = []
    for f in traceback.extract_tb(tb)[-keep:]:
        out.append(f"    {f.filename}:{f.lineno} {f.name}: {f.line}")
    return "\n".join(out)
