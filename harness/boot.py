"""Puts hypothesis (installed for another interpreter of the same version) within reach of /opt/venv's Python, and
nothing else of that environment."""
import importlib.abc
import importlib.machinery
import os
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NAMES = ("hypothesis", "_hypothesis", "sortedcontainers")


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if path is None and (top in NAMES or top.startswith(("_hypothesis", "hypothesis"))):
            return importlib.machinery.PathFinder.find_spec(name, [VT])
        return None


def enable_hypothesis():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_Finder())
        import hypothesis  # noqa: F401


for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(var, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
enable_hypothesis()
