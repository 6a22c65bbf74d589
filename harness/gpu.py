"""A stand-in for CuPy, which is not installed: NumPy arrays of another class, and a module that makes and keeps them.

It mixes freely with NumPy (CuPy does not): what is looked at is only which kind of array the results are.
"""
import contextlib
import types

import numpy as np


class ndarray(np.ndarray):
    __array_priority__ = 100

    @property
    def device(self):
        return None

    def get(self):
        return np.array(self, subok=False)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        # a sum is a number, as NumPy's are (subclasses get arrays without dimensions)
        out = kw.get("out")
        if out is not None:
            kw["out"] = tuple(map(_plain, out))
        v = getattr(ufunc, method)(*map(_plain, inputs), **kw)
        return out[0] if out is not None and len(out) == 1 else _ours(v)

    def __reduce__(self):
        return _remake, (np.array(self, subok=False),)


def _plain(v):
    return v.view(np.ndarray) if isinstance(v, ndarray) else v


def _remake(a):
    return a.view(ndarray)


def _ours(v):
    if isinstance(v, np.ndarray):
        return v.view(ndarray)
    if isinstance(v, tuple) and type(v) is tuple or isinstance(v, list):
        return type(v)(_ours(x) for x in v)
    return v


class _Module(types.ModuleType):
    def __init__(self, name, like, **own):
        super().__init__(name)
        self.__dict__.update(own, _like=like)

    def __getattr__(self, name):
        v = getattr(self._like, name)
        if isinstance(v, types.ModuleType):
            v = _Module(f"{self.__name__}.{name}", v)
        elif callable(v) and not isinstance(v, type):
            v = _wrap(v)
        self.__dict__[name] = v
        return v


def _wrap(f):
    def g(*a, **kw):
        return _ours(f(*a, **kw))
    g.__name__ = getattr(f, "__name__", "f")
    return g


class _Device:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def use(self):
        pass

    def synchronize(self):
        pass


cupy = _Module("cupy", np, ndarray=ndarray, asnumpy=lambda x: np.array(x, subok=False),
               get_array_module=lambda *a: cupy if any(isinstance(x, ndarray) for x in a) else np)
cupy.cuda = types.SimpleNamespace(Device=_Device, runtime=types.SimpleNamespace(getDeviceCount=lambda: 1))


def enable():
    """From now on (in this process) PyLops takes the stand-in for CuPy."""
    from pylops.utils import backend, deps
    if deps.cupy_enabled:
        return
    import scipy.fft
    import scipy.linalg
    import scipy.signal
    import scipy.sparse
    backend.cp, backend.cp_fft = cupy, _Module("cupyx.scipy.fft", scipy.fft)
    for names, m in ((("block_diag", "toeplitz"), scipy.linalg), (("convolve", "correlate", "fftconvolve", "oaconvolve"), scipy.signal),
                     (("csc_matrix", "eye"), scipy.sparse)):
        for k in names:
            with contextlib.suppress(AttributeError):
                setattr(backend, f"cp_{k}", _wrap(getattr(m, k)))
    deps.cupy_enabled = True


def on_device(g):
    return np.ascontiguousarray(g).view(ndarray)


def kind(a):
    """What a distributed array says it is, and what it holds."""
    return a.engine, "cupy" if isinstance(a.local_array, ndarray) else "numpy"
