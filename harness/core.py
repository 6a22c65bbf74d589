"""What a property module is made of, and what judges share."""
import hashlib
import json
from dataclasses import dataclass, field
from typing import Callable

import numpy as np


@dataclass
class Sub:
    """One generated check: cases from `gen`, run by `scenario` on every rank, judged by `judge`.

    gen(draw, n) -> dict        the case, for n ranks; JSON-able
    scenario(env, case) -> any  SPMD code; what each rank saw
    judge(case, out) -> str     what is wrong with the outcome, or None
    """
    name: str
    gen: Callable
    scenario: Callable
    judge: Callable
    quick: int = 800
    thorough: int = 20000
    real: int = 6
    ranks: tuple = (1, 8)
    nontrivial: Callable = field(default=lambda case: case["n"] > 1)
    label: Callable = field(default=lambda case: [])
    leftovers: bool = False
    big: int = 1  # now and then sizes are that many times as large as usual
    allow_problem: bool = False  # judge looks at out.problem() itself


def canon(case):
    return json.dumps(case, sort_keys=True)


def norm_case(case):
    return json.loads(json.dumps(case))


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


def evaluate(sub, case, out):
    """The verdict on one executed case: None or a text."""
    if not sub.allow_problem:
        p = out.problem()
        if p:
            return p
    if sub.leftovers and out.leftovers:
        return "; ".join(out.leftovers)
    return sub.judge(case, out)


# -- comparing -------------------------------------------------------------------------------------------------------
def same(a, b):
    """Equal values (NaN equals NaN), regardless of dtype."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def short(a, n=12):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:n], precision=17, separator=",").replace("\n", "")
    return f"{a.dtype}{list(a.shape)}{s}{'...' if a.size > n else ''}"


def expect_same(what, got, want, dtype=None):
    if not same(got, want):
        return f"{what}: got {short(got)}, expected {short(want)}"
    if dtype is not None and np.asarray(got).dtype != np.dtype(dtype):
        return f"{what}: dtype {np.asarray(got).dtype}, expected {np.dtype(dtype)}"
    return None


def eps_of(*dts):
    """Working precision of a computation on these dtypes."""
    e = 0.0
    for d in dts:
        d = np.dtype(d)
        e = max(e, np.finfo(d).eps if d.kind in "fc" else 0.0)
    return e


TINY = 1e-100  # (so that an expected zero has to be one)


def expect_close(what, got, want, tol, scale=None):
    """|got - want| <= tol * scale, with scale the size of the expected values by default."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f"{what}: shape {got.shape}, expected {want.shape}"
    if got.size == 0:
        return None
    if scale is None:
        scale = max(TINY, float(np.max(np.abs(want))))
    if not np.all(np.isfinite(want)):
        return f"harness: reference for {what} is not finite"
    if not np.all(np.isfinite(got)):
        return f"{what}: got {short(got)}, expected {short(want)}"
    d = float(np.max(np.abs(got - want)))
    if d > tol * scale:
        return f"{what}: differs by {d:.3g} (allowed {tol * scale:.3g}); got {short(got)}, expected {short(want)}"
    return None


def first(*texts):
    for t in texts:
        if t:
            return t
    return None

