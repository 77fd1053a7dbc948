"""Assertion helpers and case (de)serialisation."""
from __future__ import annotations

import warnings
from typing import Any

import numpy as np

from vlib.core import Violation


def fail(msg: str) -> None:
    raise Violation(msg)


def need(cond: Any, msg: str) -> None:
    if not bool(cond):
        raise Violation(msg)


def arr(x: Any, shape: tuple | None = None, what: str = "result",
        finite: bool = True, kind: str | None = None) -> np.ndarray:
    """Interpret library output as a numeric array, or report a violation."""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            a = a.astype(np.float64)
    except Exception as e:
        raise Violation(f"{what}: not array-like ({type(x).__name__}): {e}") from None
    if a.dtype.kind not in "biufc":
        raise Violation(f"{what}: unexpected dtype {a.dtype}")
    if kind is not None and a.dtype.kind not in kind:
        raise Violation(f"{what}: unexpected dtype {a.dtype}")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if finite and not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite: {a!r}"[:600])
    return a


def close(actual: Any, expected: Any, tol: float, what: str,
          shape: tuple | None = None, scale: float | None = None) -> None:
    """max |actual - expected| <= tol * max(scale, ..)  (scale default: 1 + max|exp|)."""
    e = np.asarray(expected)
    a = arr(actual, e.shape if shape is None else shape, what)
    if a.size == 0:
        return
    if scale is None:
        scale = 1.0 + float(np.max(np.abs(e))) if e.size else 1.0
    d = np.abs(a - e)
    m = float(np.max(d))
    if not m <= tol * scale:
        idx = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
        raise Violation(
            f"{what}: max deviation {m:.3e} > {tol:.1e}*{scale:.3e}"
            f" at index {tuple(int(i) for i in idx)}:"
            f" got {a[idx]!r}, expected {np.broadcast_to(e, d.shape)[idx]!r}")


def quiet(f, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*args, **kwargs)


def raises(excs, f, what: str):
    """*f()* must raise one of *excs*; anything else is a violation."""
    try:
        r = f()
    except excs as e:
        return e
    except Exception as e:
        raise Violation(
            f"{what}: raised {type(e).__name__}: {e}; expected {excs}") from None
    raise Violation(f"{what}: returned {r!r}"[:500] + f" instead of raising {excs}")


def matrix_valued(q, f, e, tol, what, scale):
    """*q* applied to functions whose values are matrices or tensors is applied to every
    entry, also where the last axis of a value is as long as the list of nodes."""
    n = len(q.weights)
    for shape in ((2, n) if n <= 40 else (2, 3), (n, n) if n <= 12 else (3, 2),
                  (2, 2, n) if n <= 12 else (2, 1, 2), (1, 1), (0, 2)):
        c = np.cos(1.0 + np.arange(int(np.prod(shape)))).reshape(shape)
        close(q(lambda x, c=c: c[..., np.newaxis] * f(x)), c*e, tol,
              f"{what}, values of shape {shape}", shape=shape, scale=scale)
