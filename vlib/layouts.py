"""The same numbers in different types and memory layouts must give the same result."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib.util import arr, fail, need


LAYOUTS = ["F", "reversed", "strided", "readonly", "window"]
TYPES = ["int64", "int32", "float32"]


def recast(a, how: str):
    """*a* as *how*; integer types only make sense for integral *a*."""
    a = np.asarray(a)
    if how == "plain":
        return a.copy()
    if how in TYPES:
        r = a.astype(how)
        assert how == "float32" or np.array_equal(r, a)
        return r
    if how == "F":
        return np.asfortranarray(a)
    if how == "reversed":
        return a[..., ::-1].copy()[..., ::-1]
    if how == "strided":
        big = np.full((*a.shape[:-1], 2*a.shape[-1] + 1), 77, dtype=a.dtype)
        big[..., 1::2] = a
        return big[..., 1::2]
    if how == "window":
        big = np.full(tuple(n + 2 for n in a.shape), 99, dtype=a.dtype)
        w = big[tuple(slice(1, -1) for _ in a.shape)]
        w[...] = a
        return w
    a = a.copy()
    a.flags.writeable = False
    return a


@st.composite
def how(draw, integral=True):
    """One layout or type for all arguments, or one per argument, joined by commas."""
    one = st.sampled_from(LAYOUTS + (TYPES if integral else []))
    if draw(st.booleans()):
        return draw(one)
    one = st.sampled_from([*LAYOUTS, "plain", "plain"] + (TYPES if integral else []))
    return ",".join(draw(st.lists(one, min_size=2, max_size=5)))


def typed(how_: str) -> bool:
    """Does *how_* change the type of some argument?"""
    return any(h in TYPES for h in how_.split(","))


def label(how_: str) -> str:
    return how_ if "," not in how_ else "mixed-types" if typed(how_) else "mixed"


def flat(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in flat(y)]
    return [arr(r)]


def same(f, arrays, how_: str, what: str, tol=1e-12):
    """f(*arrays) == f(*recast arrays), entry by entry; arguments are left alone."""
    plain = [np.array(a, dtype=float, order="C") for a in arrays]
    e = flat(f(*plain))
    hows = how_.split(",")
    cast = [recast(a, hows[i % len(hows)]) for i, a in enumerate(plain)]
    keep = [np.array(c) for c in cast]
    r = flat(f(*cast))
    need(all(np.array_equal(a, b) for a, b in zip(cast, keep, strict=True)),
         f"{what}: argument modified ({how_})")
    need(len(r) == len(e), f"{what}: {len(r)} results for {how_}, {len(e)} otherwise")
    t = 2e-5 if "float32" in hows else tol
    for x, y in zip(r, e, strict=True):
        if x.shape != y.shape:
            fail(f"{what}: shape {x.shape} for {how_} input, {y.shape} otherwise")
        d = np.abs(x - y)
        sc = 1 + (float(np.max(np.abs(y))) if y.size else 0)
        if d.size and not np.max(d) <= t*sc:
            fail(f"{what}: deviates by {np.max(d):.3e} (scale {sc:.3g}) for {how_} input")


def aliased(f, a, what: str):
    """f(a, a) == f(a, copy of a), entry by entry."""
    a = np.array(a, dtype=float)
    e, r = flat(f(a, a.copy())), flat(f(a, a))
    need(len(r) == len(e), f"{what}: the same array twice: {len(r)} results, {len(e)} expected")
    for x, y in zip(r, e, strict=True):
        need(x.shape == y.shape, f"{what}: the same array twice: shape {x.shape}, not {y.shape}")
        sc = 1 + (float(np.max(np.abs(y))) if y.size else 0)
        d = np.abs(x - y)
        if d.size and not np.max(d) <= 1e-8*sc:
            fail(f"{what}: the same array given twice, not as two copies, changes the result"
                 f" by {np.max(d):.3e}")


# {{{ many points (or elements) at once

#: number of points; 0: skip
sizes = st.sampled_from([0, 0, 0, 0, 260, 1030, 5001, 20003, 70001])


def batch(f, a, n: int, what: str, axis=-1, out=-1, tol=1e-12):
    """f of *n* points chosen among those of *a* (along *axis*) is f(a) chosen alike
    (along axis *out* of every result)."""
    if not n or not a.shape[axis]:
        return
    idx = np.random.default_rng(n).integers(a.shape[axis], size=n)
    e = [np.take(x, idx, axis=out) for x in flat(f(a))]
    r = flat(f(np.take(a, idx, axis=axis)))
    need(len(r) == len(e), f"{what}: {len(r)} results for {n} points, {len(e)} for few")
    for x, y in zip(r, e, strict=True):
        if x.shape != y.shape:
            fail(f"{what}: shape {x.shape} for {n} points, expected {y.shape}")
        d = np.abs(x - y)
        sc = 1 + (float(np.max(np.abs(y))) if y.size else 0)
        if d.size and not np.max(d) <= tol*sc:
            fail(f"{what}: deviates by {np.max(d):.3e} (scale {sc:.3g}) if evaluated at"
                 f" {n} points at once, first at number"
                 f" {int(np.argwhere(~(d <= tol*sc))[0][out])}")

# }}}
