"""C01: Jacobi polynomials."""
from __future__ import annotations


import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.core import Sub
from vlib.util import arr, close, need


ID = "C01"
SCALE = 2
ASSUMPTIONS = [
    "parameters -0.95 <= alpha, beta <= 30 and degree <= 60 (beyond, Gamma overflows"
    " in double precision); reference values from mpmath with 60+2n digits",
]


_special = st.sampled_from([0.0, 1.0, 2.0, -0.5, 0.5, 3.0, 5.0, 7.0, 11.0, -0.25])
_param = st.one_of(_special, st.integers(0, 25).map(float),
                   st.floats(-0.95, 30.0, allow_subnormal=False))


@st.composite
def _params(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "sum-1", "sum0", "equal",
                                 "near-1"]))
    a = draw(_param)
    if kind == "any":
        b = draw(_param)
    elif kind == "equal":
        b = a
    elif kind == "sum-1":
        # dyadic, so that alpha + beta + 1 == 0 exactly
        a = -draw(st.integers(1, 63)) / 64
        b = -1 - a
    elif kind == "near-1":
        # the formulas have a removable singularity at alpha + beta == -1
        a = -draw(st.integers(4, 60)) / 64
        b = -1 - a + draw(st.sampled_from([-1, 1])) * 2.0**-draw(st.integers(5, 44))
    else:
        a = draw(st.integers(-60, 60)) / 64
        b = -a
    return [a, b]


_x = st.one_of(st.sampled_from([-1.0, 1.0, 0.0]),
               st.floats(-1.0, 1.0, allow_subnormal=False))


@st.composite
def _case(draw, nmax=60):
    return {"ab": draw(_params()), "n": draw(st.integers(0, nmax)),
            "x": draw(st.lists(_x, min_size=1, max_size=4))}


def run_values(case):
    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    xs = np.array(case["x"])
    got = arr(mp.jacobi(a, b, n, xs), xs.shape, "jacobi")
    for x, g in zip(xs, got, strict=True):
        e = float(ref.mp_jacobi(a, b, n, float(x))[0])
        need(abs(g - e) <= 1e-11 * (1 + abs(e)) * (n + 1),
             f"jacobi({a}, {b}, {n}, {x}) = {g!r}, expected {e!r}")
        # a scalar argument gives the same number
        s = float(mp.jacobi(a, b, n, float(x)))
        need(abs(s - g) <= 1e-13 * (1 + abs(g)), f"scalar {s!r} != vector {g!r}")


def run_grad(case):
    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    xs = np.array(case["x"])
    got = arr(mp.grad_jacobi(a, b, n, xs), xs.shape, "grad_jacobi")
    for x, g in zip(xs, got, strict=True):
        e = float(ref.mp_jacobi(a, b, n, float(x), 1)[0])
        need(abs(g - e) <= 1e-11 * (1 + abs(e)) * (n + 1),
             f"grad_jacobi({a}, {b}, {n}, {x}) = {g!r}, expected {e!r}")


def run_scaled(case):
    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    xs = np.array(case["x"])
    got = arr(mp.scaled_jacobi(a, b, n, xs), xs.shape, "scaled_jacobi")
    nrm = ref.jacobi_norm(a, b, n)
    for x, g in zip(xs, got, strict=True):
        e = float(ref.mp_jacobi(a, b, n, float(x))[1])
        need(abs(g - e) <= 1e-11 * (nrm + abs(e)) * (n + 1),
             f"scaled_jacobi({a}, {b}, {n}, {x}) = {g!r}, expected {e!r}")


def run_shapes(case):
    """Evaluation is pointwise: any array shape, any split of the points."""
    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    x = np.array(case["x"])
    for f in (mp.jacobi, mp.grad_jacobi, mp.scaled_jacobi):
        full = arr(f(a, b, n, x), x.shape, f.__name__)
        close(f(a, b, n, x.reshape(2, -1)), full.reshape(2, -1), 1e-13,
              f"{f.__name__} on a 2D array")
        close(f(a, b, n, x[::-1]), full[::-1], 1e-13, f"{f.__name__} reversed")
        for i in range(len(x)):
            close(f(a, b, n, x[i:i+1]), full[i:i+1], 1e-13,
                  f"{f.__name__} on one point")
        # memory layouts, ranks, no points at all, parameters that are ints
        y = np.stack([x, -x, x[::-1]])
        fy = np.stack([full, arr(f(a, b, n, -x), x.shape), full[::-1]])
        for what, z, e in [
                ("Fortran order", np.asfortranarray(y), fy),
                ("3 axes", y.reshape(3, -1, 2), fy.reshape(3, -1, 2)),
                ("strided", np.repeat(x, 3)[::3], full),
                ("transposed", y.T, fy.T),
                ("broadcast", np.broadcast_to(x, (2, len(x))),
                 np.broadcast_to(full, (2, len(x)))),
                ("0-d", np.array(x[0]), full[0]),
                ("no points", np.zeros(0), np.zeros(0)),
                ("no points", np.zeros((2, 0, 3)), np.zeros((2, 0, 3))),
                ("many points", np.tile(x, 40), np.tile(full, 40)),
                ("thousands of points", np.tile(x, case["many"] + 1),
                 np.tile(full, case["many"] + 1))]:
            z0 = z.copy()
            close(f(a, b, n, z), e, 1e-13, f"{f.__name__}: {what}", shape=z.shape,
                  scale=1 + float(np.max(np.abs(full))))
            need(np.array_equal(z, z0), f"{f.__name__}: {what}: argument modified")
        if a == int(a) and b == int(b):
            close(f(int(a), int(b), n, x), full, 1e-13, f"{f.__name__}: int parameters")
            close(f(np.float64(a), np.int64(b), np.int64(n), x), full, 1e-13,
                  f"{f.__name__}: numpy scalars")


def run_types(case):
    """Points of any real type: integers, single precision, Python scalars."""
    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    how = case["how"]
    k = np.array(case["k"])
    x = k/16.0 if how in ("float32", "np.float32") else np.sign(k).astype(float)
    for f in (mp.jacobi, mp.grad_jacobi, mp.scaled_jacobi):
        e = arr(f(a, b, n, x), x.shape, f.__name__)
        # (sensitivity to rounding of the argument and in the recurrence)
        sc = 1 + float(np.max(np.abs(f(a, b, n, np.array([-1.0, 1.0])))))
        sc = max(sc, float(np.max(np.abs(e))))*(1 + n)**2
        tol = 2e-5 if "float32" in how else 1e-12
        if how in ("int", "float", "np.float32", "np.int64", "np.int32"):
            t = {"int": int, "float": float, "np.float32": np.float32,
                 "np.int64": np.int64, "np.int32": np.int32}[how]
            for xi, ei in zip(x, e, strict=True):
                close(f(a, b, n, t(xi)), ei, tol, f"{f.__name__}: {how} argument",
                      shape=(), scale=sc)
        else:
            y = x.astype(how)
            close(f(a, b, n, y), e, tol, f"{f.__name__}: {how} points", shape=x.shape,
                  scale=sc)
            close(f(a, b, n, y[:1, None]), e[:1, None], tol, f"{f.__name__}: {how}, 2 axes",
                  shape=(1, 1), scale=sc)


def run_ortho(case):
    """Orthonormal with respect to the documented weight (scipy's nodes)."""
    from scipy.special import roots_jacobi

    import modepy as mp
    (a, b), n = case["ab"], case["n"]
    x, w = roots_jacobi(n + 2, a, b)
    v = np.array([arr(mp.jacobi(a, b, k, x), x.shape) for k in range(n + 1)])
    close((v * w) @ v.T, np.eye(n + 1), 1e-9, f"Gram matrix for ({a}, {b})")


@st.composite
def _shape_case(draw):
    c = draw(_case(30))
    k = draw(st.integers(1, 3))
    c["x"] = draw(st.lists(_x, min_size=2*k, max_size=2*k))
    c["many"] = draw(st.sampled_from([0, 0, 0, 170, 1001, 5003, 17001]))
    return c


def _classify(case):
    a, b = case["ab"]
    t = []
    if abs(a + b + 1) < 1e-14:
        t.append("alpha+beta=-1")
    elif abs(a + b + 1) < 0.04:
        t.append("alpha+beta near -1")
    if a + b == 0:
        t.append("alpha+beta=0")
    if a != b:
        t.append("alpha!=beta")
    if case["n"] >= 2:
        t.append("degree>=2")
    if any(abs(x) == 1 for x in case.get("x", [])):
        t.append("end point")
    return t


_nt = (lambda c: c["n"] >= 1)
SUBS = [
    Sub("values", run_values, _case(), quick=2500, shards=2, nontrivial=_nt,
        classify=_classify, rule="degree >= 1"),
    Sub("gradients", run_grad, _case(), quick=2500, shards=2, nontrivial=_nt,
        classify=_classify, rule="degree >= 1"),
    Sub("scaled", run_scaled, _case(), quick=2000, shards=2, nontrivial=lambda c: True,
        classify=_classify, rule="every case"),
    Sub("pointwise", run_shapes, _shape_case(), quick=1000, nontrivial=_nt,
        classify=_classify, rule="degree >= 1"),
    Sub("types", run_types, st.fixed_dictionaries({
        "ab": _params(), "n": st.integers(0, 12), "how": st.sampled_from(
            ["int64", "int32", "float32", "int", "float", "np.float32", "np.int64",
             "np.int32", "complex128", "longdouble"]),
        "k": st.lists(st.integers(-16, 16), min_size=1, max_size=4)}), quick=500,
        classify=lambda c: [c["how"]], rule="every case"),
    Sub("orthonormality", run_ortho, st.fixed_dictionaries({
        "ab": _params(), "n": st.integers(0, 40)}), quick=600, nontrivial=_nt,
        classify=_classify, rule="degree >= 1"),
]
