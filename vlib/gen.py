"""Hypothesis strategies producing plain JSON, and builders from that JSON."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st


# {{{ shapes and spaces.  "S<d>", "H<d>", "T:<d1>,<d2>,.."

def shape_dims(s: str) -> list[int]:
    if s[0] == "S":
        return [int(s[1:])]
    if s[0] == "H":
        return [1] * int(s[1:])
    return [int(x) for x in s[2:].split(",")]


def build_shape(s: str):
    import modepy as mp
    if s[0] == "S":
        return mp.Simplex(int(s[1:]))
    if s[0] == "H":
        return mp.Hypercube(int(s[1:]))
    return mp.TensorProductShape(tuple(mp.Simplex(d) for d in shape_dims(s)))


def order_arg(order):
    return tuple(order) if isinstance(order, list) else order


def orders_of(s: str, order) -> list[int]:
    d = shape_dims(s)
    return list(order) if isinstance(order, list) else [order] * len(d)


def build_space(s: str, order):
    import modepy as mp
    return mp.space_for_shape(build_shape(s), order_arg(order))


def ndofs(s: str, order) -> int:
    return math.prod(math.comb(n + d, d) for n, d in
                     zip(orders_of(s, order), shape_dims(s), strict=True))


SIMPLICES = ["S1", "S2", "S3"]
CUBES = ["H2", "H3"]
PRISMS = ["T:2,1", "T:1,2", "T:1,3", "T:3,1", "T:1,2,1", "T:2,1,1", "T:1,1,2"]
TPS = [*CUBES, "T:1,1", "T:1,1,1", *PRISMS]

ALL = [*SIMPLICES, *TPS]

# also one factor, and four
MANY = ["H1", "T:1", "H4", "T:1,1,1,1", "T:1,2,1,1", "T:2,1,1,1", "T:3,1,1", "T:1,1,3",
        "T:1,3,1"]


@st.composite
def shape_and_order(draw, shapes=None, max_dofs=120, max_order=12, min_order=0,
                    mixed=True):
    s = draw(st.sampled_from(shapes or ALL))
    dims = shape_dims(s)

    def fits(order):
        return ndofs(s, order) <= max_dofs

    top = min_order
    while top < max_order and fits(top + 1):
        top += 1
    if len(dims) > 1 and mixed and draw(st.booleans()):
        # one order per factor, built greedily so that the budget is respected
        orders = [min_order] * len(dims)
        for i in draw(st.permutations(list(range(len(dims))))):
            hi = orders[i]
            while hi < max_order:
                trial = list(orders)
                trial[i] = hi + 1
                if not fits(trial):
                    break
                hi += 1
            orders[i] = draw(st.integers(min_order, hi))
        return {"shape": s, "order": orders}
    return {"shape": s, "order": draw(st.integers(min_order, top))}

# }}}


# {{{ points

unit_floats = st.floats(0.0, 1.0, allow_nan=False, allow_subnormal=False)


@st.composite
def simplex_point(draw, d: int):
    """A point of the bi-unit simplex: generic, on a lattice (vertices, edges,
    faces included) or close to a vertex/face."""
    if d == 0:
        return []
    kind = draw(st.sampled_from(["u", "u", "lat", "near"]))
    if kind == "u":
        u = sorted(draw(unit_floats) for _ in range(d))
        lam = [b - a for a, b in zip([0.0, *u[:-1]], u, strict=True)]
        perm = draw(st.permutations(list(range(d))))
        lam = [lam[i] for i in perm]
    elif kind == "lat":
        m = draw(st.integers(1, 6))
        rem = m
        lam = []
        for _ in range(d):
            k = draw(st.integers(0, rem))
            rem -= k
            lam.append(k / m)
        perm = draw(st.permutations(list(range(d))))
        lam = [lam[i] for i in perm]
    else:
        # convex combination: mostly one vertex
        eps = 10.0 ** -draw(st.integers(1, 13))
        v = draw(st.integers(0, d))
        u = [draw(unit_floats) for _ in range(d + 1)]
        tot = sum(u) or 1.0
        full = [eps * x / tot for x in u]
        full[v] = 1 - sum(x for i, x in enumerate(full) if i != v)
        lam = full[1:]
    return [2 * x - 1 for x in lam]


@st.composite
def points(draw, dims, min_size=1, max_size=6):
    n = draw(st.integers(min_size, max_size))
    kind = draw(st.sampled_from(["free"]*5 + ["orbit", "equal"]))
    if kind == "free" or not sum(dims):
        return [sum((draw(simplex_point(d)) for d in dims), []) for _ in range(n)]
    # one point, and its images under the cyclic symmetries of all factors (as in the
    # symmetric rules and node sets); with at least all of the images of one factor
    n = max(n, min(max_size, max(dims) + 1))
    first = [[max(-1.0, np.floor((c + 1)*512)/512 - 1) for c in draw(simplex_point(d))]
             for d in dims]
    out = []
    for k in range(n):
        p = []
        for c in first:
            lam = [(1 + v)/2 for v in c]
            lam = [1 - sum(lam), *lam]
            j = k % len(lam) if kind == "orbit" else 0
            p += [2*v - 1 for v in (lam[j:] + lam[:j])[1:]]
        out.append(p)
    return out


def pts(case_points, dim: int) -> np.ndarray:
    """(dim, npts) array from the JSON list of points."""
    return np.array(case_points, dtype=np.float64).reshape(len(case_points), dim).T.copy()


def snapped(case_points, dim: int) -> np.ndarray:
    """As pts, on a grid of spacing 1e-6: no point is nearly, but not quite, one of
    those where the simplex bases have a removable singularity (there, they are
    accurate to about 1e-10, which C01 and C03 allow for)."""
    # (downwards, so that points stay inside)
    return np.floor((pts(case_points, dim) + 1)*2**20)/2**20 - 1


def coeffs(n: int, lo=-1.0, hi=1.0):
    """Seed based coefficients would defeat shrinking, so: explicit small floats."""
    return st.lists(st.floats(lo, hi, allow_subnormal=False, width=32),
                    min_size=n, max_size=n)

# }}}


def prng(seed: int, *shape, lo=-1.0, hi=1.0) -> np.ndarray:
    """Deterministic array from an integer drawn by the generator (for bulk data
    whose individual values do not matter for shrinking)."""
    return np.random.default_rng(seed).uniform(lo, hi, size=shape)


DTYPES = ["int64", "int32", "float32", "longdouble", "complex128"]


@st.composite
def int_points(draw, dims, min_size=1, max_size=5):
    """Points of the product of simplices with coordinates -1, 0, 1."""
    def one(d):
        p = [draw(st.sampled_from([-1, -1, 0, 1])) for _ in range(d)]
        while sum(p) > 2 - d:
            i = max(range(d), key=lambda k: p[k])
            p[i] -= 1
        return p
    n = draw(st.integers(min_size, max_size))
    return [sum((one(d) for d in dims), []) for _ in range(n)]


def dtype_tol(name: str) -> float:
    return 2e-5 if name == "float32" else 1e-12
