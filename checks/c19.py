"""C19: coordinate maps."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub, Trivial
from vlib.util import arr, close, need, raises


ID = "C19"
SCALE = 10
ASSUMPTIONS = [
    "equilateral coordinates are offered for 1 to 3 dimensions",
    "affine maps with singular values above 1e-4 and entries of order one",
]

MILD = st.floats(-3, 3, allow_subnormal=False)


# the documented equilateral elements (doc of modepy.tools / shapes)
EQUI = {
    1: np.array([[-1.0, 1.0]]),
    2: np.array([[-1, 1, 0], [-1/3**0.5, -1/3**0.5, 2/3**0.5]]),
    3: np.array([[-1, 1, 0, 0],
                 [-1/3**0.5, -1/3**0.5, 2/3**0.5, 0],
                 [-1/6**0.5, -1/6**0.5, -1/6**0.5, 3/6**0.5]]),
}


# {{{ simplex coordinates

@st.composite
def coord_cases(draw):
    d = draw(st.integers(1, 6))
    n = draw(st.integers(1, 5))
    # any affine coordinates: barycentric summing to one, inside or outside
    pts = [[draw(MILD) for _ in range(d)] for _ in range(n)]
    return {"d": d, "u": pts, "in": draw(gen.points([d], max_size=3)),
            "w": [draw(MILD) for _ in range(n)]}


def run_coord(case):
    import modepy as mp
    from modepy import tools as t
    d = case["d"]
    u = np.hstack([gen.pts(case["u"], d), gen.pts(case["in"], d)])
    u0 = u.copy()
    b = arr(t.unit_to_barycentric(u), (d + 1, u.shape[1]), "barycentric")
    need(np.array_equal(u, u0), "points modified")
    close(b.sum(axis=0), np.ones(u.shape[1]), 1e-13, "barycentric sum", scale=20.0)
    v = ref.vertices([d])
    close(v @ b, u, 1e-13, "barycentric combination of the vertices", scale=20.0)
    close(t.barycentric_to_unit(b), u, 1e-13, "unit -> barycentric -> unit",
          shape=u.shape, scale=20.0)
    inside = ref.inside([d], gen.pts(case["in"], d))
    need(np.all(inside), "harness: point not inside")
    bi = t.unit_to_barycentric(gen.pts(case["in"], d))
    need(np.all(np.asarray(bi) >= -1e-12) and np.all(np.asarray(bi) <= 1 + 1e-12),
         "interior point with barycentric coordinate outside [0,1]")
    # vertices
    close(t.unit_to_barycentric(v), np.eye(d + 1), 1e-14, "vertices -> barycentric",
          scale=1.0)
    close(t.barycentric_to_unit(np.eye(d + 1)), v, 1e-14, "unit vectors -> vertices",
          scale=1.0)
    close(t.barycentric_to_unit(np.eye(d + 1)),
          mp.unit_vertices_for_shape(mp.Simplex(d)), 1e-14, "vertices", scale=1.0)
    # non-normalized barycentric tuples: the map is linear
    w = np.array(case["w"])
    bw = b[:, :len(w)]*w
    close(t.barycentric_to_unit(bw), v @ bw, 1e-12, "linearity", scale=60.0)
    if d > 3:
        return
    e = arr(t.barycentric_to_equilateral(b), u.shape, "equilateral")
    close(e, EQUI[d] @ b, 1e-12, "barycentric -> equilateral", scale=20.0)
    e0 = e.copy()
    close(t.equilateral_to_unit(e), u, 1e-12, "equilateral -> unit", shape=u.shape,
          scale=20.0)
    need(np.array_equal(e, e0), "points modified")
    close(t.equilateral_to_unit(EQUI[d]), v, 1e-14, "equilateral vertices", scale=1.0)
    m = t.EQUILATERAL_TO_UNIT_MAP[d]
    close(m.inverse(u), e, 1e-12, "inverse of the equilateral map", shape=e.shape,
          scale=20.0)
    close(t.EQUILATERAL_VERTICES[d], EQUI[d].T, 1e-15, "vertex table", scale=1.0)
    # single points
    p = u[:, 0]
    close(t.equilateral_to_unit(e[:, 0]), p, 1e-12, "single point", shape=(d,), scale=20.0)


def enum_equi(tier):
    for d in (1, 2, 3):
        yield {"d": d}


def run_equi(case):
    from modepy import tools as t
    d = case["d"]
    ev = arr(t.barycentric_to_equilateral(np.eye(d + 1)), (d, d + 1))
    dist = np.linalg.norm(ev[:, :, None] - ev[:, None, :], axis=0)
    close(dist, 2*(1 - np.eye(d + 1)), 1e-14, "not equilateral", scale=1.0)
    close(ev.mean(axis=1), np.zeros(d), 1e-14, "not centred", scale=1.0)
    m = t.EQUILATERAL_TO_UNIT_MAP[d]
    vol = abs(np.linalg.det(ev[:, 1:] - ev[:, :1]))/math.factorial(d)
    close(m.jacobian, ref.simplex_volume(d)/vol, 1e-13, "jacobian", shape=())
    for x in (np.zeros((d, 0)), np.zeros((d, 1)), np.ones((d, 7))):
        need(np.shape(t.equilateral_to_unit(x)) == x.shape, "shape")
    for bad in (4, 5):
        raises((KeyError, NotImplementedError, ValueError),
               lambda: t.equilateral_to_unit(np.zeros((bad, 2))), "no such map")

# }}}


# {{{ affine maps

KINDS = ["any", "any", "any", "turn", "scaled turn", "orthogonal", "orthogonal columns",
         "orthogonal rows", "upper", "lower", "symmetric", "diagonal", "near diagonal",
         "identity", "shear"]


def structured(kind, a, seed):
    """a matrix with the named structure, made from *a*"""
    d = len(a)
    rng = np.random.default_rng(seed)
    if kind == "any":
        return a
    sc = 2.0**rng.integers(-2, 3, size=d)*rng.choice([-1, 1], size=d)
    if kind in ("turn", "scaled turn"):
        p = np.eye(d)[rng.permutation(d)]*rng.choice([-1, 1], size=d)
        return p*sc if kind == "scaled turn" else p
    if kind[:4] == "orth":
        q = np.linalg.qr(rng.normal(size=(d, d)))[0]
        return q*sc if kind[-2:] == "ns" else q*sc[:, None] if kind[-2:] == "ws" else q
    if kind == "upper":
        return np.triu(a, 1) + np.diag(sc)
    if kind == "lower":
        return np.tril(a, -1) + np.diag(sc)
    if kind == "symmetric":
        return (a + a.T)/2
    if kind == "diagonal":
        return np.diag(sc)
    if kind == "near diagonal":
        return np.diag(sc) + 1e-6*a
    if kind == "shear":
        r = np.eye(d)
        r[0, -1] += 3
        return r
    return np.eye(d)


@st.composite
def affine_cases(draw):
    d = draw(st.integers(1, 6))
    ent = st.one_of(st.integers(-3, 3), st.floats(-2, 2, allow_subnormal=False))
    return {
        "a": [[draw(ent) for _ in range(d)] for _ in range(d)],
        "b": [draw(ent) for _ in range(d)],
        "x": [[draw(MILD) for _ in range(d)] for _ in range(draw(st.integers(0, 4)))],
        "kind": draw(st.sampled_from(KINDS)), "seed": draw(st.integers(0, 999)),
        "diag": draw(st.sampled_from([0, 0, 4])),
        "scales": [draw(st.sampled_from([0, 1, -10, 10, -27, 27])) for _ in range(d)],
        "form": draw(st.sampled_from(["list", "array", "intarray", "F"])),
        "order": draw(st.sampled_from([["jac", "inv", "call"], ["inv", "call", "jac"],
                                       ["call", "inv", "inv", "jac", "jac"]])),
        "cplx": draw(st.booleans())}


def det(a):
    """cofactor-free determinant by fraction-less elimination in long double"""
    a = np.array(a, dtype=np.longdouble)
    n = len(a)
    r = np.longdouble(1)
    for k in range(n):
        p = k + int(np.argmax(np.abs(a[k:, k])))
        if a[p, k] == 0:
            return 0.0
        if p != k:
            a[[k, p]] = a[[p, k]]
            r = -r
        r *= a[k, k]
        a[k+1:] -= np.outer(a[k+1:, k]/a[k, k], a[k])
    return float(r)


def run_affine(case):
    from modepy.tools import AffineMap
    a = np.array(case["a"], dtype=np.float64) + case["diag"]*np.eye(len(case["a"]))
    a = structured(case["kind"], a, case["seed"])
    b = np.array(case["b"], dtype=np.float64)
    d = len(b)
    if case["form"] == "intarray":
        a, b = np.round(a), np.round(b)
    sv = np.linalg.svd(a)[1]
    if sv.min() < 1e-4:
        raise Trivial
    k = sv.max()/sv.min()
    s = max(1.0, np.abs(a).max(), 1/np.linalg.svd(a)[1].min())
    aa, bb = {"list": (a.tolist(), b.tolist()), "array": (a.copy(), b.copy()),
              "intarray": (a.astype(int), b.astype(int)),
              "F": (np.asfortranarray(a), b.copy())}[case["form"]]
    m = AffineMap(aa, bb)
    x = gen.pts(case["x"], d)
    if case["cplx"]:
        x = x + 1j*x[::-1]
    x0 = x.copy()
    for what in case["order"]:
        if what == "jac":
            e = det(a)
            close(m.jacobian, e, 1e-12, "jacobian is not the determinant", shape=(),
                  scale=np.prod(np.linalg.norm(a, axis=1)))
            close(m.inverse.jacobian, 1/e, 1e-12*k**2, "jacobian of the inverse", shape=())
        elif what == "inv":
            y = arr(m.inverse(x), x.shape, "inverse map")
            close(a @ y + b[:, None], x, 1e-13*k, "map after inverse", scale=10*s)
            close(m(y), x, 1e-13*k, "map(inverse(x))", shape=x.shape, scale=10*s)
            close(m.inverse.inverse(x), a @ x + b[:, None], 1e-13*k*k,
                  "inverse of the inverse", shape=x.shape, scale=10*s)
        else:
            close(m(x), a @ x + b[:, None], 1e-14, "map", shape=x.shape, scale=100.0)
            close(m.inverse(m(x)), x, 1e-13*k, "inverse(map(x))", shape=x.shape,
                  scale=10*s)
            if x.shape[1]:
                close(m(x[:, 0]), a @ x[:, 0] + b, 1e-14, "map of one point", shape=(d,),
                      scale=100.0)
                close(m.inverse(x[:, 0]), m.inverse(x)[:, 0], 1e-14*k, "one point",
                      shape=(d,), scale=10*s)
    # axes of very different length (powers of two: nothing is rounded)
    sc = 2.0**np.array(case["scales"])
    m = AffineMap(a*sc, b)
    z = x/sc[:, None]
    close(m(z), a @ x + b[:, None], 1e-14, "map, scaled axes", shape=x.shape, scale=100.0)
    close(m.inverse(m(z))*sc[:, None], x, 1e-12*k, "inverse(map(x)), scaled axes",
          shape=x.shape, scale=10*s)
    close(m.jacobian/np.prod(sc), det(a), 1e-12, "jacobian, scaled axes", shape=(),
          scale=np.prod(np.linalg.norm(a, axis=1)))
    need(np.array_equal(x, x0), "points modified")
    need(np.array_equal(np.asarray(aa, float), a) and np.array_equal(np.asarray(bb, float), b),
         "matrix or vector modified")

# }}}


@st.composite
def lay_cases(draw):
    d = draw(st.integers(1, 5))
    how = draw(layouts.how())
    co = st.integers(-3, 3) if layouts.typed(how) else st.floats(-3, 3, width=32)
    vec = st.lists(co, min_size=d, max_size=d)
    return {"d": d, "how": how, "many": draw(layouts.sizes), "x": draw(st.lists(vec, min_size=1, max_size=6)),
            "a": draw(st.lists(vec, min_size=d, max_size=d)), "b": draw(vec)}


def run_lay(case):
    """Points and matrices of any type and layout."""
    from modepy import tools as t
    d, how = case["d"], case["how"]
    x = gen.pts(case["x"], d)
    layouts.same(t.unit_to_barycentric, [x], how, "unit_to_barycentric", 1e-13)
    b = np.vstack([1 - x.sum(axis=0), x])
    layouts.same(t.barycentric_to_unit, [b], how, "barycentric_to_unit", 1e-13)
    layouts.same(lambda y: t.barycentric_to_unit(y[:, 0]), [b], how, "one point", 1e-13)
    if d <= 3:
        layouts.same(t.barycentric_to_equilateral, [b], how, "to equilateral", 1e-13)
        layouts.same(t.equilateral_to_unit, [x], how, "equilateral_to_unit", 1e-13)
        layouts.same(lambda y: t.equilateral_to_unit(y[:, 0]), [x], how, "one point", 1e-13)
    a = np.array(case["a"], dtype=float) + 7*d*np.eye(d)
    c = np.array(case["b"], dtype=float)
    layouts.same(lambda p, q, r: t.AffineMap(p, q)(r), [a, c, x], how, "affine map", 1e-13)
    layouts.same(lambda p, q, r: t.AffineMap(p, q).inverse(r), [a, c, x], how,
                 "inverse affine map")
    layouts.same(lambda p, q: t.AffineMap(p, q).jacobian, [a, c], how, "jacobian")
    n = case["many"]
    layouts.batch(t.unit_to_barycentric, x, n, "unit_to_barycentric")
    layouts.batch(t.barycentric_to_unit, b, n, "barycentric_to_unit")
    layouts.batch(t.AffineMap(a, c), x, n, "affine map")
    layouts.batch(t.AffineMap(a, c).inverse, x, n, "inverse affine map")
    if d <= 3:
        layouts.batch(t.barycentric_to_equilateral, b, n, "to equilateral")
        layouts.batch(t.equilateral_to_unit, x, n, "equilateral_to_unit")


SUBS = [
    Sub("layouts", run_lay, strategy=lay_cases(), quick=300, thorough=20000,
        classify=lambda c: [layouts.label(c["how"])], rule="every case"),
    Sub("coordinates", run_coord, strategy=coord_cases(), quick=400, thorough=20000,
        nontrivial=lambda c: c["d"] > 1, rule="dimension above one"),
    Sub("equilateral", run_equi, cases=enum_equi),
    Sub("affine", run_affine, strategy=affine_cases(), quick=400, thorough=20000,
        nontrivial=lambda c: len(c["b"]) > 1 and len(c["x"]) > 0,
        rule="at least two dimensions and one point"),
]
