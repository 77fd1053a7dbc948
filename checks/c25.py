"""C25: Lebesgue constants."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Sub, Trivial
from vlib.nodal import node_set, node_spec
from vlib.util import close, fail, need, raises


ID = "C25"
SCALE = 4
ASSUMPTIONS = [
    "positive order; node sets whose (reference) interpolation matrix has condition"
    " number below 1e7",
    "the lattice is the equispaced one with 30 (two dimensions) or 10 (otherwise)"
    " subdivisions per order",
]

TOP = {"S1": 20, "S2": 9, "S3": 5, "H1": 20, "H2": 6, "H3": 3, "T:2,1": 3, "T:1,2": 3,
       "T:1,1": 6}


def lattice(dims, m):
    """all points of the equispaced lattice with m subdivisions"""
    pts = None
    for d in dims:
        idx = np.array([t for t in itertools.product(range(m + 1), repeat=d)
                        if d == 1 or sum(t) <= m], dtype=float).T.reshape(d, -1)
        p = 2*idx/m - 1
        if pts is None:
            pts = p
        else:
            a, b = pts.shape[1], p.shape[1]
            pts = np.vstack([np.repeat(pts, b, axis=1), np.tile(p, (1, a))])
    return pts


def lebesgue(dims, n, nodes, x):
    orders = [n]*len(dims)
    v = ref.tp_vdm(dims, orders, nodes)
    return np.sum(np.abs(np.linalg.solve(v.T, ref.tp_vdm(dims, orders, x).T)), axis=0)


@st.composite
def leb_cases(draw):
    s = draw(st.sampled_from(list(TOP)))
    n = draw(st.integers(1, TOP[s]))
    return {"shape": s, "n": n, "nodes": draw(node_spec()),
            "perm": draw(st.integers(0, 10**6)), "sym": draw(st.integers(0, 10**6)),
            "pts": draw(gen.points(gen.shape_dims(s), max_size=4))}


def symmetry(dims, x, seed):
    """image of x under a random symmetry of the element"""
    rng = np.random.default_rng(seed)
    out, o = [], 0
    for d in dims:
        lam = (x[o:o + d] + 1)/2
        full = np.vstack([1 - lam.sum(axis=0), lam])[rng.permutation(d + 1)]
        out.append(2*full[1:] - 1)
        o += d
    # exchange equal factors
    order = list(range(len(dims)))
    perm = list(rng.permutation(len(dims)))
    if all(dims[i] == dims[p] for i, p in zip(order, perm, strict=True)):
        out = [out[p] for p in perm]
    return np.vstack(out)


def run_leb(case):
    from modepy.tools import estimate_lebesgue_constant as est
    s, n = case["shape"], case["n"]
    shape = gen.build_shape(s)
    dims = gen.shape_dims(s)
    x = node_set(case["nodes"], s, n)
    k = np.linalg.cond(ref.tp_vdm(dims, [n]*len(dims), x))
    if k > 1e7:
        raise Trivial
    x0 = x.copy()
    c = est(n, x, shape)
    need(np.array_equal(x, x0), "nodes modified")
    try:
        c = float(c)
    except TypeError:
        fail(f"not a number: {c!r}")
    need(c >= 1 - 1e-9, f"Lebesgue constant {c} below one")
    m = (30 if sum(dims) == 2 else 10)*n
    e = float(np.max(lebesgue(dims, n, x, lattice(dims, m))))
    tol = 1e-12*k + 1e-9
    close(c, e, tol, "maximum of the Lebesgue function", shape=(), scale=e)
    # order of the nodes
    p = np.random.default_rng(case["perm"]).permutation(x.shape[1])
    close(est(n, x[:, p], shape), c, tol, "depends on the order of the nodes", shape=(),
          scale=e)
    # symmetry image
    y = symmetry(dims, x, case["sym"])
    close(est(n, y, shape), c, 10*tol, "depends on the symmetry image", shape=(), scale=e)
    # interpolation never amplifies by more than the constant (up to lattice resolution)
    q = gen.pts(case["pts"], sum(dims))
    need(np.all(lebesgue(dims, n, x, q) <= 1.25*c + tol*e),
         "Lebesgue function exceeds the constant")


def enum_known(tier):
    # equispaced, closed form
    yield {"x": [-1, 1], "c": 1.0}
    yield {"x": [-1, 0, 1], "c": 1.25}
    # Lobatto nodes of order 2 are the equispaced ones; two interior Gauss nodes
    yield {"x": [-1/3**0.5, 1/3**0.5], "c": 3**0.5}
    yield {"x": [-0.5**0.5, 0.5**0.5], "c": 2**0.5}
    # Chebyshev nodes: Lambda = 1/N sum cot((2k+1) pi/(4N)), attained at the end points
    for n in range(3, 12):
        k = np.arange(n)
        yield {"x": np.cos((2*k + 1)*np.pi/(2*n)).tolist(),
               "c": float(np.mean(1/np.tan((2*k + 1)*np.pi/(4*n))))}


def run_known(case):
    import modepy as mp
    from modepy.tools import estimate_lebesgue_constant as est
    x = np.array([case["x"]])
    close(est(x.shape[1] - 1, x, mp.Simplex(1)), case["c"], 1e-11,
          "Lebesgue constant in closed form", shape=())
    # one point too many dimensions
    raises(ValueError, lambda: est(1, np.zeros((2, 3)), mp.Simplex(3)), "2-D nodes in 3-D")
    raises(ValueError, lambda: est(1, x[:, :2], mp.Simplex(2)), "1-D nodes in 2-D")


def enum_drawn(tier):
    for s, top in (("S1", 4), ("S2", 4), ("H2", 3), ("T:1,1", 2)):
        for n in range(1, top + 1):
            for kind in ("edge_clustered_nodes_for_space", "equispaced_nodes_for_space"):
                yield {"shape": s, "n": n, "nodes": kind}


def run_drawn(case):
    """the constant is the same if its function is drawn as well"""
    import contextlib
    import io
    import os
    import tempfile

    import modepy as mp
    from modepy.tools import estimate_lebesgue_constant as est
    with tempfile.TemporaryDirectory() as tmp:
        os.environ.setdefault("MPLCONFIGDIR", tmp)
        try:
            import matplotlib
        except ImportError:
            raise Trivial from None
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        shape = gen.build_shape(case["shape"])
        x = np.array(getattr(mp, case["nodes"])(mp.space_for_shape(shape, case["n"]), shape))
        x0 = x.copy()
        c = est(case["n"], x, shape)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                d = est(case["n"], x, shape, visualize=True)
            finally:
                plt.close("all")
    need(np.array_equal(x, x0), "nodes modified")
    close(d, c, 1e-12, "constant of a drawn Lebesgue function", shape=())


SUBS = [
    Sub("lattice", run_leb, strategy=leb_cases(), quick=48, thorough=1600, shards=6,
        nontrivial=lambda c: c["n"] > 1, rule="order above one"),
    Sub("known", run_known, cases=enum_known),
    Sub("drawn", run_drawn, cases=enum_drawn),
]
