"""Bases and node sets used by the matrix checks."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref


BASES = ["onb", "default", "mono"]
NODES = ["clustered", "equi", "perturbed", "shrunk", "gauss"]


def build_basis(kind, shape_str, order):
    import modepy as mp
    space, shape = gen.build_space(shape_str, order), gen.build_shape(shape_str)
    if kind == "onb":
        return mp.orthonormal_basis_for_space(space, shape)
    if kind == "mono":
        return mp.monomial_basis_for_space(space, shape)
    return mp.basis_for_space(space, shape)


def _simplex_clustered(d, n):
    """Node set of one simplex factor, from modepy's default (checked in C13)."""
    import modepy as mp
    return mp.edge_clustered_nodes_for_space(mp.PN(d, n), mp.Simplex(d))


def node_set(spec, shape_str, order):
    """(dim, n) nodes, unisolvent for the space of *order*; in random order if asked."""
    import modepy as mp
    kind, seed = spec
    space, shape = gen.build_space(shape_str, order), gen.build_shape(shape_str)
    dims, orders = gen.shape_dims(shape_str), gen.orders_of(shape_str, order)
    rng = np.random.default_rng(seed)
    if kind == "equi":
        x = mp.equispaced_nodes_for_space(space, shape)
    elif kind == "gauss" and all(d == 1 for d in dims):
        x = np.zeros((0, 1))
        for n in orders:
            xi = np.polynomial.legendre.leggauss(n + 1)[0]
            x = np.vstack([np.tile(x, (1, n + 1)), np.repeat(xi, x.shape[1])])
    else:
        x = mp.edge_clustered_nodes_for_space(space, shape)
    x = np.array(x, dtype=np.float64)
    if kind == "perturbed" and x.shape[1] > 1:
        d = np.linalg.norm(x[:, :, None] - x[:, None, :], axis=0)
        h = np.min(d[d > 0])
        x = x + rng.uniform(-0.15*h, 0.15*h, size=x.shape)
    if kind == "shrunk":
        x = 0.6*x - 0.1
    if seed:
        x = x[:, rng.permutation(x.shape[1])]
    return np.ascontiguousarray(x)


RELATED = ["near", "near", "one", "perm", "swap", "part", "repeat", "more", "same"]


@st.composite
def related_spec(draw):
    return [draw(st.sampled_from(RELATED)), draw(st.sampled_from([8, 12, 16, 18, 20])),
            draw(st.integers(0, 999))]


def related_nodes(spec, old, shape_str):
    """Nodes that resemble the given ones: slightly moved (towards the centre), all or one
    of them, renumbered, some of them, some twice, all and others."""
    kind, p, seed = spec
    rng = np.random.default_rng(seed)
    n = old.shape[1]
    c = ref.vertices(gen.shape_dims(shape_str)).mean(axis=1)[:, None]
    eps = 2.0**-p
    i = int(rng.integers(n))
    if kind == "near":
        x = old + eps*(c - old)
    elif kind == "one":
        x = old.copy()
        x[:, i] += max(eps, 2.0**-12)*(c[:, 0] - x[:, i])
    elif kind == "perm":
        x = old[:, rng.permutation(n)]
    elif kind == "swap":
        x = old.copy()
        j = int(rng.integers(n))
        x[:, [i, j]] = x[:, [j, i]]
    elif kind == "part":
        x = old[:, np.sort(rng.permutation(n)[:max(1, n//2)])]
    elif kind == "repeat":
        x = old[:, rng.integers(n, size=n)]
    elif kind == "more":
        x = np.hstack([old, old + (c - old)*rng.uniform(0.1, 0.9, size=n)])
    else:
        x = old.copy()
    return np.ascontiguousarray(x)


@st.composite
def node_spec(draw, kinds=NODES):
    return [draw(st.sampled_from(kinds)), draw(st.sampled_from([0, 1, 2, 3]))]


def rand_poly(shape_str, order, seed):
    """values(x), gradient(x) of a random polynomial of the space (reference basis),
    and its coefficients."""
    dims, orders = gen.shape_dims(shape_str), gen.orders_of(shape_str, order)
    c = gen.prng(seed, gen.ndofs(shape_str, order))

    def f(x):
        return ref.tp_vdm(dims, orders, x) @ c

    def g(x):
        return ref.tp_grad_vdm(dims, orders, x) @ c
    return f, g, c


def cond(shape_str, order, x):
    dims, orders = gen.shape_dims(shape_str), gen.orders_of(shape_str, order)
    return float(np.linalg.cond(ref.tp_vdm(dims, orders, x)))


def basis_cond(basis, x):
    """conditioning of the library basis on the given nodes"""
    v = np.array([np.asarray(f(x)) for f in basis.functions]).T
    return float(np.linalg.cond(v)) if v.size else 1.0


def int_weighted(shape_str, deg_orders):
    """Reference quadrature exact to the given per-factor degrees."""
    return ref.tp_quad(gen.shape_dims(shape_str), deg_orders)


# {{{ high orders: single functions out of large bases

HIGH = {"S1": 150, "S2": 60, "S3": 30, "H2": 40, "H3": 16, "T:2,1": 16, "T:1,2": 16,
        "T:1,3": 9, "T:3,1": 9, "T:1,2,1": 8, "H4": 8}


@st.composite
def high_case(draw, shapes=None, max_pts=4, frac=1):
    s = draw(st.sampled_from(shapes or list(HIGH)))
    top = int(HIGH[s]*frac)
    dims = gen.shape_dims(s)
    if len(dims) > 1 and draw(st.booleans()):
        # very different orders
        order = [draw(st.integers(0, 2)) for _ in dims]
        order[draw(st.integers(0, len(dims) - 1))] = draw(st.integers(top // 2, top))
    else:
        order = draw(st.integers(top // 3, top))
    n = gen.ndofs(s, order)
    i = st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 40), n - 1))
    return {"shape": s, "order": order, "i": draw(st.lists(i, min_size=1, max_size=4)),
            "x": draw(gen.points(dims, max_size=max_pts))}


def named_modes(s, order):
    """number of functions of the orthonormal basis; their mode ids, one tuple per
    factor, by index (first factor fastest)"""
    import modepy as mp
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    per = [tuple(mp.orthonormal_basis_for_space(mp.PN(d, k), mp.Simplex(d)).mode_ids)
           for d, k in zip(dims, orders, strict=True)]

    def ids(i):
        out = []
        for p in per:
            out.append(p[i % len(p)])
            i //= len(p)
        return out
    return ids

# }}}
