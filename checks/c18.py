"""C18: submeshes tessellate the element."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Sub
from vlib.util import need


ID = "C18"
SCALE = 4
ASSUMPTIONS = [
    "node tuples of a space of order at least 1 in every factor (order 0 has a single"
    " node and no cells)",
]


@st.composite
def cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=130, max_order=9,
                                 min_order=1))
    c["shuffle"] = draw(st.integers(0, 30))
    c["list"] = draw(st.booleans())
    c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), min_size=2, max_size=5))
    return c


def run(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    shape, space = gen.build_shape(s), gen.build_space(s, order)
    tup = [tuple(int(i) for i in t) for t in mp.node_tuples_for_space(space)]
    if case["shuffle"]:
        p = np.random.default_rng(case["shuffle"]).permutation(len(tup))
        tup = [tup[i] for i in p]
    orig = list(tup)
    arg = tup if case["list"] else tuple(tup)
    cells = mp.submesh_for_shape(shape, arg)
    need(list(arg) == orig, "node tuples modified")
    per = np.concatenate([np.full(d, n) for d, n in zip(dims, orders, strict=True)])
    x = (2*np.array(tup, dtype=float)/per - 1).T
    nv = math.prod(d + 1 for d in dims)
    want = math.prod(n**d for d, n in zip(dims, orders, strict=True))
    need(len(cells) == want, f"{len(cells)} cells, expected {want}")
    c = np.array([[int(i) for i in cell] for cell in cells])
    need(c.shape == (want, nv), f"cells have {c.shape[1:]} vertices, expected {nv}")
    need(c.min() >= 0 and c.max() < len(tup), "vertex index out of range")
    need(len({frozenset(r) for r in c.tolist()}) == want, "repeated cells")
    need(all(len(set(r)) == nv for r in c.tolist()), "degenerate cell")
    need(set(c.ravel().tolist()) == set(range(len(tup))), "nodes not used by any cell")
    # every cell is an affine image of the reference element, same volume
    rv = ref.vertices(dims)
    a = np.vstack([rv, np.ones(nv)])                     # (dim+1, nv)
    y = x[:, c].transpose(1, 0, 2)                       # (cell, dim, nv)
    m = y @ np.linalg.pinv(a)                            # (cell, dim, dim+1)
    need(np.max(np.abs(m @ a - y)) < 1e-12,
         "cell is not an affine image of the element (vertex order)")
    det = np.linalg.det(m[:, :, :-1])
    need(np.allclose(det, 1/want, rtol=1e-10, atol=0),
         f"cell volumes/orientation: {np.unique(np.round(det*want, 6))} (should be 1)")
    # given points (vertices, faces, lattice points included) are in some cell, generic
    # ones in exactly one
    pt = gen.pts(case["x"], sum(dims))
    rng = np.random.default_rng(case["shuffle"])
    gx = []
    for d in dims:
        lam = rng.dirichlet(np.ones(d + 1), size=25)
        gx.append(2*lam[:, 1:].T - 1)
    gx = np.vstack(gx)
    minv = np.linalg.inv(m[:, :, :-1])

    def locate(p, tol):
        loc = np.einsum("cij,cjk->cik", minv, p[None] - m[:, :, -1:])
        return np.array([[bool(ref.inside(dims, loc[k, :, j], tol)) for j in range(p.shape[1])]
                         for k in range(want)])
    need(np.all(locate(pt, 1e-9).any(axis=0)), "point not covered by any cell")
    hit = locate(gx, -1e-9).sum(axis=0)
    hit2 = locate(gx, 1e-9).sum(axis=0)
    need(np.all(hit <= 1), "cells overlap")
    need(np.all(hit2 >= 1), "element not covered")
    # conforming: an interior facet is shared by exactly two cells
    if len(dims) == 1:
        cnt = {}
        for r in c.tolist():
            for f in itertools.combinations(sorted(r), dims[0]):
                cnt[f] = cnt.get(f, 0) + 1
        d, n = dims[0], orders[0]
        bnd = sum(1 for v in cnt.values() if v == 1)
        need(max(cnt.values()) <= 2 and bnd == (d + 1)*n**(d - 1),
             f"not conforming: {bnd} boundary facets, max multiplicity {max(cnt.values())}")


SUBS = [
    Sub("submesh", run, cases(), quick=250, shards=4,
        nontrivial=lambda c: max(gen.orders_of(c["shape"], c["order"])) > 1,
        rule="more than one cell",
        classify=lambda c: [c["shape"], "shuffled" if c["shuffle"] else "default order"]),
]
