"""C15: differentiation matrices."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts
from vlib.core import Sub
from vlib.nodal import BASES, basis_cond, build_basis, node_set, node_spec, rand_poly, related_nodes, related_spec
from vlib.util import arr, close, need, raises


ID = "C15"
SCALE = 5
ASSUMPTIONS = [
    "accuracy is judged relative to the condition number of the Vandermonde matrix"
    " (cases above 1e8 are skipped)",
    "axis permutation: node tuple sets that are symmetric under the exchange of the"
    " two axes and nodes placed accordingly",
]

TOL = 1e-13


@st.composite
def diff_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=140, max_order=16))
    c["basis"] = draw(st.sampled_from(BASES))
    c["from"] = draw(node_spec())
    c["to"] = draw(st.sampled_from(["same", "pts", "set", "rel"]))
    c["new"] = draw(gen.points(gen.shape_dims(c["shape"]), min_size=1, max_size=6))
    c["other"] = draw(node_spec())
    c["rel"] = draw(related_spec())
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def run_diff(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    dim = sum(gen.shape_dims(s))
    b = build_basis(case["basis"], s, order)
    old = node_set(case["from"], s, order)
    k = basis_cond(b, old)
    if k > 1e8:
        return
    f, g, _ = rand_poly(s, order, case["seed"])
    if case["to"] == "same":
        new = old
        mats = mp.diff_matrices(b, old)
        alt = mp.differentiation_matrices(b.functions, b.gradients, old)
        alt2 = mp.diff_matrices(b, old, from_nodes=old)
    else:
        new = (gen.snapped(case["new"], dim) if case["to"] == "pts"
               else related_nodes(case["rel"], old, s) if case["to"] == "rel"
               else node_set(case["other"], s, order))
        mats = mp.diff_matrices(b, new, old)
        alt = mp.differentiation_matrices(b.functions, b.gradients, new, from_nodes=old)
        alt2 = mp.diff_matrices(b, nodes=new, from_nodes=old)
    n, m = old.shape[1], new.shape[1]
    need(isinstance(mats, (tuple, list)) and len(mats) == dim,
         f"{len(mats)} differentiation matrices, expected {dim}")
    u, du = f(old), g(new)
    for ax in range(dim):
        d = arr(mats[ax], (m, n), f"differentiation matrix {ax}")
        sc = (1 + np.max(np.abs(d)))*(1 + np.max(np.abs(u)))*n
        close(d @ u, du[ax], TOL*k, f"derivative along axis {ax}", shape=(m,), scale=sc)
        close(d @ np.ones(n), np.zeros(m), TOL*k, f"axis {ax}: derivative of 1", scale=sc)
        close(alt[ax], d, TOL*k, "differentiation_matrices", scale=sc)
        close(alt2[ax], d, TOL*k, "explicit from_nodes", scale=sc)
        # coordinate functions
        for j in range(dim):
            if min(_axis_orders(s, order)) >= 1:
                e = np.full(m, 1.0 if j == ax else 0.0)
                close(d @ old[j], e, TOL*k, f"axis {ax}: derivative of x{j}", scale=sc)
    if case["to"] == "same":
        # mixed second derivatives commute on the space
        sc = n*n*(1 + max(np.max(np.abs(x)) for x in mats))**2
        for a, c in itertools.combinations(range(dim), 2):
            close(mats[a] @ mats[c], np.asarray(mats[c]) @ mats[a], TOL*k,
                  f"axes {a},{c} commute", scale=sc)
    # rejected: not unisolvent
    if n > 1:
        raises(ValueError, lambda: mp.diff_matrices(b, new, old[:, 1:]),
               "too few interpolation nodes")
    more = np.hstack([old, old[:, :1]])
    raises(ValueError, lambda: mp.differentiation_matrices(b.functions, b.gradients, more),
           "too many interpolation nodes")


def _axis_orders(s, order):
    return sum(([n]*d for d, n in zip(gen.shape_dims(s), gen.orders_of(s, order),
                                      strict=True)), [])


@st.composite
def lay_cases(draw):
    c = {"shape": draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:1,2", "T:2,1"])),
         "order": draw(st.integers(1, 2)), "basis": draw(st.sampled_from(BASES)),
         "how": draw(layouts.how()), "new": draw(st.booleans()),
         "many": draw(layouts.sizes)}
    if c["shape"] in ("H3", "T:1,2", "T:2,1") or not layouts.typed(c["how"]):
        c["order"] = draw(st.integers(1, 3)) if not layouts.typed(c["how"]) else c["order"]
    c["x"] = draw(gen.int_points(gen.shape_dims(c["shape"])))
    return c


def run_lay(case):
    """Node arrays of any type and layout (the equispaced nodes of order 1 and 2 are
    integers)."""
    import modepy as mp
    s, order = case["shape"], case["order"]
    b = build_basis(case["basis"], s, order)
    old = node_set(["equi", 0], s, order)
    x = gen.snapped(case["x"], sum(gen.shape_dims(s))) if case["new"] else old
    layouts.same(lambda a: mp.diff_matrices(b, a), [old], case["how"],
                 "diff_matrices", 1e-11)
    layouts.same(lambda a, c: mp.diff_matrices(b, a, from_nodes=c), [x, old], case["how"],
                 "diff_matrices between node sets", 1e-11)
    layouts.same(lambda a, c: mp.differentiation_matrices(
        list(b.functions), list(b.gradients), a, from_nodes=c), [x, old], case["how"],
        "differentiation_matrices", 1e-11)
    if case["new"] and len(b.functions) <= 30:
        layouts.batch(lambda a: mp.diff_matrices(b, a, from_nodes=old), x,
                      min(case["many"], 6000), "diff_matrices", out=0, tol=1e-11)
    layouts.aliased(lambda a, c: mp.diff_matrices(b, a, from_nodes=c), old,
                    "diff_matrices")
    layouts.aliased(lambda a, c: mp.differentiation_matrices(
        list(b.functions), list(b.gradients), a, from_nodes=c), old,
        "differentiation_matrices")


# {{{ permutation

@st.composite
def perm_cases(draw):
    s = draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:1,2,1", "T:2,1", "T:3,1",
                              "T:1,1,2"]))
    top = {"S1": 10, "S2": 7, "S3": 5, "H2": 6, "H3": 3}.get(s, 3)
    return {"shape": s, "order": draw(st.integers(1, top)),
            "basis": draw(st.sampled_from(["onb", "default", "mono"])),
            "nodes": draw(st.sampled_from(["clustered", "equi"])),
            "shuffle": draw(st.integers(0, 5)), "axis": draw(st.integers(0, 3)),
            "lists": draw(st.booleans())}


def run_perm(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    dims = gen.shape_dims(s)
    dim = sum(dims)
    # axes that may be exchanged with axis 0
    if s[0] in "SH":
        axes = list(range(dim))
    else:
        own = range(dims[0])
        ones = [i for i, d in zip(np.cumsum([0, *dims[:-1]]), dims, strict=True)
                if d == 1 == dims[0]]
        axes = sorted({*own, *[int(i) for i in ones]})
    ax = axes[case["axis"] % len(axes)]
    sh, sp = gen.build_shape(s), gen.build_space(s, order)
    tup = [tuple(int(i) for i in t) for t in mp.node_tuples_for_space(sp)]
    x = (mp.edge_clustered_nodes_for_space(sp, sh) if case["nodes"] == "clustered"
         else mp.equispaced_nodes_for_space(sp, sh))
    if case["shuffle"]:
        o = np.random.default_rng(case["shuffle"]).permutation(len(tup))
        tup, x = [tup[i] for i in o], x[:, o]
    b = build_basis(case["basis"], s, order)
    p = mp.diff_matrix_permutation(tup if case["lists"] else tuple(tup), ax)
    p = arr(p, (len(tup),), "permutation", kind="iu")
    need(sorted(p.tolist()) == list(range(len(tup))), f"not a permutation: {p}")
    for i, t in enumerate(tup):
        t = list(t)
        t[0], t[ax] = t[ax], t[0]
        need(tup[p[i]] == tuple(t), f"entry {i}: {p[i]}")
    mats = mp.diff_matrices(b, x)
    k = basis_cond(b, x)
    if k > 1e8:
        return
    d0 = np.asarray(mats[0])
    close(d0[p][:, p], mats[ax], TOL*k, f"permuted first matrix, axis {ax}",
          scale=len(tup)*(1 + np.max(np.abs(d0))))

# }}}


SUBS = [
    Sub("differentiation", run_diff, diff_cases(), quick=300, shards=4,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one basis function",
        classify=lambda c: [c["shape"], c["basis"], "to " + c["to"]]),
    Sub("layouts", run_lay, lay_cases(), quick=150, classify=lambda c: [layouts.label(c["how"])],
        rule="every case"),
    Sub("permutation", run_perm, perm_cases(), quick=200, shards=2,
        nontrivial=lambda c: c["axis"] > 0, rule="an axis other than the first",
        classify=lambda c: [c["shape"]]),
]
