"""C20: tensor-product reshaping."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need, raises


ID = "C20"
SCALE = 6
ASSUMPTIONS = ["arrays are numpy arrays of any dtype and memory layout"]

SPACES = [*gen.TPS, *[s for s in gen.MANY if s != "H1"]]


@st.composite
def space_case(draw, max_dofs=120, shapes=SPACES):
    """Product spaces built from a shape, or directly from PN/QN factors."""
    if draw(st.booleans()):
        c = draw(gen.shape_and_order(shapes=shapes, max_dofs=max_dofs, max_order=6))
        return {"kind": "shape", **c}
    facs = draw(st.lists(
        st.one_of(
            st.tuples(st.just("P"), st.integers(1, 3), st.integers(0, 3)),
            st.tuples(st.just("Q"), st.integers(1, 2), st.integers(0, 2))),
        min_size=1, max_size=4))
    out, tot = [], 1
    for f in facs:
        n = dim_of(f)
        if tot*n > max_dofs:
            continue
        tot *= n
        out.append(list(f))
    return {"kind": "factors", "factors": out or [["P", 1, 1], ["P", 2, 1]]}


def dim_of(f):
    import math
    kind, d, n = f
    return math.comb(n + d, d) if kind == "P" else (n + 1)**d


def build(case):
    """space and flat list of factor dimensions"""
    import modepy as mp
    if case["kind"] == "shape":
        dims, orders = gen.shape_dims(case["shape"]), gen.orders_of(case["shape"], case["order"])
        fd = [dim_of(("P", d, n)) for d, n in zip(dims, orders, strict=True)]
        return gen.build_space(case["shape"], case["order"]), fd
    sp = mp.TensorProductSpace(tuple(
        mp.PN(d, n) if k == "P" else mp.QN(d, n) for k, d, n in case["factors"]))
    fd = []
    for k, d, n in case["factors"]:
        fd += [dim_of((k, d, n))] if k == "P" else [n + 1]*d
    return sp, fd


@st.composite
def reshape_cases(draw):
    return {"space": draw(space_case()),
            "pre": draw(st.lists(st.integers(0, 3), max_size=2)),
            "post": draw(st.lists(st.integers(0, 3), max_size=2)),
            "neg": draw(st.booleans()), "default": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["f8", "i4", "c16", "f4", "O", "?"])),
            "layout": draw(st.sampled_from(["C", "F", "strided", "reversed", "T"])),
            "subclass": draw(st.booleans())}


def make_array(shape, dtype, layout):
    n = int(np.prod(shape))
    base = np.arange(n)
    if dtype == "O":
        a = np.array([("x", i) for i in range(n)] + [None], dtype=object)[:n].reshape(shape)
    elif dtype == "?":
        a = np.random.default_rng(n).integers(0, 2, size=n).astype(bool).reshape(shape)
    else:
        a = (base*(1 + 2j) if dtype == "c16" else base).astype(dtype).reshape(shape)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided" and a.ndim:
        big = np.empty((*shape[:-1], 2*shape[-1]), dtype=a.dtype)
        big[..., ::2] = a
        big[..., 1::2] = a
        a = big[..., ::2]
    elif layout == "reversed" and a.ndim:
        a = a[::-1]
    elif layout == "T":
        a = np.ascontiguousarray(a.T).T
    return a


def run_reshape(case):
    import modepy as mp
    from modepy.tools import (
        reshape_array_for_tensor_product_space as resh,
        unreshape_array_for_tensor_product_space as unresh,
    )
    space, fd = build(case["space"])
    n = int(np.prod(fd))
    need(space.space_dim == n, f"space_dim {space.space_dim}, expected {n}")
    pre, post = tuple(case["pre"]), tuple(case["post"])
    shape = (*pre, n, *post)
    a = make_array(shape, case["dtype"], case["layout"])
    before = a.copy()
    axis = len(pre)
    args = ()
    ax = axis - len(shape) if case["neg"] else axis
    kw = {"axis": ax}
    if case["default"] and not post:
        kw = {}
    r = resh(space, a, *args, **kw)
    is_tp = isinstance(space, mp.TensorProductSpace)
    if not is_tp:
        need(len(fd) == 1, "flattening lost a factor")
        need(np.array_equal(r, a) and r.shape == a.shape, "non-product space: array changed")
        need(np.array_equal(unresh(space, r, **kw), a), "non-product space: array changed")
        return
    need(tuple(r.shape) == (*pre, *fd, *post), f"shape {r.shape}, expected {(*pre, *fd, *post)}")
    need(r.dtype == a.dtype, "dtype changed")
    # model: first factor fastest
    for flat in range(n):
        mi, rem = [], flat
        for k in fd:
            mi.append(rem % k)
            rem //= k
        lhs = r[(slice(None),)*len(pre) + tuple(mi)]
        rhs = a[(slice(None),)*len(pre) + (flat,)]
        if not np.array_equal(lhs, rhs):
            fail(f"entry {tuple(mi)} is not coefficient {flat}")
    u = unresh(space, r, **kw)
    need(u.shape == a.shape and u.dtype == a.dtype, f"un-reshaped to {u.shape}/{u.dtype}")
    need(np.array_equal(u, a), "un-reshape does not undo reshape")
    # on an arbitrarily laid out array of the product shape
    r2 = np.ascontiguousarray(r)
    need(np.array_equal(unresh(space, r2, **kw), a), "un-reshape depends on memory layout")
    need(np.array_equal(resh(space, u, **kw), r), "reshape of the un-reshaped array")
    need(np.array_equal(a, before), "argument modified")


@st.composite
def bad_cases(draw):
    return {"space": draw(space_case()), "pre": draw(st.lists(st.integers(1, 3), max_size=2)),
            "post": draw(st.lists(st.integers(1, 3), max_size=2)),
            "off": draw(st.integers(0, 4)),
            "what": draw(st.sampled_from(["axis+", "axis-", "length", "uaxis+", "uaxis-",
                                          "ushape"])),
            "delta": draw(st.sampled_from([-1, 1, 2]))}


def run_bad(case):
    import modepy as mp
    from modepy.tools import (
        reshape_array_for_tensor_product_space as resh,
        unreshape_array_for_tensor_product_space as unresh,
    )
    space, fd = build(case["space"])
    if not isinstance(space, mp.TensorProductSpace):
        return
    n = int(np.prod(fd))
    pre, post = case["pre"], case["post"]
    w = case["what"]
    nd = len(pre) + 1 + len(post)
    if w in ("axis+", "axis-"):
        a = np.zeros((*pre, n, *post))
        ax = nd + case["off"] if w == "axis+" else -nd - 1 - case["off"]
        raises(ValueError, lambda: resh(space, a, axis=ax), f"axis {ax} of {nd}")
    elif w == "length":
        if n + case["delta"] < 0:
            return
        a = np.zeros((*pre, n + case["delta"], *post))
        raises(ValueError, lambda: resh(space, a, axis=len(pre)), "wrong length")
    elif w in ("uaxis+", "uaxis-"):
        a = np.zeros((*pre, *fd, *post))
        ax = nd + case["off"] if w == "uaxis+" else -nd - 1 - case["off"]
        raises(ValueError, lambda: unresh(space, a, axis=ax), f"axis {ax} of {nd}")
    else:
        k = case["off"] % len(fd)
        fd2 = list(fd)
        fd2[k] = max(0, fd2[k] + case["delta"])
        if fd2 == fd:
            return
        a = np.zeros((*pre, *fd2, *post))
        raises(ValueError, lambda: unresh(space, a, axis=len(pre)),
               f"shape {fd2} instead of {fd}")
        if len(set(fd)) > 1:
            fd3 = fd[::-1]
            if fd3 != fd:
                raises(ValueError, lambda: unresh(space, np.zeros((*pre, *fd3, *post)),
                                                  axis=len(pre)), "reversed factors")


# {{{ meaning: nodes and modes vary along their own axis

@st.composite
def meaning_cases(draw):
    c = draw(gen.shape_and_order(shapes=SPACES, max_dofs=100, max_order=6))
    return {**c, "seed": draw(st.integers(0, 10**6)),
            "nodes": draw(st.sampled_from(["equi", "clustered"])),
            "pts": draw(gen.points(gen.shape_dims(c["shape"]), max_size=3))}


def run_meaning(case):
    import modepy as mp
    from modepy.tools import reshape_array_for_tensor_product_space as resh
    s, order = case["shape"], case["order"]
    space, shape = gen.build_space(s, order), gen.build_shape(s)
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    x = arr((mp.equispaced_nodes_for_space if case["nodes"] == "equi"
             else mp.edge_clustered_nodes_for_space)(space, shape))
    # nodal: each coordinate only varies along the axis of its factor
    r = resh(space, x, axis=-1)
    fd = [dim_of(("P", d, n)) for d, n in zip(dims, orders, strict=True)]
    need(r.shape == (sum(dims), *fd), f"shape {r.shape}")
    o = 0
    for i, d in enumerate(dims):
        for k in range(o, o + d):
            others = tuple(j for j in range(len(fd)) if j != i)
            spread = np.max(np.ptp(r[k], axis=others)) if others else 0
            need(spread <= 1e-14, f"coordinate {k} varies along another factor's axis")
        o += d
    # separable function becomes an outer product
    rng = np.random.default_rng(case["seed"])
    w = [rng.uniform(-1, 1, size=d) for d in dims]
    vals, parts, o = 1, [], 0
    for i, d in enumerate(dims):
        vals = vals*np.cos(w[i] @ x[o:o + d] + i)
        sel = tuple(slice(None) if j == i else 0 for j in range(len(fd)))
        parts.append(np.cos(np.tensordot(w[i], r[(slice(o, o + d), *sel)], 1) + i))
        o += d
    outer = parts[0]
    for p in parts[1:]:
        outer = np.multiply.outer(outer, p)
    close(resh(space, vals), outer, 1e-13, "nodal values of a separable function",
          shape=outer.shape)
    # modal: Vandermonde rows are outer products of the factors' modes
    basis = mp.orthonormal_basis_for_space(space, shape)
    q = gen.snapped(case["pts"], sum(dims))
    v = arr(mp.vandermonde(basis.functions, q), (q.shape[1], int(np.prod(fd))))
    rv = resh(space, v, axis=1)
    for ip in range(q.shape[1]):
        outer, o = np.ones(()), 0
        for d, n in zip(dims, orders, strict=True):
            outer = np.multiply.outer(outer, ref_factor_modes(d, n, q[o:o + d, ip:ip + 1]))
            o += d
        close(rv[ip], outer, 1e-10, "modal axes", shape=outer.shape)


def ref_factor_modes(d, n, x):
    import modepy as mp
    b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
    e = ref.tp_vdm([d], [n], x)[0]
    m = [tuple(i) for i in b.mode_ids]
    mids = [tuple(i) for i in ref.simplex_mids(d, n)]
    return np.array([e[mids.index(i)] for i in m])

# }}}


SUBS = [
    Sub("reshape", run_reshape, strategy=reshape_cases(), quick=500, thorough=20000,
        nontrivial=lambda c: bool(c["pre"] or c["post"]),
        rule="array has axes besides the reshaped one"),
    Sub("invalid", run_bad, strategy=bad_cases(), quick=300, thorough=10000),
    Sub("meaning", run_meaning, strategy=meaning_cases(), quick=120, thorough=4000,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one mode"),
]
