"""C14: Vandermonde and resampling matrices."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub
from vlib.nodal import BASES, basis_cond, build_basis, node_set, node_spec, rand_poly, related_nodes, related_spec
from vlib.util import arr, close, fail, need, quiet, raises


ID = "C14"
SCALE = 4
ASSUMPTIONS = [
    "accuracy is judged relative to the condition number of the Vandermonde matrix"
    " of the basis on the old nodes (cases above 1e8 are skipped)",
]

TOL = 1e-13


# {{{ vandermonde

@st.composite
def vdm_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=140, max_order=16))
    c["basis"] = draw(st.sampled_from(BASES))
    c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), min_size=1, max_size=5))
    return c


def run_vdm(case):
    import modepy as mp
    s = case["shape"]
    b = build_basis(case["basis"], s, case["order"])
    dim = sum(gen.shape_dims(s))
    x = gen.pts(case["x"], dim)
    x0 = x.copy()
    n = gen.ndofs(s, case["order"])
    v = arr(mp.vandermonde(b.functions, x), (x.shape[1], n), "Vandermonde matrix")
    need(np.array_equal(x, x0), "nodes modified")
    for j, f in enumerate(b.functions):
        close(v[:, j], f(x), 1e-14, f"column {j}", shape=(x.shape[1],))
    # one node at a time
    for i in range(x.shape[1]):
        e = np.array([np.asarray(f(x[:, i:i+1])).reshape(-1)[0] for f in b.functions])
        close(v[i], e, 1e-13, f"row {i}", shape=(n,), scale=1 + np.max(np.abs(e)))
    g = mp.multi_vandermonde(b.gradients, x)
    need(len(g) == dim, f"{len(g)} gradient matrices, expected {dim}")
    for ax in range(dim):
        ga = arr(g[ax], (x.shape[1], n), f"gradient Vandermonde {ax}")
        for j, f in enumerate(b.gradients):
            r = f(x)
            close(ga[:, j], r[ax], 1e-14, f"axis {ax}, column {j}", shape=(x.shape[1],))
        close(quiet(mp.vandermonde, b.gradients, x)[ax], ga, 1e-14,
              f"vandermonde(gradients), axis {ax}", shape=ga.shape)
        dv = arr(mp.vandermonde(b.derivatives(ax), x), (x.shape[1], n), "derivatives")
        close(dv, ga, 1e-12, f"vandermonde(derivatives({ax}))",
              scale=1 + np.max(np.abs(ga)))


@st.composite
def dtype_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "T:1"], max_dofs=60, max_order=6))
    c["basis"] = draw(st.sampled_from(BASES))
    c["dtype"] = draw(st.sampled_from(gen.DTYPES))
    c["x"] = draw(gen.int_points(gen.shape_dims(c["shape"])))
    c["old"] = draw(node_spec())
    return c


def run_dtypes(case):
    """Nodes may be of any numeric type."""
    import modepy as mp
    s, order = case["shape"], case["order"]
    b = build_basis(case["basis"], s, order)
    x = gen.pts(case["x"], sum(gen.shape_dims(s)))
    y = x.astype(case["dtype"])
    tol = gen.dtype_tol(case["dtype"])
    e = np.array([f(x) for f in b.functions]).T
    sc = 1 + float(np.max(np.abs(e)))
    close(mp.vandermonde(b.functions, y), e, tol, "Vandermonde matrix", shape=e.shape,
          scale=sc)
    g = [np.array(v).T for v in zip(*[f(x) for f in b.gradients], strict=True)]
    gy = mp.multi_vandermonde(b.gradients, y)
    need(len(gy) == len(g), "as many matrices as axes")
    for ax in range(len(g)):
        close(gy[ax], g[ax], tol, f"gradient matrix {ax}", shape=e.shape,
              scale=sc*50 + float(np.max(np.abs(g[ax]))))
    old = node_set(case["old"], s, order)
    k = basis_cond(b, old)
    # numpy.linalg does not support extended precision
    if k < 1e6 and case["dtype"] != "longdouble":
        r = mp.resampling_matrix(b.functions, x, old)
        close(mp.resampling_matrix(b.functions, y, old), r, tol*(1 + k*1e-3),
              "resampling matrix", shape=r.shape, scale=sc*(1 + float(np.max(np.abs(r)))))


@st.composite
def lay_cases(draw):
    c = {"shape": draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:1,2", "T:2,1"])),
         "how": draw(layouts.how()), "basis": draw(st.sampled_from(BASES)),
         "seed": draw(st.integers(0, 10**6)), "lo": draw(st.integers(0, 1)),
         "many": draw(layouts.sizes)}
    c["order"] = draw(st.integers(1, 2 if layouts.typed(c["how"]) else 3))
    c["x"] = draw(gen.int_points(gen.shape_dims(c["shape"])))
    return c


def run_lay(case):
    """Node arrays of any type and layout, on either side."""
    import modepy as mp
    s, order, how = case["shape"], case["order"], case["how"]
    b = build_basis(case["basis"], s, order)
    old = node_set(["equi", 0], s, order)
    x = gen.pts(case["x"], sum(gen.shape_dims(s)))
    f = b.functions
    layouts.same(lambda a: mp.vandermonde(f, a), [x], how, "vandermonde")
    layouts.same(lambda a: mp.multi_vandermonde(b.gradients, a), [x], how,
                 "multi_vandermonde", 1e-11)
    layouts.same(lambda a, c: mp.resampling_matrix(f, a, c), [x, old], how,
                 "resampling_matrix", 1e-11)
    if len(f) <= 30:
        many = min(case["many"], 6000)
        layouts.batch(lambda a: mp.vandermonde(f, a), x, many, "vandermonde", out=0)
        layouts.batch(lambda a: mp.multi_vandermonde(b.gradients, a), x, many,
                      "multi_vandermonde", out=0, tol=1e-11)
        layouts.batch(lambda a: mp.resampling_matrix(f, a, old), x, many,
                      "resampling_matrix", out=0, tol=1e-11)
    small = build_basis(case["basis"], s, case["lo"])
    layouts.same(lambda a, c: mp.resampling_matrix(
        small.functions, a, c, least_squares_ok=True), [x, old], how,
        "least squares resampling", 1e-11)
    layouts.aliased(lambda a, c: mp.resampling_matrix(f, a, c), old, "resampling_matrix")
    if case["basis"] != "mono":
        layouts.aliased(lambda a, c: mp.resampling_matrix(
            small.functions, a, c, least_squares_ok=True), old, "least squares resampling")


# user supplied functions

@st.composite
def user_cases(draw):
    m = draw(st.integers(0, 6))
    return {"dim": draw(st.integers(1, 3)), "n": draw(st.integers(1, 7)), "m": m,
            "kinds": [draw(st.sampled_from(["poly", "const", "cplx", "int", "f32"]))
                      for _ in range(m)],
            "flat": draw(st.booleans()), "axes": draw(st.integers(1, 3)),
            "tuple": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6))}


def _user(kind, j, rng):
    a, b = rng.uniform(-1, 1, size=2)
    if kind == "poly":
        return lambda x: a*x.sum(axis=0)**2 + b
    if kind == "const":
        return lambda x: a*np.ones(x.shape[-1])
    if kind == "cplx":
        return lambda x: np.exp(1j*(a*x.sum(axis=0) + b))
    if kind == "int":
        return lambda x: np.full(x.shape[-1], j + 1)
    return lambda x: np.full(x.shape[-1], 0.5*j, dtype=np.float32)


def run_user(case):
    import modepy as mp
    rng = np.random.default_rng(case["seed"])
    x = rng.uniform(-1, 1, size=(case["dim"], case["n"]))
    fs = [_user(k, j, rng) for j, k in enumerate(case["kinds"])]
    m = len(fs)
    if case["flat"] and case["dim"] == 1:
        inner = fs
        fs = [lambda y, f=f: f(y.reshape(1, -1)) for f in inner]
        x = x.reshape(-1)
    v = arr(mp.vandermonde(fs, x), (case["n"], m), "Vandermonde matrix")
    for j, f in enumerate(fs):
        close(v[:, j], f(x), 1e-15, f"column {j} ({case['kinds'][j]})", shape=(case["n"],))
    # tuple-returning functions
    k = case["axes"]
    ms = [lambda y, f=f: tuple((i + 1)*f(y) for i in range(k)) for f in fs]
    if not m:
        raises(ValueError, lambda: mp.multi_vandermonde(ms, x), "no functions")
        return
    g = quiet(mp.multi_vandermonde, ms, x)
    need(len(g) == k, f"{len(g)} matrices, expected {k}")
    for i in range(k):
        close(g[i], v*(i + 1), 1e-14, f"matrix {i}", shape=(case["n"], m))

# }}}


# {{{ resampling

@st.composite
def res_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=140, max_order=16))
    c["basis"] = draw(st.sampled_from(BASES))
    c["old"] = draw(node_spec())
    c["via"] = draw(node_spec())
    c["new"] = draw(gen.points(gen.shape_dims(c["shape"]), min_size=1, max_size=6))
    c["seed"] = draw(st.integers(0, 10**6))
    c["as_seq"] = draw(st.booleans())
    c["rel"] = draw(related_spec())
    return c


def run_res(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    b = build_basis(case["basis"], s, order)
    funcs = list(b.functions) if case["as_seq"] else b.functions
    old, via = node_set(case["old"], s, order), node_set(case["via"], s, order)
    new = gen.snapped(case["new"], sum(gen.shape_dims(s)))
    k = basis_cond(b, old)
    k2 = max(k, basis_cond(b, via))
    if k2 > 1e8:
        return
    orig = old.copy(), new.copy()
    n = old.shape[1]
    r = arr(mp.resampling_matrix(funcs, new, old), (new.shape[1], n), "resampling matrix")
    need(np.array_equal(old, orig[0]) and np.array_equal(new, orig[1]), "nodes modified")
    f, _, _ = rand_poly(s, order, case["seed"])
    sc = (1 + np.max(np.abs(f(old))))*(1 + np.max(np.abs(r)))*n
    close(r @ f(old), f(new), TOL*k, "resampled values of a function of the space",
          shape=(new.shape[1],), scale=sc)
    close(r.sum(axis=1), np.ones(new.shape[1]), TOL*k, "constants", scale=sc)
    close(mp.resampling_matrix(funcs, old, old), np.eye(n), TOL*k, "old to old",
          scale=1.0*n)
    a = arr(mp.resampling_matrix(funcs, via, old), (n, n))
    z = arr(mp.resampling_matrix(funcs, new, via), r.shape)
    close(z @ a, r, TOL*k2, "via a third node set",
          scale=(1 + np.max(np.abs(z)))*(1 + np.max(np.abs(a)))*n)
    ls = arr(mp.resampling_matrix(funcs, new, old, least_squares_ok=True), r.shape)
    close(ls, r, TOL*k, "least_squares_ok on square data", scale=1 + np.max(np.abs(r)))
    # new nodes that resemble the old ones
    y = related_nodes(case["rel"], old, s)
    rr = arr(mp.resampling_matrix(funcs, y, old), (y.shape[1], n), "resampling matrix")
    close(rr @ f(old), f(y), TOL*k, f"resampling to related nodes ({case['rel'][0]})",
          shape=(y.shape[1],), scale=(1 + np.max(np.abs(f(old))))*(1 + np.max(np.abs(rr)))*n)
    # no nodes to resample to
    e = mp.resampling_matrix(funcs, new[:, :0], old)
    need(np.asarray(e).shape == (0, n), f"no new nodes: shape {np.asarray(e).shape}")


@st.composite
def ls_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=40, max_order=6))
    c["basis"] = draw(st.sampled_from(["onb", "default", "mono"]))
    c["count"] = draw(st.sampled_from(["more", "more", "fewer", "+1", "-1"]))
    c["seed"] = draw(st.integers(0, 10**6))
    c["new"] = draw(gen.points(gen.shape_dims(c["shape"]), min_size=1, max_size=5))
    return c


def run_ls(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    b = build_basis(case["basis"], s, order)
    n = gen.ndofs(s, order)
    rng = np.random.default_rng(case["seed"])
    m = {"more": 2*n + 3, "fewer": max(1, n//2), "+1": n + 1, "-1": max(1, n - 1)}[case["count"]]
    if m == n:
        return
    # scattered points of the element
    old = np.zeros((sum(dims), m))
    o = 0
    for d in dims:
        lam = rng.dirichlet(np.ones(d + 1), size=m)
        old[o:o + d] = 2*lam[:, 1:].T - 1
        o += d
    new = gen.snapped(case["new"], sum(dims))
    raises(RuntimeError, lambda: mp.resampling_matrix(b.functions, new, old),
               "non-square Vandermonde matrix without least_squares_ok")
    raises(RuntimeError, lambda: mp.resampling_matrix(b.functions, new, old,
                                                      least_squares_ok=False),
           "non-square Vandermonde matrix with least_squares_ok=False")
    vo, vn = ref.tp_vdm(dims, orders, old), ref.tp_vdm(dims, orders, new)
    vb = np.array([np.asarray(f(old)) for f in b.functions]).T
    k = max(np.linalg.cond(vo), np.linalg.cond(vb))
    if k > 1e5:
        return
    r = arr(mp.resampling_matrix(b.functions, new, old, least_squares_ok=True),
            (new.shape[1], m), "resampling matrix")
    u = rng.uniform(-1, 1, size=m)
    if m > n:
        f, _, _ = rand_poly(s, order, case["seed"])
        close(r @ f(old), f(new), 1e-12*k*n, "function of the space",
              scale=1 + np.max(np.abs(f(old))))
        e = vn @ np.linalg.lstsq(vo, u, rcond=None)[0]
        close(r @ u, e, 1e-12*k*k*n, "best approximation", scale=1 + np.max(np.abs(e)))
    else:
        back = arr(mp.resampling_matrix(b.functions, old, old, least_squares_ok=True))
        close(back @ u, u, 1e-12*k*n, "data are interpolated", scale=1.0)
        if case["basis"] == "onb":
            e = vn @ np.linalg.lstsq(vo, u, rcond=None)[0]
            close(r @ u, e, 1e-12*k*k*n, "minimum norm interpolant",
                  scale=1 + np.max(np.abs(e)))

# }}}


def _tag(c):
    return [c["shape"], c["basis"]]


SUBS = [
    Sub("vandermonde", run_vdm, vdm_cases(), quick=200, shards=2,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one basis function", classify=_tag),
    Sub("dtypes", run_dtypes, dtype_cases(), quick=150,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one basis function", classify=lambda c: [*_tag(c), c["dtype"]]),
    Sub("layouts", run_lay, lay_cases(), quick=200, classify=lambda c: [layouts.label(c["how"])],
        rule="every case"),
    Sub("user-functions", run_user, user_cases(), quick=300,
        nontrivial=lambda c: c["m"] > 1, rule="more than one function"),
    Sub("resampling", run_res, res_cases(), quick=250, shards=3,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one basis function", classify=_tag),
    Sub("least-squares", run_ls, ls_cases(), quick=200, shards=2,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one basis function", classify=lambda c: [c["count"], c["basis"]]),
]
