"""C03: gradients and derivatives are the derivatives of the basis functions."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, nodal, ref
from vlib.core import Sub
from vlib.util import arr, close, need


ID = "C03"
SCALE = 2
ASSUMPTIONS = [
    "every basis function is projected onto an independent orthonormal polynomial basis"
    " (its exact span is checked), whose complex-step derivatives are the oracle",
]
GETTERS = ["orthonormal_basis_for_space", "basis_for_space",
           "monomial_basis_for_space"]


def _basis(case):
    import modepy as mp
    shape = gen.build_shape(case["shape"])
    space = gen.build_space(case["shape"], case["order"])
    return getattr(mp, case["getter"])(space, shape)


def expected(case, funcs, x):
    """Values (npts, n) and gradients (dim, npts, n) of *funcs* via projection."""
    dims = gen.shape_dims(case["shape"])
    orders = gen.orders_of(case["shape"], case["order"])
    xq, wq = ref.tp_quad(dims, [2*k for k in orders])
    v = np.array([arr(f(xq), (xq.shape[1],)) for f in funcs]).T
    vr = ref.tp_vdm(dims, orders, xq)
    q = (vr.T * wq) @ v
    close(vr @ q, v, 1e-8, "basis function is not a polynomial of the space")
    return ref.tp_vdm(dims, orders, x) @ q, np.einsum(
        "apm,mn->apn", ref.tp_grad_vdm(dims, orders, x), q)


def run_grad(case):
    dims = gen.shape_dims(case["shape"])
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    x0 = x.copy()
    npts = x.shape[1]
    basis = _basis(case)
    funcs = tuple(basis.functions)
    grads = tuple(basis.gradients)
    need(len(grads) == len(funcs), "as many gradients as functions")
    val, exp = expected(case, funcs, x)
    omax = max(gen.orders_of(case["shape"], case["order"]))
    # Markov's inequality: |grad p| <= C n**2 max |p|
    sup = max(1.0, float(np.max(np.abs(val)))) * (1 + omax)**2
    scale = sup + float(np.max(np.abs(exp)))
    for i, (f, g) in enumerate(zip(funcs, grads, strict=True)):
        close(f(x), val[:, i], 1e-9, f"function {i}", scale=scale)
        gi = g(x)
        need(isinstance(gi, tuple) and len(gi) == dim,
             f"gradient {i}: not a tuple of {dim} entries: {type(gi)}")
        for ax in range(dim):
            close(gi[ax], exp[ax, :, i], 1e-9, f"d/dx{ax} of function {i}",
                  shape=(npts,), scale=scale)
    for ax in range(dim):
        ders = tuple(basis.derivatives(ax))
        need(len(ders) == len(funcs), "as many derivatives as functions")
        for i, dfun in enumerate(ders):
            close(dfun(x), exp[ax, :, i], 1e-9, f"derivatives({ax})[{i}]",
                  shape=(npts,), scale=scale)
    need(np.array_equal(x, x0), "evaluation modified the points")


def run_pointwise(case):
    """One evaluation of many points == many evaluations of one point, whatever the
    other points are (a singular vertex among them must not matter)."""
    dims = gen.shape_dims(case["shape"])
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    basis = _basis(case)
    funcs = tuple(basis.functions)
    grads = tuple(basis.gradients)
    i = case["i"] % len(funcs)
    f, g = funcs[i], grads[i]
    fx = arr(f(x), (x.shape[1],), "function")
    gx = [arr(c, (x.shape[1],), "gradient") for c in g(x)]
    sc = 1 + float(np.max(np.abs(fx))) + max(float(np.max(np.abs(c))) for c in gx)
    for j in range(x.shape[1]):
        xj = x[:, j:j+1].copy()
        close(f(xj), fx[j:j+1], 1e-12, f"function at point {j} alone", scale=sc)
        for ax, c in enumerate(g(xj)):
            close(c, gx[ax][j:j+1], 1e-12, f"gradient at point {j} alone", scale=sc)
        # a single point without point axis
        close(f(x[:, j].copy()), fx[j], 1e-12, "function at a bare point", scale=sc)
        bare = g(x[:, j].copy())
        need(isinstance(bare, tuple) and len(bare) == dim, "gradient at a bare point")
        for ax, c in enumerate(bare):
            close(c, gx[ax][j], 1e-12, "gradient at a bare point", scale=sc)
    ders = [tuple(basis.derivatives(ax))[i] for ax in range(dim)]
    # points arranged in arrays of other shapes and memory layouts
    big = np.repeat(x, 30, axis=1)
    forms = [
        ("2D point array", np.stack([x, x[:, ::-1]], axis=-1),
         lambda v: np.stack([v, v[::-1]], axis=-1)),
        ("3D point array", np.stack([x, x])[:, :, None, :].transpose(1, 0, 2, 3),
         lambda v: np.stack([v, v])[:, None, :]),
        ("strided points", big[:, ::30], lambda v: v),
        ("Fortran order", np.asfortranarray(x), lambda v: v),
        ("many points", big, lambda v: np.repeat(v, 30)),
        ("thousands of points", np.tile(x, case["many"] + 1),
         lambda v: np.tile(v, case["many"] + 1)),
        ("no points", x[:, :0], lambda v: v[:0]),
        ("reversed points", x[:, ::-1], lambda v: v[::-1])]
    for what, y, tr in forms:
        y0 = y.copy()
        close(f(y), tr(fx), 1e-12, what, shape=y.shape[1:], scale=sc)
        gy = g(y)
        need(isinstance(gy, tuple) and len(gy) == dim, f"{what}: gradient")
        for ax in range(dim):
            close(gy[ax], tr(gx[ax]), 1e-12, f"{what}: gradient[{ax}]",
                  shape=y.shape[1:], scale=sc)
            close(ders[ax](y), tr(gx[ax]), 1e-12, f"{what}: derivative {ax}",
                  shape=y.shape[1:], scale=sc)
        need(np.array_equal(y, y0), f"{what}: points modified")


def run_dtypes(case):
    """Points may be of any numeric type."""
    dims = gen.shape_dims(case["shape"])
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    y = x.astype(case["dtype"])
    tol = gen.dtype_tol(case["dtype"])
    n = (x.shape[1],)
    basis = _basis(case)
    val, exp = expected(case, basis.functions, x)
    omax = max(gen.orders_of(case["shape"], case["order"]))
    sc = (1 + float(np.max(np.abs(val)))) * (1 + omax)**2 + float(np.max(np.abs(exp)))
    for i, (f, g) in enumerate(zip(basis.functions, basis.gradients, strict=True)):
        close(f(y), val[:, i], tol, f"function {i}", shape=n, scale=sc)
        gy = g(y)
        need(isinstance(gy, tuple) and len(gy) == dim, f"gradient {i}")
        for ax in range(dim):
            close(gy[ax], exp[ax, :, i], tol, f"gradient {i}[{ax}]", shape=n, scale=sc)
    for ax in range(dim):
        for i, d in enumerate(basis.derivatives(ax)):
            close(d(y), exp[ax, :, i], tol, f"derivatives({ax})[{i}]", shape=n, scale=sc)


@st.composite
def _dt(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "H4", "T:1"], max_dofs=60, max_order=6))
    c["getter"] = draw(st.sampled_from(GETTERS))
    c["dtype"] = draw(st.sampled_from(gen.DTYPES))
    c["x"] = draw(gen.int_points(gen.shape_dims(c["shape"])))
    return c


def _case(max_pts, **kw):
    @st.composite
    def s(draw):
        c = draw(gen.shape_and_order(**kw))
        c["getter"] = draw(st.sampled_from(GETTERS))
        c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), max_size=max_pts))
        return c
    return s()


@st.composite
def _pw(draw):
    c = draw(_case(5, shapes=[*gen.ALL, "H1", "H4", "T:1"], max_dofs=90,
                   max_order=9))
    c["i"] = draw(st.integers(0, 200))
    c["many"] = draw(st.sampled_from([0, 0, 0, 260, 1700]))
    return c


def _corner_grid(tier):
    """Every vertex, edge/face lattice point and centroid of every shape: the collapsed
    coordinates are singular on some of them."""
    hi = 70 if tier == "quick" else 160
    import itertools
    for s in gen.ALL:
        dims = gen.shape_dims(s)
        per = []
        for d in dims:
            per.append([[2*k/3 - 1 for k in t] for t in
                        itertools.product(range(4), repeat=d) if sum(t) <= 3])
        x = [sum(p, []) for p in itertools.product(*per)]
        if len(x) > 120:
            x = x[::len(x)//120 + 1] + ref.vertices(dims).T.tolist()
        for getter in GETTERS:
            n = 0
            while gen.ndofs(s, n) <= hi and n < 12:
                yield {"shape": s, "order": n, "getter": getter, "x": x}
                n += 1


def run_shared(case):
    """basis.functions/gradients may be used repeatedly and in any order."""
    dims = gen.shape_dims(case["shape"])
    x = gen.pts(case["x"], sum(dims))
    basis = _basis(case)
    n = len(basis.functions)
    first = {}
    for kind, i in case["ops"]:
        i %= n
        if kind == "f":
            r = np.array(basis.functions[i](x))
        elif kind == "g":
            r = np.array(basis.gradients[i](x))
        else:
            ax = i % sum(dims)
            r = np.array([d(x) for d in basis.derivatives(ax)])
            i = ax
        if (kind, i) in first:
            close(r, first[kind, i], 0.0, f"repeated evaluation of {kind}{i}")
        else:
            first[kind, i] = r.copy()
        # the caller owns the result
        r[...] = 7.0


@st.composite
def _ops(draw):
    c = draw(_case(3, max_dofs=30, max_order=5))
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from("fgd"), st.integers(0, 5))
                             .map(list), min_size=2, max_size=8))
    return c


def _classify(case):
    t = [case["shape"], case["getter"]]
    if isinstance(case["order"], list):
        t.append("order tuple")
    dims = gen.shape_dims(case["shape"])
    if any(d > 1 for d in dims):
        v = ref.vertices(dims).T.tolist()
        if any(p in v for p in case["x"]):
            t.append("vertex of a simplex factor")
    return t


def run_high(case):
    """Gradients of single functions out of bases of high order."""
    import modepy as mp
    s = case["shape"]
    dims = gen.shape_dims(s)
    dim = sum(dims)
    x = np.hstack([gen.snapped(case["x"], dim), ref.vertices(dims)])
    b = mp.orthonormal_basis_for_space(gen.build_space(s, case["order"]),
                                       gen.build_shape(s))
    grads = tuple(b.gradients)
    ids = nodal.named_modes(s, case["order"])
    axis = sum(case["i"]) % dim
    ders = tuple(b.derivatives(axis))
    for i in case["i"]:
        m = ids(i)
        e = ref.grad_cs(lambda z, m=m: ref.tp_onb(dims, m, z), x)
        g = grads[i](x)
        need(isinstance(g, tuple) and len(g) == dim, f"gradient of function {i}")
        top = 1 + np.max(np.abs(e), axis=0) + 1e-3*np.max(np.abs(e))
        for ax in range(dim):
            for v, what in ((g[ax], "gradient"), (ders[i](x), "derivative")):
                if what == "derivative" and ax != axis:
                    continue
                v = arr(v, (x.shape[1],), what)
                close(v/top, e[ax]/top, 1e-8, f"{what} of function {i}, mode {m}, axis"
                      f" {ax} (scaled)")


def run_pkdo(case):
    """Gradients of the orthogonal polynomials and monomials by their own names."""
    from modepy import modes
    m = tuple(case["m"])
    d = len(m)
    x = np.hstack([gen.snapped(case["x"], d), ref.vertices([d])])
    if d > 1:
        g = {2: modes.grad_pkdo_2d, 3: modes.grad_pkdo_3d}[d]
        e = ref.grad_cs(lambda z: ref.simplex_onb(d, m, z), x)
    else:
        g = lambda o, y: (modes.grad_jacobi(0, 0, o[0], y[0]),)  # noqa: E731
        e = ref.grad_cs(lambda z: ref.simplex_onb(1, m, z), x)
    idx = {"tuple": m, "list": list(m), "np": tuple(np.int64(i) for i in m)}[case["how"]]
    r = g(idx, x)
    need(isinstance(r, tuple) and len(r) == d, f"gradient of {m}")
    top = 1 + np.max(np.abs(e), axis=0) + 1e-3*np.max(np.abs(e))
    y = np.stack([x, x[:, ::-1]], axis=-1)
    r2, r0 = g(idx, y), g(idx, x[:, 0].copy())
    for ax in range(d):
        v = arr(r[ax], (x.shape[1],), "gradient")
        close(v/top, e[ax]/top, 1e-8, f"gradient of {m}, axis {ax} (scaled)")
        close(r2[ax], np.stack([v, v[::-1]], axis=-1), 1e-12, "two axes of points",
              shape=y.shape[1:], scale=np.max(np.abs(v)) + 1)
        close(r0[ax], v[0], 1e-12, "one point", shape=(), scale=np.max(np.abs(v)) + 1)


@st.composite
def _pkdo(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3]))
    m = draw(st.lists(st.integers(0, 4) | st.integers(0, 14), min_size=d, max_size=d))
    return {"m": m, "x": draw(gen.points([d], max_size=4)),
            "how": draw(st.sampled_from(["tuple", "list", "np"] if sum(m) <= 20 else
                                        ["tuple", "list"]))}


_nt = (lambda c: c["order"] not in (0, [0, 0], [0, 0, 0]))
SUBS = [
    Sub("derivatives", run_grad, _case(4, shapes=[*gen.ALL, "H1", "H4", "T:1", "T:1,2,1,1"], max_dofs=180,
                                    max_order=16), quick=700,
        shards=5, nontrivial=_nt, classify=_classify, rule="order >= 1"),
    Sub("lattice", run_grad, cases=_corner_grid, shards=3, nontrivial=_nt,
        classify=_classify, rule="order >= 1; enumeration of shapes, bases, orders at"
        " lattice points including all vertices"),
    Sub("pointwise", run_pointwise, _pw(), quick=900, shards=2, nontrivial=_nt,
        classify=_classify, rule="order >= 1"),
    Sub("dtypes", run_dtypes, _dt(), quick=300, nontrivial=_nt,
        classify=lambda c: [*_classify(c), c["dtype"]], rule="order >= 1"),
    Sub("high_order", run_high, nodal.high_case(max_pts=3, frac=0.7), quick=120, shards=2,
        nontrivial=_nt, classify=lambda c: [c["shape"]], rule="order >= 1"),
    Sub("pkdo", run_pkdo, _pkdo(), quick=400, nontrivial=lambda c: sum(c["m"]) > 0,
        rule="order >= 1", classify=lambda c: [f"{len(c['m'])}-D", c["how"]]),
    Sub("repeatable", run_shared, _ops(), quick=300, nontrivial=_nt,
        classify=_classify, rule="order >= 1"),
]
