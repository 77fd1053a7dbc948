"""C02: orthonormal bases."""
from __future__ import annotations

import functools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, nodal, ref
from vlib.core import Sub
from vlib.util import arr, close, need, raises


ID = "C02"
SCALE = 3
ASSUMPTIONS = [
    "the reference basis (homogeneous recurrences) and scipy's Gauss-Jacobi nodes are"
    " correct; orders are bounded by the number of modes (see the generator)",
]


def _basis(case, getter):
    import modepy as mp
    shape = gen.build_shape(case["shape"])
    space = gen.build_space(case["shape"], case["order"])
    return space, shape, getattr(mp, getter)(space, shape)


def _eval(funcs, x, what):
    return np.array([arr(f(x), (x.shape[1],), f"{what} {i}")
                     for i, f in enumerate(funcs)]).T


def run_gram(case):
    dims, orders = gen.shape_dims(case["shape"]), gen.orders_of(case["shape"],
                                                               case["order"])
    for getter in ["orthonormal_basis_for_space", "basis_for_space"]:
        space, shape, basis = _basis(case, getter)
        funcs = tuple(basis.functions)
        n = gen.ndofs(case["shape"], case["order"])
        need(len(funcs) == n, f"{len(funcs)} functions, expected {n}")
        need(space.space_dim == n, f"space_dim {space.space_dim}, expected {n}")
        need(space.spatial_dim == sum(dims), "spatial_dim")
        mids = tuple(basis.mode_ids)
        need(len(mids) == n, f"{len(mids)} mode ids, expected {n}")
        need(len(set(mids)) == n, "mode ids are not distinct")
        if getter == "basis_for_space" and shape.dim > 3 and len(dims) == 1:
            continue
        need(basis.orthonormality_weight() == 1, "orthonormality weight")
        x, w = ref.tp_quad(dims, [2*k for k in orders])
        v = _eval(funcs, x, "basis function")
        close((v.T * w) @ v, np.eye(n), 1e-10, "Gram matrix", scale=1.0)
        # same span as the declared polynomial space
        vr = ref.tp_vdm(dims, orders, x)
        q = (vr.T * w) @ v
        close(vr @ q, v, 1e-9, "function outside of the declared space")
        close(q @ q.T, np.eye(n), 1e-9, "space not spanned", scale=1.0)


def run_modes(case):
    """The function belonging to a mode id is the documented polynomial: PKDO for
    simplices, Legendre products for hypercubes, products of factors in general with
    the first factor varying fastest."""
    dims, orders = gen.shape_dims(case["shape"]), gen.orders_of(case["shape"],
                                                               case["order"])
    x = gen.pts(case["x"], sum(dims))
    _, _, basis = _basis(case, "orthonormal_basis_for_space")
    funcs = tuple(basis.functions)
    mids = tuple(basis.mode_ids)
    v = _eval(funcs, x, "basis function")
    if len(dims) == 1 or all(d == 1 for d in dims):
        for i, m in enumerate(mids):
            need(isinstance(m, tuple) and len(m) == sum(dims)
                 and all(int(k) == k >= 0 for k in m), f"mode id {m!r}")
            if len(dims) == 1:
                need(sum(m) <= orders[0], f"mode id {m!r}")
                e = ref.simplex_onb(dims[0], m, x)
            else:
                need(all(k <= o for k, o in zip(m, orders, strict=True)),
                     f"mode id {m!r}")
                e = ref.tp_onb(dims, [(k,) for k in m], x)
            close(v[:, i], e, 1e-9, f"mode {m} at {x.T.tolist()}",
                  scale=20.0 * (1 + max(m))**sum(dims))
    else:
        import modepy as mp
        per = []
        o = 0
        for d, k in zip(dims, orders, strict=True):
            b = mp.orthonormal_basis_for_space(mp.PN(d, k), mp.Simplex(d))
            per.append(_eval(b.functions, x[o:o + d], "factor"))
            o += d
        e = np.ones((x.shape[1], 1))
        for p in per:
            # first factor fastest
            e = np.array([np.outer(p[j], e[j]).ravel() for j in range(x.shape[1])])
        close(v, e, 1e-11, "product of the factors' functions", scale=1e3)


@st.composite
def _mode_case(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "H4", "T:1", "T:1,2,1,1"],
                                 max_dofs=250, max_order=20))
    c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), max_size=4))
    return c


@functools.cache
def _weighted():
    import modepy as mp

    class Weighted(mp.Basis):
        def __init__(self, inner, weight, named):
            self.inner, self.weight, self.named = inner, weight, named

        def orthonormality_weight(self):
            return self.weight

        @property
        def mode_ids(self):
            return tuple(f"mode{i}" for i in range(len(self.inner.mode_ids))) \
                if self.named else self.inner.mode_ids

        @property
        def functions(self):
            return tuple(lambda x, f=f: f(x)/self.weight**0.5
                         for f in self.inner.functions)

        @property
        def gradients(self):
            return tuple(lambda x, f=f: tuple(g/self.weight**0.5 for g in f(x))
                         for f in self.inner.gradients)

    return Weighted


def user_basis(inner, weight, named):
    """A basis class of the caller: orthonormal with a constant weight."""
    return _weighted()(inner, weight, named)


def run_custom(case):
    """TensorProductBasis adapts arbitrary factor bases."""
    import modepy as mp
    bases, dims = [], []
    weight = 1
    per = []
    x = gen.pts(case["x"], sum(d for d, _, _ in case["factors"]))
    o = 0
    for w, (d, n, kind) in zip(case["weights"], case["factors"], strict=False):
        sp, sh = mp.PN(d, n), mp.Simplex(d)
        b = {"onb": mp.orthonormal_basis_for_space,
             "mono": mp.monomial_basis_for_space,
             "user": mp.orthonormal_basis_for_space,
             "named": mp.orthonormal_basis_for_space}[kind](sp, sh)
        if kind in ("user", "named"):
            b = user_basis(b, w, kind == "named")
            weight *= w
        bases.append(b)
        dims.append(d)
        per.append(np.array([arr(f(x[o:o + d]), (x.shape[1],)) for f in b.functions]))
        o += d
    kw = {}
    if not all(d == 1 for d in dims) or case["explicit"]:
        kw["dims_per_basis"] = tuple(dims)
    tpb = mp.TensorProductBasis(bases, **kw)
    need(len(tpb.bases) == len(bases), "bases attribute")
    if any(k == "mono" for _, _, k in case["factors"]):
        raises(mp.BasisNotOrthonormal, tpb.orthonormality_weight,
               "weight of a non-orthonormal product")
    else:
        need(abs(tpb.orthonormality_weight() - weight) <= 1e-14*weight, "weight")
        if weight != 1:
            nx = gen.pts([[0.0]*sum(dims)], sum(dims))
            raises(NotImplementedError, lambda: mp.inverse_mass_matrix(tpb, nx),
                   "mass matrix of a basis with a weight")
    e = np.ones((1, x.shape[1]))
    for p in per:
        e = np.array([a * b for b in p for a in e])
    need(len(tuple(tpb.functions)) == len(e), "number of functions")
    need(len(set(tpb.mode_ids)) == len(e), "mode ids")
    close(np.array([arr(f(x), (x.shape[1],)) for f in tpb.functions]), e, 1e-11,
          "tensor product basis", scale=1e3)


@st.composite
def _custom(draw):
    k = draw(st.integers(2, 3))
    fs = []
    for _ in range(k):
        d = draw(st.sampled_from([1, 1, 2, 3] if k == 2 else [1, 1, 2]))
        fs.append([d, draw(st.integers(0, {1: 5, 2: 3, 3: 2}[d])),
                   draw(st.sampled_from(["onb", "mono", "user", "named"]))])
    return {"factors": fs, "explicit": draw(st.booleans()),
            "weights": [draw(st.sampled_from([2, 0.25, 3.0])) for _ in range(k)],
            "x": draw(gen.points([d for d, _, _ in fs], max_size=3))}


def run_zerod(case):
    import modepy as mp
    sp, sh = mp.PN(0, case["order"]), mp.Simplex(0)
    b = mp.orthonormal_basis_for_space(sp, sh)
    need(len(b.functions) == 1 and sp.space_dim == 1, "0-D space has one function")
    v = arr(b.functions[0](np.zeros((0, case["n"]))), (case["n"],), "0-D function")
    close(v, np.ones(case["n"]), 1e-15,
          "0-D basis function (orthonormal under point evaluation)")


def run_beyond(case):
    """Where there is no orthonormal basis (simplices beyond 3-D, and products with
    them), none is handed out; the default basis still spans the space."""
    import modepy as mp
    dims, orders = gen.shape_dims(case["shape"]), gen.orders_of(case["shape"],
                                                               case["order"])
    n = gen.ndofs(case["shape"], case["order"])
    x, w = ref.tp_quad(dims, [2*k for k in orders])
    try:
        _, _, basis = _basis(case, "orthonormal_basis_for_space")
        funcs = tuple(basis.functions)
        v = _eval(funcs, x, "basis function")
    except NotImplementedError:
        pass
    else:
        need(len(funcs) == n, f"{len(funcs)} functions, expected {n}")
        close((v.T * w) @ v, np.eye(n), 1e-9, "Gram matrix", scale=1.0)
    _, _, basis = _basis(case, "basis_for_space")
    funcs = tuple(basis.functions)
    need(len(funcs) == len(set(basis.mode_ids)) == n, f"{len(funcs)} functions")
    v = _eval(funcs, x, "basis function")
    try:
        weight = basis.orthonormality_weight()
    except mp.BasisNotOrthonormal:
        pass
    else:
        close((v.T * w) @ v, np.eye(n)/weight, 1e-9, "Gram matrix of a basis claiming to"
              " be orthonormal", scale=1.0)
    need(np.linalg.matrix_rank(v*np.sqrt(w)[:, None], tol=1e-9) == n, "space not spanned")


def _grid(tier):
    """Every shape at every order in a range, plus mixed orders."""
    hi = 300 if tier == "quick" else 800
    for s in [*gen.ALL, "H4", "H1", "T:1", "T:1,1,1,1", "T:1,2,1,1"]:
        for n in range(0, 61):
            if gen.ndofs(s, n) > hi:
                break
            yield {"shape": s, "order": n}


def _classify(case):
    t = [case["shape"]] if "shape" in case else []
    if isinstance(case.get("order"), list) and len(set(case["order"])) > 1:
        t.append("mixed orders")
    return t


def run_high(case):
    """Single functions out of bases of high order."""
    dims = gen.shape_dims(case["shape"])
    x = gen.pts(case["x"], sum(dims))
    _, _, basis = _basis(case, "orthonormal_basis_for_space")
    funcs = tuple(basis.functions)
    n = gen.ndofs(case["shape"], case["order"])
    need(len(funcs) == n == len(tuple(basis.mode_ids)), f"{len(funcs)} functions")
    ids = nodal.named_modes(case["shape"], case["order"])
    # away from the vertices, where the bases are accurate to about 1e-10 relative to
    # the maximum of their derivative
    x = gen.snapped(x.T.tolist(), sum(dims))
    v = ref.vertices(dims)
    for i in case["i"]:
        m = ids(i)
        e = ref.tp_onb(dims, m, np.hstack([x, v]))
        top = float(np.max(np.abs(e)))
        close(arr(funcs[i](x), (x.shape[1],)), e[:x.shape[1]], 1e-9,
              f"function {i}, mode {m}", scale=1 + 0.01*top + float(np.max(np.abs(e[:x.shape[1]]))))
        close(arr(funcs[i](v)), e[x.shape[1]:], 1e-9, f"function {i}, mode {m}, vertices",
              scale=1 + top)


def run_pkdo(case):
    """The orthogonal polynomials by their own names."""
    from modepy import modes
    m = tuple(case["m"])
    d = len(m)
    f = {2: modes.pkdo_2d, 3: modes.pkdo_3d}[d]
    x = gen.snapped(case["x"], d)
    v = ref.vertices([d])
    e = ref.simplex_onb(d, m, np.hstack([x, v]))
    top = 1 + 0.01*float(np.max(np.abs(e))) + float(np.max(np.abs(e[:x.shape[1]])))
    idx = {"tuple": m, "list": list(m), "np": tuple(np.int64(i) for i in m)}[case["how"]]
    close(arr(f(idx, x), (x.shape[1],)), e[:x.shape[1]], 1e-9, f"mode {m}", scale=top)
    close(arr(f(idx, v)), e[x.shape[1]:], 1e-9, f"mode {m}, vertices",
          scale=1 + float(np.max(np.abs(e))))
    close(f(idx, x[:, 0].copy()), e[0], 1e-9, f"mode {m}, one point", shape=(), scale=top)
    y = np.stack([x, x[:, ::-1]], axis=-1)
    close(f(idx, y), np.stack([e[:x.shape[1]], e[:x.shape[1]][::-1]], axis=-1), 1e-9,
          f"mode {m}, two axes of points", shape=y.shape[1:], scale=top)


@st.composite
def _pkdo(draw):
    d = draw(st.sampled_from([2, 3]))
    m = draw(st.lists(st.integers(0, 5) | st.integers(0, 20), min_size=d, max_size=d))
    return {"m": m, "x": draw(gen.points([d], max_size=4)),
            "how": draw(st.sampled_from(["tuple", "list", "np"] if sum(m) <= 20 else
                                        ["tuple", "list"]))}


SUBS = [
    Sub("pkdo", run_pkdo, _pkdo(), quick=500, nontrivial=lambda c: sum(c["m"]) > 0,
        rule="order >= 1", classify=lambda c: [f"{len(c['m'])}-D", c["how"]]),
    Sub("high_order", run_high, nodal.high_case(), quick=200, shards=2,
        classify=_classify, nontrivial=lambda c: c["order"] != 0, rule="order >= 1"),
    Sub("gram_grid", run_gram, cases=_grid, shards=3, classify=_classify,
        nontrivial=lambda c: c["order"] >= 1, rule="order >= 1; complete enumeration"
        " of shape x uniform order up to 300 (thorough: 800) modes, order <= 60"),
    Sub("gram_mixed", run_gram, gen.shape_and_order(
        [*gen.TPS, "H4", "T:1,1,1,1", "T:1,2,1,1", "T:3,1,1"], max_dofs=200,
        max_order=20),
        quick=400, shards=2, classify=_classify,
        nontrivial=lambda c: isinstance(c["order"], list), rule="orders per factor"),
    Sub("mode_functions", run_modes, _mode_case(), quick=1500, shards=3,
        classify=_classify, nontrivial=lambda c: c["order"] != 0, rule="order >= 1"),
    Sub("custom_tensor_product", run_custom, _custom(), quick=600,
        nontrivial=lambda c: any(n for _, n, _ in c["factors"]),
        rule="some factor of order >= 1"),
    Sub("beyond_3d", run_beyond, cases=lambda tier: [
        {"shape": s, "order": o} for s in ("S4", "S5", "T:4,1", "T:1,4", "T:1,4,1", "T:5,1")
        for o in range(3)], nontrivial=lambda c: c["order"] > 0, rule="order >= 1"),
    Sub("zero_dimensional", run_zerod, cases=lambda tier: [
        {"order": o, "n": n} for o in range(4) for n in (1, 2, 5)],
        rule="every case"),
]
