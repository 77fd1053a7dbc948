"""C26: unsupported or invalid requests fail with the documented exceptions, and
the neighbouring valid requests work."""
from __future__ import annotations

from functools import partial

import numpy as np
from hypothesis import strategies as st

import modepy as mp
from vlib import gen, ref
from vlib.core import Sub, Trivial
from vlib.util import arr, close, fail, need, raises


ID = "C26"
SCALE = 3
ASSUMPTIONS = [
    "only requests whose rejection is documented, or guarded for a sibling function,"
    " are made; which exception subclass or message is used is not judged",
    "a rule outside the tabulated range may also be returned provided that it is"
    " as exact as requested",
]


# {{{ tabulated rules

#: what the tables offered when the property was written (inclusive)
SUPPORTED = {
    ("XG", 2): set(range(1, 51)), ("XG", 3): set(range(1, 16)),
    ("VR", 2): set(range(20)), ("VR", 3): set(range(11)),
    ("JS", 3): set(range(20)),
    ("WV", 2): {1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21},
    ("WV", 3): {1, 3, 5, 7, 9, 11},
}

RULES = {"XG": "XiaoGimbutasSimplexQuadrature",
         "VR": "VioreanuRokhlinSimplexQuadrature",
         "JS": "JaskowiecSukumarQuadrature",
         "WV": "WitherdenVincentQuadrature"}


def run_rules(case):
    r, order, dims = case["rule"], case["order"], case["dims"]
    cls = getattr(mp, RULES[r])
    good = order in SUPPORTED.get((r, dims), ())
    try:
        q = cls(order, dims)
    except mp.QuadratureRuleUnavailable as e:
        need(not good, f"{RULES[r]}({order}, {dims}) is no longer available: {e}")
        return ["unavailable"]
    except Exception as e:
        fail(f"{RULES[r]}({order}, {dims}) raised {type(e).__name__}: {e}; expected"
             " QuadratureRuleUnavailable")
    # available: has to be what was asked for, on an existing domain
    need(dims in (2, 3), f"{RULES[r]} returned a rule in {dims} dimensions")
    need(order >= 0, f"{RULES[r]} returned a rule of order {order}")
    deg = q.exact_to
    need(deg >= (order if r != "VR" else 0),
         f"{RULES[r]}({order}, {dims}) is only exact to {deg}")
    x = arr(q.nodes, None, "nodes", kind="f")
    w = arr(q.weights, (x.shape[1],), "weights", kind="f")
    need(x.shape[0] == dims, f"nodes of shape {x.shape} in {dims} dimensions")
    deg = min(int(deg), 12)
    if r == "WV":
        d1 = [1]*dims
        v = ref.tp_vdm(d1, [deg]*dims, x)
        keep = [j for j, m in enumerate(ref.tp_mids(d1, [deg]*dims))
                if sum(np.ravel(m)) <= deg]
    else:
        v = ref.tp_vdm([dims], [deg], x)
        keep = list(range(v.shape[1]))
    m = w @ v
    exact = np.zeros(v.shape[1])
    # only the constant function has a nonzero integral
    vol = 2**dims if r == "WV" else ref.simplex_volume(dims)
    exact[0] = float(vol)**0.5
    close(m[keep], exact[keep], 1e-10, f"moments of {RULES[r]}({order}, {dims})")
    return ["available"]


def rules_cases(tier):
    lo, hi = (-3, 60) if tier == "quick" else (-60, 300)
    for r in RULES:
        for dims in (-1, 0, 1, 2, 3, 4, 5, 7):
            for order in range(lo, hi):
                yield {"rule": r, "order": order, "dims": dims}
            yield {"rule": r, "order": 10**6, "dims": dims}

# }}}


# {{{ 1-D rules

@st.composite
def oned_cases(draw):
    kind = draw(st.sampled_from(["cc", "fejer", "fejer_kind", "cheb_kind", "lobatto",
                                 "jgl", "backend", "apb", "transformed", "transplant_dim"]))
    n = draw(st.integers(-3, 12))
    c = {"kind": kind, "n": n}
    if kind == "fejer":
        c["k"] = draw(st.integers(1, 2))
    elif kind in ("fejer_kind", "cheb_kind"):
        c["k"] = draw(st.integers(-2, 6))
    elif kind == "backend":
        c["b"] = draw(st.sampled_from(["builtin", "scipy", "", "SciPy", "numpy",
                                       "Builtin", "julia", "none"]))
        c["cls"] = draw(st.sampled_from(["L", "J", "C1", "C2", "G"]))
    elif kind == "apb":
        c["a"] = draw(st.integers(1, 31).filter(lambda x: x != 16))/32 - 1
    elif kind == "transformed":
        c["a"] = draw(st.floats(-1e6, 1e6, width=32))
        c["b"] = draw(st.one_of(st.just(c["a"]), st.floats(-1e6, 1e6, width=32)))
    elif kind == "transplant_dim":
        c["d"] = draw(st.integers(1, 3))
        c["map"] = draw(st.sampled_from(["identity", "sausage", "kte", "strip"]))
    return c


def rule_ok(q, npts, what, dims=1):
    x = arr(q.nodes, None, what + " nodes")
    arr(q.weights, (npts,), what + " weights")
    need(x.shape[-1] == npts, f"{what}: {x.shape[-1]} nodes, expected {npts}")


def the_map(name):
    from modepy.quadrature import transplanted as tr
    return {"identity": tr.map_identity, "sausage": partial(tr.map_sausage, degree=5),
            "kte": tr.map_kosloff_tal_ezer, "strip": tr.map_strip}[name]


def run_oned(case):
    k, n = case["kind"], case["n"]
    fd = {"force_dim_axis": True}
    if k == "cc":
        f = partial(mp.ClenshawCurtisQuadrature, n, **fd)
        if n < 1:
            raises(ValueError, f, f"ClenshawCurtisQuadrature({n})")
            return ["invalid"]
        rule_ok(f(), n + 1, f"ClenshawCurtisQuadrature({n})")
    elif k == "fejer":
        f = partial(mp.FejerQuadrature, n, kind=case["k"], **fd)
        if n < case["k"]:
            raises(ValueError, f, f"FejerQuadrature({n}, {case['k']})")
            return ["invalid"]
        rule_ok(f(), n if case["k"] == 1 else n - 1,
                f"FejerQuadrature({n}, {case['k']})")
    elif k == "fejer_kind":
        n = max(n, 2)
        f = partial(mp.FejerQuadrature, n, kind=case["k"], **fd)
        if case["k"] not in (1, 2):
            raises(ValueError, f, f"FejerQuadrature({n}, kind={case['k']})")
            return ["invalid"]
        f()
    elif k == "cheb_kind":
        n = max(n, 0)
        f = partial(mp.ChebyshevGaussQuadrature, n, kind=case["k"], **fd)
        if case["k"] not in (1, 2):
            raises(ValueError, f, f"ChebyshevGaussQuadrature({n}, kind={case['k']})")
            return ["invalid"]
        rule_ok(f(), n + 1, f"ChebyshevGaussQuadrature({n}, kind={case['k']})")
    elif k == "lobatto":
        f = partial(mp.LegendreGaussLobattoQuadrature, n, **fd)
        if n < 1:
            raises(ValueError, f, f"LegendreGaussLobattoQuadrature({n})")
            return ["invalid"]
        rule_ok(f(), n + 1, f"LegendreGaussLobattoQuadrature({n})")
    elif k == "jgl":
        f = partial(mp.JacobiGaussLobattoQuadrature, 0.5, 1, n, **fd)
        if n < 1:
            raises(ValueError, f, f"JacobiGaussLobattoQuadrature(0.5, 1, {n})")
            return ["invalid"]
        rule_ok(f(), n + 1, f"JacobiGaussLobattoQuadrature(0.5, 1, {n})")
    elif k == "backend":
        n, b = max(n, 0), case["b"]
        f = {"L": partial(mp.LegendreGaussQuadrature, n),
             "J": partial(mp.JacobiGaussQuadrature, 0.5, 1.0, n),
             "C1": partial(mp.ChebyshevGaussQuadrature, n, 1),
             "C2": partial(mp.ChebyshevGaussQuadrature, n, 2),
             "G": partial(mp.GaussGegenbauerQuadrature, 1.0, n),
             }[case["cls"]]
        f = partial(f, backend=b, **fd)
        if b not in ("builtin", "scipy"):
            raises(NotImplementedError, f, f"{case['cls']} with backend {b!r}")
            return ["invalid"]
        rule_ok(f(), n + 1, f"{case['cls']} with backend {b!r}")
    elif k == "apb":
        n, a = max(n, 0), case["a"]
        b = -1.0 - a
        what = f"JacobiGaussQuadrature({a}, {b}, {n})"
        raises(ValueError, partial(mp.JacobiGaussQuadrature, a, b, n,
                                   backend="builtin", **fd), what)
        rule_ok(mp.JacobiGaussQuadrature(a, b, n, backend="scipy", **fd), n + 1, what)
        return ["invalid"]
    elif k == "transformed":
        from modepy.quadrature import Transformed1DQuadrature
        n, a, b = max(n, 0), case["a"], case["b"]
        f = partial(Transformed1DQuadrature, mp.LegendreGaussQuadrature(n, **fd), a, b)
        if b <= a:
            raises(ValueError, f, f"Transformed1DQuadrature(.., {a}, {b})")
            return ["invalid"]
        rule_ok(f(), n + 1, f"Transformed1DQuadrature(.., {a}, {b})")
    else:
        n, d = max(n, 0), case["d"]
        q = mp.TensorProductQuadrature([mp.LegendreGaussQuadrature(n, **fd)]*d)
        from modepy.quadrature.transplanted import transplanted_1d_quadrature
        f = partial(transplanted_1d_quadrature, q, the_map(case["map"]))
        if d > 1:
            raises(ValueError, f, f"transplanting a {d}-dimensional rule")
            return ["invalid"]
        rule_ok(f(), n + 1, "transplanted rule")
    return ["valid"]


@st.composite
def map_cases(draw):
    k = draw(st.sampled_from(["sausage", "kte_rho", "kte_alpha", "strip_rho", "strip_s"]))
    c = {"kind": k, "n": draw(st.integers(1, 8))}
    if k == "sausage":
        c["p"] = draw(st.integers(-4, 16))
    elif k == "kte_rho":
        c["p"] = draw(st.one_of(st.sampled_from([1.0, 0.0, -1.0, 1 + 1e-7]),
                                st.floats(-5, 5, width=32)))
    elif k == "kte_alpha":
        c["p"] = draw(st.one_of(
            st.sampled_from([0.0, 1.0, -0.5, 1.5, 0.999, 1e-3]),
            st.floats(-3, 3, width=32)))
    elif k == "strip_rho":
        c["p"] = draw(st.one_of(st.sampled_from([1.0, 0.0, -1.0, 1.01]),
                                st.floats(-5, 5, width=32)))
    else:
        c["p"] = draw(st.one_of(st.sampled_from([1.0, -1.0]),
                                st.floats(-2, 2, width=32)))
        c["at"] = draw(st.integers(0, 20))
    return c


def run_map(case):
    from modepy.quadrature import transplanted as tr
    k, p, n = case["kind"], case["p"], case["n"]
    s = ref_gauss(n)
    if k == "sausage":
        f, bad = partial(tr.map_sausage, s, degree=p), p < 1 or p % 2 == 0
    elif k == "kte_rho":
        if 1 < p < 1 + 1e-8:
            raise Trivial
        f, bad = partial(tr.map_kosloff_tal_ezer, s, rho=p), p <= 1
    elif k == "kte_alpha":
        if 0 < p < 1e-9:
            raise Trivial
        f, bad = partial(tr.map_kosloff_tal_ezer, s, alpha=p), not 0 < p < 1
    elif k == "strip_rho":
        if 1 < p < 1.001:
            raise Trivial
        f, bad = partial(tr.map_strip, s, rho=p), p <= 1
    else:
        s = s.copy()
        s[case["at"] % n] = p
        f, bad = partial(tr.map_strip, s), abs(p) >= 1
    what = f"{k} with {p}"
    if bad:
        raises(ValueError, f, what)
        return ["invalid"]
    x, jac = f()
    arr(x, s.shape, what + " nodes", kind="f")
    arr(jac, s.shape, what + " jacobian", kind="f")
    return ["valid"]


def ref_gauss(n):
    return np.polynomial.legendre.leggauss(n)[0]

# }}}


# {{{ spaces against shapes

SHAPES = ["S0", "S1", "S2", "S3", "S4", "S5", "H2", "H3", "H4", "T:1,1", "T:2,1",
          "T:1,2", "T:3,1", "T:1,3", "T:1,2,1", "T:2,1,1", "T:1,1,2"]

FUNCS = ["equispaced_nodes_for_space", "edge_clustered_nodes_for_space",
         "basis_for_space", "orthonormal_basis_for_space", "monomial_basis_for_space",
         "quadrature_for_space"]


@st.composite
def mismatch_cases(draw):
    a = draw(st.sampled_from(SHAPES))
    b = draw(st.one_of(st.just(a), st.sampled_from(SHAPES), st.sampled_from(SHAPES)))
    return {"space": a, "shape": b, "n": draw(st.integers(1, 2)),
            "f": draw(st.sampled_from(FUNCS))}


def run_mismatch(case):
    a, b, n = case["space"], case["shape"], case["n"]
    space, shape = gen.build_space(a, n), gen.build_shape(b)
    f = partial(getattr(mp, case["f"]), space, shape)
    what = f"{case['f']}(space for {a}, {b})"
    da, db = gen.shape_dims(a), gen.shape_dims(b)
    if da == db:
        if case["f"] == "quadrature_for_space":
            w = arr(f().weights, None, what, kind="f")
            close(np.sum(w), float(np.prod([float(ref.simplex_volume(d)) for d in da])),
                  1e-11, what)
        elif "nodes" in case["f"]:
            arr(f(), (sum(da), space.space_dim), what, kind="f")
        else:
            ids = f().mode_ids
            need(len(ids) == space.space_dim, f"{what}: {len(ids)} modes")
        return ["match"]
    if (len(da) == 1) != (len(db) == 1):
        raises(NotImplementedError, f, what)
        return ["type"]
    raises(ValueError, f, what)
    return ["factors" if sum(da) == sum(db) else "dim"]


@st.composite
def alien_cases(draw):
    return {"f": draw(st.sampled_from([
        *FUNCS, "node_tuples_for_space", "space_for_shape", "unit_vertices_for_shape",
        "faces_for_shape", "submesh_for_shape", "random_nodes_for_shape"])),
        "dim": draw(st.integers(0, 4)), "n": draw(st.integers(0, 5)),
        "swap": draw(st.booleans())}


def run_alien(case):
    from modepy.shapes import Shape
    from modepy.spaces import FunctionSpace

    class Ball(Shape):
        nvertices = 0
        nfaces = 1

    class Trig(FunctionSpace):
        def __init__(self, dim, n):
            self.spatial_dim_, self.n = dim, n

        @property
        def order(self):
            return self.n

        @property
        def spatial_dim(self):
            return self.spatial_dim_

        @property
        def space_dim(self):
            return 2*self.n + 1

    name, dim, n = case["f"], case["dim"], case["n"]
    f = getattr(mp, name)
    if name in FUNCS:
        if case["swap"]:
            space, shape = Trig(dim, n), gen.build_shape(f"S{dim}")
        else:
            space, shape = mp.PN(dim, n), Ball(dim)
        args = (space, shape)
    elif name == "node_tuples_for_space":
        args = (Trig(dim, n),)
    elif name == "space_for_shape":
        args = (Ball(dim), n)
    elif name == "submesh_for_shape":
        args = (Ball(dim), [(0,)*dim])
    elif name == "random_nodes_for_shape":
        args = (Ball(dim), 3)
    else:
        args = (Ball(dim),)
    raises(NotImplementedError, partial(f, *args),
           f"{name} of an unknown {'space' if case['swap'] else 'shape'}")


@st.composite
def orders_cases(draw):
    s = draw(st.sampled_from(["H2", "H3", "H4", "T:1,1", "T:2,1", "T:1,2", "T:3,1",
                              "T:1,2,1"]))
    nf = len(gen.shape_dims(s))
    k = draw(st.one_of(st.just(nf), st.integers(0, 6)))
    return {"shape": s, "order": draw(st.lists(st.integers(0, 4), min_size=k,
                                               max_size=k))}


def run_orders(case):
    shape, order = gen.build_shape(case["shape"]), tuple(case["order"])
    nf = len(gen.shape_dims(case["shape"]))
    f = partial(mp.space_for_shape, shape, order)
    what = f"space_for_shape({case['shape']}, {order})"
    if len(order) != nf:
        raises(ValueError, f, what)
        return ["invalid"]
    sp = f()
    need([b.order for b in sp.bases] == list(order), f"{what}: {sp!r}")
    if len(set(order)) > 1:
        raises(AttributeError, lambda: sp.order, what + ".order")
    else:
        need(sp.order == order[0], f"{what}.order is {sp.order}")
    return ["valid"]

# }}}


# {{{ nodes

@st.composite
def nodes_cases(draw):
    f = draw(st.sampled_from(["equidistant_nodes", "warp_and_blend_nodes"]))
    d = draw(st.integers(1, 6))
    n = draw(st.integers(1, 5 if d < 4 else 2))
    return {"f": f, "dims": d, "n": n, "delta": draw(st.integers(-4, 4)),
            "default": draw(st.booleans())}


def run_nodes(case):
    d, n = case["dims"], case["n"]
    f = getattr(mp, case["f"])
    nts = list(mp.node_tuples_for_space(mp.PN(d, n)))
    what = f"{case['f']}({d}, {n})"
    if case["f"] == "warp_and_blend_nodes" and d > 3:
        raises(NotImplementedError, partial(f, d, n), what)
        return ["dims"]
    if case["default"] or case["delta"] == 0:
        x = f(d, n) if case["default"] else f(d, n, nts)
        arr(x, (d, len(nts)), what, kind="f")
        return ["valid"]
    k = case["delta"]
    bad = nts[:k] if k < 0 else nts + nts[:k]
    if len(bad) == len(nts):
        raise Trivial
    raises(ValueError, partial(f, d, n, bad), f"{what} with {len(bad)} node tuples"
           f" instead of {len(nts)}")
    return ["length"]


@st.composite
def tpn_cases(draw):
    return {"int": draw(st.booleans()), "nodes": draw(st.booleans()),
            "dims": draw(st.integers(1, 4)), "n": draw(st.integers(1, 4))}


def run_tpn(case):
    d, n = case["dims"], case["n"]
    x = np.linspace(-1, 1, n)
    first = d if case["int"] else [x.reshape(1, -1)]*d
    f = partial(mp.tensor_product_nodes, first, *([x] if case["nodes"] else []))
    if case["int"] != case["nodes"]:
        raises(ValueError, f, f"tensor_product_nodes({case})")
        return ["invalid"]
    arr(f(), (d, n**d), "tensor_product_nodes", kind="f")
    return ["valid"]


@st.composite
def shapes_cases(draw):
    k = draw(st.sampled_from(["tp", "faces", "submesh", "lebesgue"]))
    c = {"kind": k}
    if k == "tp":
        c["dims"] = draw(st.lists(st.integers(1, 3), min_size=2, max_size=5))
    elif k == "faces":
        c["shape"] = draw(st.sampled_from(["S1", "S2", "S3", "S4", "S5", "S6", "H2",
                                           "H3", "H4", "H5", "T:2,1", "T:1,2", "T:3,1",
                                           "T:1,2,1"]))
    elif k == "submesh":
        c["d"] = draw(st.integers(1, 6))
        c["n"] = draw(st.integers(1, 2))
    else:
        c["shape"] = draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:2,1"]))
        c["rows"] = draw(st.integers(1, 4))
        c["n"] = draw(st.integers(1, 2))
    return c


def run_shapes(case):
    k = case["kind"]
    if k == "tp":
        dims = case["dims"]
        f = partial(mp.TensorProductShape, tuple(mp.Simplex(d) for d in dims))
        if sum(d != 1 for d in dims) > 1:
            raises(NotImplementedError, f, f"product of simplices {dims}")
            return ["invalid"]
        need(f().dim == sum(dims), "dimension of product")
        return ["valid"]
    if k == "faces":
        s = case["shape"]
        f = partial(mp.faces_for_shape, gen.build_shape(s))
        if s in ("S1", "S2", "S3", "H2", "H3"):
            need(len(f()) == {"S": {1: 2, 2: 3, 3: 4}, "H": {2: 4, 3: 6}}[
                s[0]][int(s[1])], "number of faces")
            return ["valid"]
        raises(NotImplementedError, f, f"faces_for_shape({s})")
        return ["invalid"]
    if k == "submesh":
        d, n = case["d"], case["n"]
        f = partial(mp.submesh_for_shape, mp.Simplex(d),
                    mp.node_tuples_for_space(mp.PN(d, n)))
        if d > 3:
            raises(NotImplementedError, f, f"submesh in {d} dimensions")
            return ["invalid"]
        need(len(f()) == n**d, "number of cells")
        return ["valid"]
    from modepy.tools import estimate_lebesgue_constant
    s, n, rows = case["shape"], case["n"], case["rows"]
    shape = gen.build_shape(s)
    x = mp.edge_clustered_nodes_for_space(mp.space_for_shape(shape, n), shape)
    y = np.vstack([x]*4)[:rows]
    f = partial(estimate_lebesgue_constant, n, y, shape)
    if rows != shape.dim:
        raises(ValueError, f, f"Lebesgue constant of {rows}-dimensional nodes in {s}")
        return ["invalid"]
    need(f() >= 1 - 1e-12, "Lebesgue constant below one")
    return ["valid"]

# }}}


# {{{ bases

@st.composite
def bases_cases(draw):
    k = draw(st.sampled_from(["dim", "zero", "weight", "axis"]))
    c = {"kind": k, "n": draw(st.integers(0, 3))}
    if k == "dim":
        c["d"] = draw(st.integers(1, 6))
        c["what"] = draw(st.sampled_from(["functions", "gradients"]))
    elif k == "weight":
        c["shape"] = draw(st.sampled_from(["S1", "S2", "S3", "S4", "H2", "H3", "T:2,1",
                                           "T:1,2,1"]))
        c["basis"] = draw(st.sampled_from(["onb", "mono", "default"]))
    elif k == "axis":
        c["shape"] = draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:2,1", "T:1,2",
                                           "T:1,1"]))
        c["basis"] = draw(st.sampled_from(["onb", "mono", "default"]))
        c["axis"] = draw(st.integers(0, 5))
    return c


def get_basis(kind, space, shape):
    return {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
            "default": mp.basis_for_space}[kind](space, shape)


def run_bases(case):
    k, n = case["kind"], case["n"]
    if k == "dim":
        d = case["d"]

        def f():
            b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
            return getattr(b, case["what"])

        if d > 3:
            raises(NotImplementedError, f, f"orthonormal basis in {d} dimensions")
            return ["invalid"]
        need(len(f()) == mp.PN(d, n).space_dim, "number of functions")
        return ["valid"]
    if k == "zero":
        b = mp.orthonormal_basis_for_space(mp.PN(0, n), mp.Simplex(0))
        raises(NotImplementedError, lambda: b.gradients, "gradient in 0 dimensions")
        need(len(b.functions) == 1, "number of functions in 0 dimensions")
        return ["invalid"]
    s = case["shape"]
    shape = gen.build_shape(s)
    b = get_basis(case["basis"], mp.space_for_shape(shape, n), shape)
    if k == "weight":
        if case["basis"] == "mono" or (s == "S4" and case["basis"] == "default"):
            raises(mp.BasisNotOrthonormal, b.orthonormality_weight,
                   f"orthonormality_weight of monomials on {s}")
            return ["invalid"]
        if s == "S4":
            return ["valid"]
        need(b.orthonormality_weight() == 1, "orthonormality weight")
        return ["valid"]
    axis = case["axis"]
    x = np.zeros((shape.dim, 3)) - 0.5

    def g():
        return [f(x) for f in b.derivatives(axis)]

    if axis >= shape.dim:
        raises((IndexError, ValueError), g, f"derivatives({axis}) on {s}")
        return ["invalid"]
    arr(g(), (len(b.functions), 3), "derivatives")
    return ["valid"]

# }}}


# {{{ adaptive quadrature

@st.composite
def gk_cases(draw):
    k = draw(st.sampled_from(["kronrod", "gauss", "order", "points", "nan", "nan"]))
    c = {"kind": k, "n": draw(st.integers(-3, 15))}
    if k == "points":
        c["pts"] = draw(st.lists(st.floats(-3, 3, width=32), max_size=3))
    elif k == "nan":
        c["n"] = max(c["n"], 1)
        c["v"] = draw(st.sampled_from(["nan", "inf", "-inf"]))
        c["at"] = draw(st.floats(-1, 1, width=32))
        c["width"] = draw(st.floats(0, 0.5, width=32))
        c["inf"] = draw(st.sampled_from(["", "l", "r", "both"]))
        c["complex"] = draw(st.booleans())
    return c


def run_gk(case):
    from modepy.quadrature.kronrod import gauss, kronrod, quadgk
    k, n = case["kind"], case["n"]
    if k in ("kronrod", "gauss", "order"):
        f = {"kronrod": partial(kronrod, n), "gauss": partial(gauss, n),
             "order": partial(quadgk, np.cos, 0, 1, order=n)}[k]
        if n < 1:
            raises(ValueError, f, f"{k}({n})")
            return ["invalid"]
        r = f()
        if k == "order":
            close(r[0], np.sin(1), 1e-7, "quadgk(cos, 0, 1)")
        return ["valid"]
    if k == "points":
        p = case["pts"]
        f = partial(quadgk, lambda x: 1.0 + 0*x, *p, abstol=1e-11, maxevals=2000)
        if len(p) < 2:
            raises(ValueError, f, f"quadgk with break points {p}")
            return ["invalid"]
        close(f()[0], p[-1] - p[0], 1e-12, f"quadgk of one over {p}", scale=10.0)
        return ["valid"]
    bad = float(case["v"])
    hit = []

    def g(x):
        if abs(x - case["at"]) <= case["width"]:
            hit.append(x)
            return complex(bad, 1.0) if case["complex"] else bad
        return np.exp(-x*x)*(1+1j if case["complex"] else 1)

    ends = {"": (-1.0, 1.0), "l": (-np.inf, 1.0), "r": (-1.0, np.inf),
            "both": (-np.inf, np.inf)}[case["inf"]]
    try:
        r = quadgk(g, *ends, order=n, maxevals=500)
    except ValueError:
        need(hit, "quadgk raised ValueError although the integrand is finite")
        return ["invalid"]
    need(not hit, f"quadgk returned {r} although the integrand was {bad} at {hit[:3]}")
    return ["missed"]

# }}}


# {{{ matrices

MATS = ["diff", "diffs", "resample", "resample_lsq", "inverse_mass", "mass",
        "inverse_mass_mono", "test_matrix", "bilinear_test", "bilinear_trial",
        "quad_mass", "quad_mass_face", "mass_face", "multi_vdm", "spectral"]


@st.composite
def matrix_cases(draw):
    s = draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:2,1", "T:1,1"]))
    return {"f": draw(st.sampled_from(MATS)), "shape": s,
            "n": draw(st.integers(1, 3 if s in ("S1", "S2", "H2", "T:1,1") else 2)),
            "m": draw(st.one_of(st.just(0), st.integers(-3, 3))),
            "seed": draw(st.integers(0, 10**6))}


def run_matrix(case):
    from modepy import matrices as mat
    s, n, m, name = case["shape"], case["n"], case["m"], case["f"]
    shape = gen.build_shape(s)
    space = mp.space_for_shape(shape, n)
    basis = mp.orthonormal_basis_for_space(space, shape)
    nf = space.space_dim
    nn = max(nf + m, 1)
    m = nn - nf
    x = mp.edge_clustered_nodes_for_space(space, shape)
    rng = np.random.default_rng(case["seed"])
    x = (x if m == 0 else x[:, :nn] if m < 0 else
         np.hstack([x, mp.random_nodes_for_shape(shape, m, rng=rng)]))
    xg = mp.edge_clustered_nodes_for_space(space, shape)
    fs, gr = basis.functions, basis.gradients
    quad = mp.quadrature_for_space(mp.space_for_shape(shape, 2*n), shape)
    exc = ValueError
    size = (nf, nf)
    if name == "diff":
        def f(): return mp.differentiation_matrices(fs, gr, x)[0]
    elif name == "diffs":
        def f(): return mp.differentiation_matrices(fs, gr, xg, from_nodes=x)[0]
    elif name == "resample":
        exc = RuntimeError
        def f(): return mp.resampling_matrix(fs, xg, x)
    elif name == "resample_lsq":
        # permitted
        a = arr(mp.resampling_matrix(fs, xg, x, least_squares_ok=True), (nf, nn),
                "least-squares resampling")
        del a
        return ["valid"]
    elif name == "inverse_mass":
        def f(): return mp.inverse_mass_matrix(basis, x)
    elif name == "mass":
        def f(): return mp.mass_matrix(basis, x)
    elif name == "inverse_mass_mono":
        mono = mp.monomial_basis_for_space(space, shape)
        for g in (mp.inverse_mass_matrix, mp.mass_matrix):
            raises(NotImplementedError, partial(g, mono, xg),
                   "mass matrix of a basis that is not orthonormal")
        return ["invalid"]
    elif name == "test_matrix":
        size = (nf, quad.nodes.shape[1])
        def f(): return mp.nodal_quadrature_test_matrix(quad, fs, fs, x)
    elif name == "bilinear_test":
        def f(): return mp.nodal_quadrature_bilinear_form_matrix(
            quad, fs, fs, fs, fs, xg, x)
    elif name == "bilinear_trial":
        def f(): return mp.nodal_quadrature_bilinear_form_matrix(
            quad, fs, fs, fs, fs, x, xg)
    elif name == "quad_mass":
        size = (nf, quad.nodes.shape[1])
        def f(): return mp.nodal_quad_mass_matrix(quad, fs, x)
    elif name in ("quad_mass_face", "mass_face"):
        if s not in ("S2", "S3", "H2", "H3"):
            raise Trivial
        face = mp.faces_for_shape(shape)[0]
        fspace = mp.space_for_shape(face, n)
        fquad = mp.quadrature_for_space(mp.space_for_shape(face, 2*n), face)
        if name == "quad_mass_face":
            size = (nf, fquad.nodes.shape[1])
            def f(): return mat.nodal_quad_mass_matrix_for_face(face, fquad, fs, x)
        else:
            ffs = mp.orthonormal_basis_for_space(fspace, face).functions
            fx = mp.edge_clustered_nodes_for_space(fspace, face)
            k = fx.shape[1]
            if m < 0 and k + m < 1:
                raise Trivial
            fx = fx[:, :k+m] if m < 0 else np.hstack([fx, fx[:, :m]])
            m = fx.shape[1] - k
            size = (nf, k)
            def f(): return mp.nodal_mass_matrix_for_face(
                face, fquad, ffs, fs, xg, fx)
    elif name == "multi_vdm":
        raises(ValueError, partial(mp.multi_vandermonde, [], x),
               "multi_vandermonde of no functions")
        return ["invalid"]
    else:
        if s == "S1":
            raises(ValueError, partial(mp.spectral_diag_nodal_mass_matrix,
                                       mp.LegendreGaussQuadrature(
                                           n, force_dim_axis=True)),
                   "spectral mass matrix of a rule that is not a product")
            return ["invalid"]
        if s[0] == "S":
            raises(ValueError, partial(mp.spectral_diag_nodal_mass_matrix, quad),
                   f"spectral mass matrix of a rule on {s}")
            return ["invalid"]
        if s == "T:2,1":
            raises(ValueError, partial(mp.spectral_diag_nodal_mass_matrix, quad),
                   f"spectral mass matrix of a rule on {s}")
            return ["invalid"]
        q = mp.LegendreGaussLobattoTensorProductQuadrature(n, shape.dim)
        arr(mp.spectral_diag_nodal_mass_matrix(q), ((n+1)**shape.dim,), "spectral")
        return ["valid"]

    what = f"{name} on {s}, {nf} functions, {nn} nodes"
    if m == 0:
        arr(f(), size, what, kind="f")
        return ["valid"]
    raises(exc, f, what)
    return ["invalid"]

# }}}


# {{{ construction, reshaping, modal decay

@st.composite
def misc_cases(draw):
    k = draw(st.sampled_from(["weights", "residual_axes", "residual_n", "degree",
                              "reshape", "unreshape", "inf", "exact_to"]))
    return {"kind": k, "n": draw(st.integers(1, 4)), "d": draw(st.integers(1, 3)),
            "m": draw(st.integers(-3, 3)), "axis": draw(st.integers(-4, 4))}


def run_misc(case):
    from modepy.quadrature import construction as con
    k, n, d, m = case["kind"], case["n"], case["d"], case["m"]
    shape = mp.Simplex(d)
    n = min(n, 3)
    basis = mp.orthonormal_basis_for_space(mp.PN(d, n), shape)
    x = mp.edge_clustered_nodes_for_space(mp.PN(d, n), shape)
    nf = x.shape[1]
    if k == "weights":
        ints = np.zeros(max(nf + m, 0))
        ints[:1] = 1
        f = partial(con.find_weights_undetermined_coefficients, basis.functions, x, ints)
        if len(ints) != nf:
            raises(ValueError, f, f"{nf} integrands, {len(ints)} integrals")
            return ["invalid"]
        arr(f(), (nf,), "weights", kind="f")
        return ["valid"]
    if k in ("residual_axes", "residual_n"):
        der = [basis.derivatives(i) for i in range(d)]
        bad = m != 0
        if k == "residual_axes":
            der = der[:m] if m < 0 else der + der[:1]*m
            bad = len(der) != d
        elif m != 0:
            i = abs(m) % d
            der[i] = der[i][:-1] if m < 0 else der[i] + der[i][:1]
        f = partial(con.quad_residual_and_jacobian, x, np.ones(nf), basis.functions,
                    der, np.zeros(nf))
        if bad:
            raises(ValueError, f, f"derivatives: {[len(a) for a in der]}")
            return ["invalid"]
        arr(f().dresid_dnodes, (nf, d*nf), "jacobian")
        return ["valid"]
    if k == "degree":
        from modepy.modal_decay import degree_vector

        class Other(mp.Basis):
            functions = gradients = mode_ids = ()

            def orthonormality_weight(self):
                return 1

        raises(TypeError, partial(degree_vector, Other()), "degrees of an unknown basis")
        need(list(degree_vector(basis)) == [sum(t) for t in basis.mode_ids], "degrees")
        return ["invalid"]
    if k in ("reshape", "unreshape"):
        from modepy.tools import (
            reshape_array_for_tensor_product_space as rs,
            unreshape_array_for_tensor_product_space as us,
        )
        sp = mp.QN(2, n)
        nd = (n+1)**2
        axis = case["axis"]
        if k == "reshape":
            a = np.zeros((nd, nd))
            f = partial(rs, sp, a, axis=axis)
            bad = not -2 <= axis < 2
            if not bad and m:
                a = np.zeros((nd + m, nd + m))
                f = partial(rs, sp, a, axis=axis)
                bad = True
        else:
            a = np.zeros((n+1, n+1, n+1, n+1))
            f = partial(us, sp, a, axis=axis)
            bad = not -3 <= axis < 3
            if not bad and m > 0:
                a = np.zeros((n+1+m,)*4)
                f = partial(us, sp, a, axis=axis)
                bad = True
        if bad:
            raises(ValueError, f, f"{k} {a.shape} along {axis} for {sp}")
            return ["invalid"]
        need(f().size == a.size, "size")
        return ["valid"]
    if k == "inf":
        from modepy.quadrature import inf
        raises(ValueError, lambda: int(inf), "int of an infinite exactness")
        need(inf > n, "infinite exactness")
        return ["invalid"]
    q = mp.Quadrature(x, np.zeros(nf))
    raises(AttributeError, lambda: q.exact_to, "exact_to of an unknown rule")
    raises(AttributeError,
           lambda: mp.TensorProductQuadrature([q, mp.LegendreGaussQuadrature(
               n, force_dim_axis=True)]).exact_to,
           "exact_to of a product with an unknown rule")
    need(mp.Quadrature(x, np.zeros(nf), exact_to=n).exact_to == n, "exact_to")
    return ["invalid"]

# }}}


RULE = "the request is invalid, or it is a valid one at the edge of the range"

SUBS = [
    Sub("rules", run_rules, cases=rules_cases, rule="every order and dimension",
        classify=None),
    Sub("oned", run_oned, oned_cases(), quick=250, rule=RULE),
    Sub("maps", run_map, map_cases(), quick=200, rule=RULE),
    Sub("mismatch", run_mismatch, mismatch_cases(), quick=400, rule=RULE),
    Sub("alien", run_alien, alien_cases(), quick=120, thorough=400, rule=RULE),
    Sub("orders", run_orders, orders_cases(), quick=100, thorough=1000, rule=RULE),
    Sub("nodes", run_nodes, nodes_cases(), quick=150, rule=RULE),
    Sub("tp_nodes", run_tpn, tpn_cases(), quick=40, thorough=60, rule=RULE),
    Sub("shapes", run_shapes, shapes_cases(), quick=150, thorough=1000, rule=RULE),
    Sub("bases", run_bases, bases_cases(), quick=200, thorough=1000, rule=RULE),
    Sub("quadgk", run_gk, gk_cases(), quick=120, thorough=3000, rule=RULE),
    Sub("matrices", run_matrix, matrix_cases(), quick=300, rule=RULE),
    Sub("misc", run_misc, misc_cases(), quick=200, rule=RULE),
]
