"""C27: purity.  Random histories of public calls, interleaved with in-place
modification of everything the library handed out, run in a pristine child
process; every answer is compared with the one a pristine process gives to that
single call."""
from __future__ import annotations

import gc
import os
import pickle
import random
import select
import signal
import traceback
from functools import partial

import numpy as np
from hypothesis import strategies as st

import modepy as mp
import modepy.matrices as mat
import modepy.modal_decay as md
import modepy.modes as modes
import modepy.nodes as nodes
import modepy.quadrature.construction as con
import modepy.quadrature.jacobi_gauss as jg
import modepy.quadrature.kronrod as kr
import modepy.quadrature.transplanted as tr
import modepy.tools as tools
from modepy.quadrature import Transformed1DQuadrature
from vlib import gen
from vlib.core import Inconclusive, Sub, Violation
from vlib.util import close, fail, need


# tables and libraries are imported (not used) here so that children need not load them
for _m in [*(f"modepy.quadrature.{_t}" for _t in (
            "xg_quad_data", "vr_quad_data_tri", "vr_quad_data_tet",
            "jaskowiec_sukumar_tet_data", "witherden_vincent_quad_data")),
           "numpy.random", "numpy.fft", "numpy.polynomial.chebyshev", "scipy.special",
           "scipy.linalg", "pymbolic", "pymbolic.mapper.evaluator", "pymbolic.primitives",
           "pymbolic.geometric_algebra"]:
    try:
        __import__(_m)
    except ImportError:  # a table may move; then its module loads lazily
        pass
gc.freeze()


ID = "C27"
SCALE = 2
ASSUMPTIONS = [
    "'modifying a result' means writing to arrays, lists, dictionaries and sets reachable"
    " through the public attributes of what a call returned; arrays that are read-only"
    " cannot be modified",
    "reshaping functions return views of their argument by documentation",
]


# {{{ catalogue of calls: name -> (function(ctx, *params), list of parameter tuples)

OPS: dict = {}


def op(*params, views=False):
    def deco(f):
        OPS[f.__name__.strip("_")] = (f, [list(p) for p in params], views)
        return f
    return deco


OWN = ("qn", "qw", "q1n", "q1w", "gllw")    # arrays of rules, not of the caller


class Ctx:
    """argument factory; with *shared*, equal arguments are the same objects in the
    whole history; with "buffers", all arrays of one shape and type are written to the
    same array object"""

    def __init__(self, shared):
        self.shared, self.pool, self.watched = shared, {}, []
        self.used, self.factor = {}, None

    def begin(self, factor=None):
        """a new call, with arrays scaled by *factor*"""
        self.used, self.factor = {}, factor

    def get(self, key, ctor):
        if not self.shared or self.shared == "buffers" and key[0] in ("aff", "vrf"):
            return ctor()
        key = str(key)
        if key not in self.pool:
            self.pool[key] = ctor()
        return self.pool[key]

    def watch(self, key, ctor):
        """an array (or list) argument, whose content is the user's"""
        if self.shared == "buffers" and key[0] not in OWN:
            a = self.buffer(str(key), ctor())
        else:
            a = self.get(key, ctor)
        self.watched.append((key, a, pickle.dumps(a)))
        return a

    def buffer(self, key, v):
        kind = (v.shape, str(v.dtype)) if isinstance(v, np.ndarray) else ("list", len(v))
        i = self.used.setdefault((kind, key), sum(k == kind for k, _ in self.used))
        a = self.pool.setdefault(("buffer", kind, i), v)
        if isinstance(v, list):
            a[:] = v if self.factor is None else \
                [x + 1 if isinstance(x, int) else x for x in v[::-1]]
        elif self.factor is None:
            a[...] = v
        else:
            a[...] = v*self.factor if v.dtype.kind in "fc" else v
        return a

    def shape(self, s):
        return self.get(("shape", s), lambda: gen.build_shape(s))

    def space(self, s, n):
        return self.get(("space", s, n), lambda: mp.space_for_shape(
            self.shape(s), tuple(n) if isinstance(n, list) else n))

    def basis(self, s, n, kind="onb"):
        f = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
             "def": mp.basis_for_space}[kind]
        return self.get(("basis", s, n, kind), lambda: f(self.space(s, n), self.shape(s)))

    def nodes(self, s, n):
        return self.watch(("nodes", s, n), lambda: np.array(
            mp.edge_clustered_nodes_for_space(self.space(s, n), self.shape(s))))

    def points(self, d, k=5, seed=0):
        return self.watch(("points", d, k, seed), lambda: np.random.default_rng(
            [d, k, seed]).uniform(-1, 0.2, (d, k))/max(d, 1) - 0.3)

    def quad(self, s, n):
        q = self.get(("quad", s, n), lambda: mp.quadrature_for_space(
            self.space(s, n), self.shape(s)))
        self.watch(("qn", s, n), lambda: q.nodes)
        self.watch(("qw", s, n), lambda: q.weights)
        return q

    def quad1(self, name, n):
        f = {"LG": mp.LegendreGaussQuadrature, "CC": mp.ClenshawCurtisQuadrature,
             "F": mp.FejerQuadrature, "LGL": mp.LegendreGaussLobattoQuadrature}[name]
        q = self.get(("quad1", name, n), lambda: f(n, force_dim_axis=True))
        self.watch(("q1n", name, n), lambda: q.nodes)
        self.watch(("q1w", name, n), lambda: q.weights)
        return q


FD = {"force_dim_axis": True}
S3 = ["S1", "S2", "S3"]
TP = ["H2", "T:2,1", "T:1,2"]
SN = [(s, n) for s in S3 + TP for n in (1, 2, 3)]
SN2 = [(s, n) for s in S3 + TP for n in (1, 2)] + [("H2", [1, 2]), ("H2", [2, 1]),
                                                 ("T:2,1", [2, 1])]


# (-1 and -2 have the same hash; 1, 1.0 and True are equal)
@op(*[(a, b, n) for a, b in [(0, 0), (1, 0), (0.5, -0.5), (0, 1), (0.0, 1.0), (1.0, 0.0)]
      for n in (0, 1, 3)])
def jacobi(c, a, b, n):
    x = c.points(1)[0]
    return [mp.jacobi(a, b, n, x), mp.grad_jacobi(a, b, n, x),
            mp.scaled_jacobi(a, b, n, x)]


@op(*[(s, n, k) for s, n in SN2 for k in ("onb", "mono", "def")])
def basis_eval(c, s, n, k):
    b = c.basis(s, n, k)
    x = c.points(c.shape(s).dim)
    return [b.mode_ids, [f(x) for f in b.functions], [f(x) for f in b.gradients],
            [f(x) for f in b.derivatives(c.shape(s).dim - 1)]]


@op(*[(s, n, k) for s, n in SN2[:9] for k in ("onb", "mono")])
def basis_fresh(c, s, n, k):
    sh = gen.build_shape(s)
    sp = mp.space_for_shape(sh, n)
    return {"onb": mp.orthonormal_basis_for_space,
            "mono": mp.monomial_basis_for_space}[k](sp, sh)


@op(("S2", 2), ("S1", 2), ("S2", 1), ("H2", 1), ("S3", 1))
def symbolic(c, s, n):
    b = c.basis(s, n)
    d = c.shape(s).dim
    return [str(mp.symbolicize_function(b.functions[-1], d)),
            str(mp.symbolicize_function(b.gradients[-1], d))]


@op(*[((s, n)) for s, n in SN2])
def node_sets(c, s, n):
    sh, sp = c.shape(s), c.space(s, n)
    return [mp.equispaced_nodes_for_space(sp, sh), mp.edge_clustered_nodes_for_space(sp, sh),
            mp.node_tuples_for_space(sp)]


@op(*[(d, n) for d in (1, 2, 3) for n in (1, 2, 4)])
def simplex_nodes(c, d, n):
    nt = c.watch(("nt", d, n), lambda: list(mp.node_tuples_for_space(mp.PN(d, n)))[::-1])
    return [mp.equidistant_nodes(d, n, nt), mp.warp_and_blend_nodes(d, n, nt),
            mp.equidistant_nodes(d, n), mp.warp_and_blend_nodes(d, n)]


@op((1, 3), (2, 3), (2, 2), (3, 2))
def tp_nodes(c, d, n):
    x = c.watch(("lin", n), lambda: np.linspace(-1, 1, n))
    y = c.points(2, 3)
    return [mp.tensor_product_nodes(d, x), mp.tensor_product_nodes([y, x]),
            mp.tensor_product_nodes([y]), mp.tensor_product_nodes([x]),
            mp.tensor_product_nodes([x]*d),
            mp.legendre_gauss_tensor_product_nodes(d, n),
            mp.legendre_gauss_lobatto_tensor_product_nodes(d, n)]


@op(*[(s, k) for s in S3 + TP for k in (0, 1)])
def random_nodes(c, s, k):
    return mp.random_nodes_for_shape(c.shape(s), 7, rng=np.random.default_rng(k))


@op(*[(s,) for s in S3 + TP + ["H3", "S0", "S4"]])
def shape_info(c, s):
    sh = c.shape(s)
    return [mp.unit_vertices_for_shape(sh), sh.nvertices, sh.dim, repr(sh)]


@op(*[(s,) for s in ("S1", "S2", "S3", "H2", "H3")])
def faces(c, s):
    fs = mp.faces_for_shape(c.shape(s))
    return [[f, f.map_to_volume(c.points(f.dim)), mp.face_normal(f),
             mp.face_normal(f, normalize=False)] for f in fs]


@op(*[((s, n)) for s, n in SN2])
def submesh(c, s, n):
    nt = c.watch(("snt", s, n), lambda: list(mp.node_tuples_for_space(c.space(s, n))))
    return mp.submesh_for_shape(c.shape(s), nt)


@op(*[(k, n) for k in ("LG", "CC", "F", "LGL") for n in (1, 2, 3, 4) if (k, n) != ("F", 1)])
def rule_1d(c, k, n):
    cls = {"LG": mp.LegendreGaussQuadrature, "CC": mp.ClenshawCurtisQuadrature,
           "F": partial(mp.FejerQuadrature, kind=2),
           "LGL": mp.LegendreGaussLobattoQuadrature}[k]
    return [cls(n, force_dim_axis=True), cls(n, force_dim_axis=False)]


@op(*[(a, b, n, k) for a, b in [(0, 1), (1, 0), (0.5, 0.5), (-0.5, -0.5), (1, 1), (0.0, 1.0)]
      for n in (1, 2, 4) for k in ("builtin", "scipy")])
def rule_jacobi(c, a, b, n, k):
    return [mp.JacobiGaussQuadrature(a, b, n, backend=k, **FD),
            mp.JacobiGaussLobattoQuadrature(a, b, n, backend=k, **FD)]


@op(*[(n, k) for n in (0, 1, 3) for k in (1, 2)])
def rule_cheb(c, n, k):
    return [mp.ChebyshevGaussQuadrature(n, kind=k, **FD),
            mp.GaussGegenbauerQuadrature(k, n, **FD), mp.FejerQuadrature(n+2, kind=k, **FD)]


@op(*[(n, d) for n in (1, 2, 3, 5) for d in (2, 3)])
def rule_xg(c, n, d):
    return mp.XiaoGimbutasSimplexQuadrature(n, d)


@op(*[(n, d) for n in (0, 1, 2, 3) for d in (2, 3)])
def rule_vr(c, n, d):
    return mp.VioreanuRokhlinSimplexQuadrature(n, d)


@op(*[(n, d) for n in (1, 3, 5) for d in (2, 3)])
def rule_wv(c, n, d):
    return mp.WitherdenVincentQuadrature(n, d)


@op((1,), (2,), (3,), (5,))
def rule_js(c, n):
    return mp.JaskowiecSukumarQuadrature(n, 3)


@op(*[(n, d) for n in (0, 1, 2) for d in (1, 2, 3)])
def rule_gm(c, n, d):
    return mp.GrundmannMoellerSimplexQuadrature(n, d)


@op(*[((s, n)) for s, n in SN2])
def rule_space(c, s, n):
    return mp.quadrature_for_space(c.space(s, n), c.shape(s))


@op(("LG", 1, "LG", 1), ("LG", 1, "CC", 2), ("CC", 2, "LG", 1), ("LG", 2, "LGL", 3))
def rule_tp(c, k1, n1, k2, n2):
    qs = c.get(("qs", k1, n1, k2, n2), lambda: [c.quad1(k1, n1), c.quad1(k2, n2)])
    return [arrays_of(mp.TensorProductQuadrature(qs)),
            arrays_of(mp.TensorProductQuadrature(qs[:1])),
            arrays_of(mp.TensorProductQuadrature([*qs, c.quad("S2", 2)])),
            mp.LegendreGaussTensorProductQuadrature(n1, 2),
            mp.LegendreGaussLobattoTensorProductQuadrature(n1, 2)]


@op()
def _unused(c):
    return []


@op((0,))
def rule_zero(c, z):
    return [mp.ZeroDimensionalQuadrature(), mp.GrundmannMoellerSimplexQuadrature(2, 0)]


@op(*[(k, n, m) for k in ("LG", "F") for n in (2, 3)
      for m in ("id", "sausage3", "sausage5", "kte", "kte2", "strip", "strip2", [0.0, 1.0],
                [-1, 1.0], [-2, 1.0], [-2.0, 1], [0, 1])])
def rule_mapped(c, k, n, m):
    q = c.quad1(k, n)
    if isinstance(m, list):
        return arrays_of(Transformed1DQuadrature(q, *m))
    f = {"id": tr.map_identity, "sausage3": partial(tr.map_sausage, degree=3),
         "sausage5": partial(tr.map_sausage, degree=5), "kte": tr.map_kosloff_tal_ezer,
         "kte2": partial(tr.map_kosloff_tal_ezer, rho=2.0),
         "strip": tr.map_strip, "strip2": partial(tr.map_strip, rho=2.0)}[m]
    return [arrays_of(mp.transplanted_1d_quadrature(q, f)), f(c.points(1)[0])]


@op(("LG", 2), ("CC", 2), ("LGL", 3), ("LG", 3))
def integrate_1d(c, k, n):
    return c.quad1(k, n)(lambda x: np.exp(x[0]))


@op(*[((s, n)) for s, n in SN2])
def integrate(c, s, n):
    return c.quad(s, n)(lambda x: np.exp(np.sum(x, axis=0)))


@op((1,), (2,), (5,), (7,))
def kronrod(c, n):
    return [kr.kronrod(n), kr.gauss(n)]


@op((1, 0.0, 1.0), (7, 0.0, 1.0), (3, -1.0, 1.0), (7, 0.0, np.inf), (7, -np.inf, np.inf),
    (7, -np.inf, 0), (7, 1, -np.inf), (7, -1, 1), (7, -2, 1), (7, -2.0, np.inf), (7, -1, np.inf))
def quadgk(c, n, a, b):
    return kr.quadgk(lambda x: np.exp(-x*x), a, b, order=n, maxevals=2000)


@op(*[(s, n, k) for s, n in SN2 for k in ("onb", "mono")])
def vandermonde(c, s, n, k):
    b, x = c.basis(s, n, k), c.nodes(s, n)
    return [mp.vandermonde(b.functions, x), mp.multi_vandermonde(b.gradients, x)]


@op(*[((s, n)) for s, n in SN2])
def resampling(c, s, n):
    b, x, d = c.basis(s, n), c.nodes(s, n), c.shape(s).dim
    return [mp.resampling_matrix(b.functions, c.points(d), x),
            mp.resampling_matrix(b.functions, x, x),
            mp.resampling_matrix(b.functions, x, c.points(d, 40), least_squares_ok=True)]


@op(*[(s, n, k) for s, n in SN2 for k in ("onb", "mono")])
def differentiation(c, s, n, k):
    b, x = c.basis(s, n, k), c.nodes(s, n)
    return [mp.differentiation_matrices(b.functions, b.gradients, x),
            mp.diff_matrices(b, x), mp.diff_matrices(b, c.points(c.shape(s).dim), x)]


@op(*[(s, n, i) for s in ("S2", "S3") for n in (1, 2) for i in (0, 1)])
def permutation(c, s, n, i):
    nt = c.watch(("snt", s, n), lambda: list(mp.node_tuples_for_space(c.space(s, n))))
    return mp.diff_matrix_permutation(nt, i)


@op(*[((s, n)) for s, n in SN2])
def mass(c, s, n):
    b, x = c.basis(s, n), c.nodes(s, n)
    return [mp.mass_matrix(b, x), mp.inverse_mass_matrix(b, x)]


@op(*[((s, n)) for s, n in SN2[:9]])
def forms(c, s, n):
    b, x, q = c.basis(s, n), c.nodes(s, n), c.quad(s, 2*n)
    f = b.functions
    return [mp.nodal_quadrature_test_matrix(q, f, f, x),
            mp.nodal_quadrature_bilinear_form_matrix(q, f, f, f, f, x),
            mp.nodal_quad_mass_matrix(q, f, x), mat.modal_quad_mass_matrix(q, f)]


@op(("S2", 1), ("S2", 2), ("S3", 1), ("H2", 2))
def face_forms(c, s, n):
    b, x = c.basis(s, n), c.nodes(s, n)
    face = c.get(("faces", s), lambda: mp.faces_for_shape(c.shape(s)))[-1]
    fsp = mp.space_for_shape(face, n)
    fb = mp.orthonormal_basis_for_space(fsp, face)
    fx = mp.edge_clustered_nodes_for_space(fsp, face)
    fq = mp.quadrature_for_space(mp.space_for_shape(face, 2*n), face)
    return [mp.nodal_mass_matrix_for_face(face, fq, fb.functions, b.functions, x, fx),
            mp.modal_mass_matrix_for_face(face, fq, fb.functions, b.functions),
            mp.nodal_quad_mass_matrix_for_face(face, fq, b.functions, x),
            mp.modal_quad_mass_matrix_for_face(face, fq, b.functions)]


@op((1, 1), (2, 1), (2, 2))
def spectral(c, n, d):
    q = c.get(("gll", n, d), lambda: mp.LegendreGaussLobattoTensorProductQuadrature(n, d))
    c.watch(("gllw", n, d), lambda: q.weights)
    return mp.spectral_diag_nodal_mass_matrix(q)


@op(*[(d, k) for d in (1, 2, 3) for k in (0, 1)])
def coordinates(c, d, k):
    x = c.points(d, 4, k)
    b = tools.unit_to_barycentric(x)
    return [tools.equilateral_to_unit(x), b, tools.barycentric_to_unit(b),
            tools.barycentric_to_equilateral(b)]


@op((1, 0), (2, 0), (2, 1), (3, 0))
def affine(c, d, k):
    a = c.watch(("afa", d, k), lambda: np.random.default_rng(k).normal(size=(d, d)) + 3*np.eye(d))
    b = c.watch(("afb", d, k), lambda: np.random.default_rng(k).normal(size=d))
    m = c.get(("aff", d, k), lambda: tools.AffineMap(a, b))
    x = c.points(d)
    return [m(x), m.inverse(x), m.jacobian, m.inverse.jacobian]


@op(("H2", 1), ("H2", [1, 2]), ("T:2,1", 1), ("H2", 2), views=True)
def reshape(c, s, n):
    sp = c.space(s, n)
    a = c.watch(("resh", s, n), lambda: np.arange(2.0*sp.space_dim).reshape(2, -1))
    r = tools.reshape_array_for_tensor_product_space(sp, a)
    return [np.array(r), np.array(tools.unreshape_array_for_tensor_product_space(sp, r))]


@op(*[((s, n)) for s, n in SN2[:12]])
def lebesgue(c, s, n):
    if c.shape(s).dim == 3 and n > 1:
        n = 1
    return tools.estimate_lebesgue_constant(n, c.nodes(s, n), c.shape(s))


@op(*[(d, n, i) for d, n in [(1, 4), (2, 2), (2, 3)] for i in (0, 1, 2)])
def decay(c, d, n, i):
    nm = mp.PN(d, n).space_dim
    a = c.watch(("dec", d, n), lambda: np.random.default_rng(d).normal(size=(3, nm))
                * 0.5**np.arange(nm))
    return [md.fit_modal_decay(a, d, n, i) if i else [], md.skyline_pessimize(a**2),
            md.skyline_pessimize(c.watch(("dec2", d, n), lambda: np.array(a)**2)),
            md.estimate_relative_expansion_residual(a, d, n, max(i, 1))]


@op(*[(s, n, k) for s, n in SN2[:9] for k in (1, 2)])
def interp_error(c, s, n, k):
    b, x = c.basis(s, n), c.nodes(s, n)
    return [md.interp_error_coefficient_estimator_matrix(x, k, b), md.degree_vector(b)]


@op((1,), (2,), (3,))
def find_weights(c, n):
    b, x = c.basis("S2", n), c.nodes("S2", n)
    ints = c.watch(("ints", n), lambda: np.eye(b_len(b))[0]*2**0.5)
    return con.find_weights_undetermined_coefficients(b.functions, x, ints)


@op((1,), (2,))
def gauss_newton(c, n):
    b, q = c.basis("S2", n), c.quad("S2", n)
    ints = c.watch(("ints", n), lambda: np.eye(b_len(b))[0]*2**0.5)
    x = c.watch(("gnx", n), lambda: np.array(q.nodes) + 0.01)
    w = c.watch(("gnw", n), lambda: np.array(q.weights)*1.01)
    r = con.quad_residual_and_jacobian(x, w, b.functions,
                                       [b.derivatives(0), b.derivatives(1)], ints)
    return [r.residual, r.dresid_dweights, r.dresid_dnodes,
            con.quad_gauss_newton_increment(r)]


@op((1,), (2,))
def vr_nodes(c, n):
    b, q = c.basis("S2", n), c.quad("S2", 2*n+1)
    fs = c.get(("vrf", n), lambda: con.adapt_2d_integrands_to_complex_arg(b.functions))
    z = c.watch(("vrz", n), lambda: c.points(2)[0] + 1j*c.points(2)[1])
    qz = mp.Quadrature(q.nodes[0] + 1j*q.nodes[1], np.array(q.weights))
    m = c.watch(("vrm", n), lambda: np.arange(1.0, 1 + len(fs)))
    return [[f(z) for f in fs],
            sorted_c(con.guess_nodes_vioreanu_rokhlin(qz, fs)),
            con.linearly_combine(m, fs)(z),
            [abs(np.asarray(f(z))) for f in con.orthogonalize_basis(qz, fs)]]


@op(*[((e, f)) for e in ([1], [2, 0], [1, 1], [0, 3, 1]) for f in (1, 2.5)])
def monomials(c, e, f):
    e = c.watch(("exps", str(e)), lambda: list(e))
    m = tools.Monomial(e, f)
    x = c.points(len(e))
    return [m(x), m.simplex_integral(), m.hypercube_integral(), m.diff(0)(x),
            list(m.exponents)]


@op(*[((s, n)) for s, n in SN2])
def spaces(c, s, n):
    sp = c.space(s, n)
    return [sp.space_dim, sp.spatial_dim, [b.order for b in getattr(sp, "bases", [sp])]]


@op(*[(n,) for n in (1, 2, 3, 7)])
def kronrod_rule(c, n):
    q = kr.make_kronrod_quadrature(n)
    g = q.gauss_quadrature
    return [q.nodes, q.weights, q.weights_at_gauss_nodes, q.exact_to, q.dim, g.nodes,
            g.weights, g.exact_to, q(np.exp), g(np.cos)]


@op(*[(n, m) for n in (1, 2) for m in (2, 3)])
def combinations(c, n, m):
    """nested linear combinations, which are flattened"""
    fs = c.get(("lcf", n), lambda: c.basis("S2", n).functions[:3])
    x = c.points(2)
    a = c.watch(("lca", m), lambda: np.arange(1.0, 10.0).reshape(3, 3)[:, :m])
    gs = [con.linearly_combine(a[:, j], fs) for j in range(m)]
    h = con.linearly_combine(c.watch(("lcb", m), lambda: np.arange(2.0, 2.0 + m)), gs)
    k = con.linearly_combine(np.array([2.0, -1.0]), [h, gs[0]])
    return [[g(x) for g in gs], h(x), k(x), np.array(h.coefficients),
            np.array(k.coefficients), len(k.functions)]


@op(*[(s, n) for s in ("S1", "S3", "H2", "H3", "T:2,1") for n in (1, 2)])
def counts(c, s, n):
    sh, sp = c.shape(s), c.space(s, n)
    q = mp.ZeroDimensionalQuadrature()
    return [sh.nfaces, sh.nvertices, sp.order, sp.space_dim, q.exact_to > n, q.exact_to >= n,
            n < q.exact_to, q.exact_to == n, mp.quadrature_for_space(sp, sh).exact_to]


@op(*[(d, n) for d in (2, 3) for n in (1, 2)])
def qn(c, d, n):
    sp, sh = mp.QN(d, n), mp.Hypercube(d)
    b = mp.basis_for_space(sp, sh)
    return [sp.order, sp.space_dim, b.mode_ids, [f(c.points(d)) for f in b.functions],
            mp.edge_clustered_nodes_for_space(sp, sh), mp.quadrature_for_space(sp, sh)]


@op(*[(n, m) for n in (2, 3) for m in ("sausage", "kte", "strip")])
def rule_transplanted(c, n, m):
    f = {"sausage": partial(tr.map_sausage, degree=3),
         "kte": tr.map_kosloff_tal_ezer, "strip": tr.map_strip}[m]
    return [mp.transplanted_legendre_gauss_quadrature(n, f, force_dim_axis=True),
            mp.transplanted_legendre_gauss_quadrature(n, f)]


@op(("S0", 0), ("S0", 2), ("S4", 1), ("S4", 2), ("H4", 1))
def other_dims(c, s, n):
    sh, sp = c.shape(s), c.space(s, n)
    x = c.points(sh.dim)
    b = mp.basis_for_space(sp, sh)
    return [b.mode_ids, [f(x) for f in b.functions], mp.edge_clustered_nodes_for_space(sp, sh),
            mp.equispaced_nodes_for_space(sp, sh), mp.quadrature_for_space(sp, sh),
            mp.node_tuples_for_space(sp)]


@op(*[(i, j, k) for i, j, k in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0),
                                (2, 0, 1), (1, 2, 1))])
def single_modes(c, i, j, k):
    x, y = c.points(3), c.points(2)
    return [modes.pkdo_2d((i, j), y), modes.grad_pkdo_2d((i, j), y),
            modes.pkdo_3d((i, j, k), x), modes.grad_pkdo_3d((i, j, k), x),
            modes.monomial((i, j, k), x), modes.grad_monomial((i, j, k), x),
            modes.diff_monomial((i, j, k), k % 3, x)]


@op(*[(n,) for n in (1, 2, 4, 5)])
def warp(c, n):
    x = c.watch(("wx", n), lambda: np.linspace(-1, 1, 7))
    return [nodes.warp_factor(n, x), nodes.warp_factor(n, x, scaled=False)]


@op(*[(n,) for n in (1, 2, 3, 4, 6)])
def nodes_1d(c, n):
    return [jg.legendre_gauss_lobatto_nodes(n),
            jg.jacobi_gauss_lobatto_nodes(1, 0, n, force_dim_axis=True)]


del OPS["unused"]


def b_len(b):
    return len(b.functions)


def sorted_c(z):
    z = np.asarray(z).ravel()
    # roots as a set: symmetric functions do not depend on the order found
    return [np.sum(z**k) for k in range(1, 4)]


def arrays_of(q):
    """only what belongs to the rule itself, not the rules it was made from"""
    return [q.nodes, q.weights, getattr(q, "exact_to", None)
            if has_exact(q) else None]


def has_exact(q):
    try:
        q.exact_to
    except AttributeError:
        return False
    return True

# }}}


# {{{ observation and modification

def observe(x, out, mutable, depth=0):
    """flatten *x* into JSON-like values and array copies; collect what can be modified"""
    if depth > 12:
        return
    if isinstance(x, np.ndarray):
        out.append(np.array(x))
        mutable.append(x)
    elif isinstance(x, (bool, int, float, complex, str, type(None))):
        out.append(x)
    elif isinstance(x, np.generic):
        out.append(x.item())
    elif isinstance(x, (list, tuple)):
        out.append(("seq", len(x)))
        for y in x:
            observe(y, out, mutable, depth+1)
        if isinstance(x, list):
            mutable.append(x)
    elif isinstance(x, dict):
        out.append(("dict", len(x)))
        for k in sorted(x, key=str):
            out.append(str(k))
            observe(x[k], out, mutable, depth+1)
        mutable.append(x)
    elif isinstance(x, mp.Quadrature):
        observe(arrays_of(x), out, mutable, depth+1)
        qs = getattr(x, "quadratures", None)
        if qs is not None:
            observe(list(qs), out, mutable, depth+1)
            if isinstance(qs, list):
                mutable.append(qs)
    elif isinstance(x, mp.Basis):
        ids, fs, gs = x.mode_ids, x.functions, x.gradients
        observe(ids, out, mutable, depth+1)
        out.append(("basis", len(fs), len(gs)))
        mutable += [y for y in (fs, gs) if isinstance(y, list)]
    elif isinstance(x, mp.Face):
        out.append(x.face_index)
        observe(list(x.volume_vertex_indices), out, mutable, depth+1)
        observe(mp.unit_vertices_for_shape(x.volume_shape), out, mutable, depth+1)
    elif hasattr(x, "item") and hasattr(x, "dtype"):
        out.append(x.item())
    else:
        out.append(("opaque", type(x).__name__))


def modify(mutable, rng):
    for x in mutable:
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.size:
                k = rng.randrange(3)
                with np.errstate(all="ignore"):
                    if k == 0:
                        x[...] = 7
                    elif k == 1:
                        x *= -3
                    else:
                        x[..., rng.randrange(x.shape[-1]) if x.ndim else ...] = 11
        elif isinstance(x, list):
            if rng.randrange(2):
                x.reverse()
            else:
                x.append("junk")
            if x and rng.randrange(2):
                x.pop(0)
        elif isinstance(x, dict):
            x.clear()


def same(a, b, what):
    need(len(a) == len(b), f"{what}: {len(a)} values, {len(b)} in a pristine process")
    for i, (x, y) in enumerate(zip(a, b, strict=True)):
        w = f"{what}, value {i}"
        if isinstance(y, (np.ndarray, float, complex)) and not isinstance(y, bool):
            if isinstance(y, np.ndarray) and y.dtype == object:
                need(str(x) == str(y), f"{w}: {x!r}, {y!r} in a pristine process")
                continue
            xa, ya = np.asarray(x), np.asarray(y)
            need(xa.shape == ya.shape and xa.dtype == ya.dtype,
                 f"{w}: {xa.dtype} {xa.shape}, {ya.dtype} {ya.shape} in a pristine process")
            if not np.all(np.isfinite(ya.astype(complex))):
                need(np.array_equal(xa, ya, equal_nan=True), f"{w}: {xa!r} against {ya!r}")
                continue
            close(xa, ya, 1e-10, w + " (against a pristine process)")
        else:
            need(x == y, f"{w}: {x!r}, {y!r} in a pristine process")

# }}}


# {{{ processes

def in_child(f):
    """f() in a forked child; returns its (picklable) value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(150)
            os.close(r)
            try:
                res = ("ok", f())
            except Violation as e:
                res = ("violation", str(e))
            except Exception as e:
                res = ("exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}")
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        select.select([r], [], [])
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if not chunks:
        raise Inconclusive("child ended without an answer")
    return pickle.loads(b"".join(chunks))


_MODEL: dict = {}


def call(ctx, name, p):
    f = OPS[name][0]
    p = [float(x) if x in ("inf", "-inf") else x for x in p]
    return f(ctx, *p)


def model(name, p):
    key = (name, str(p))
    if key not in _MODEL:
        def go():
            out = []
            observe(call(Ctx(False), name, p), out, [])
            return out
        kind, val = in_child(go)
        if kind != "ok":
            fail(f"{name}{tuple(p)} fails in a pristine process: {val}")
        _MODEL[key] = val
    return _MODEL[key]


def history(case, expected):
    ctx = Ctx(case["shared"])
    state = np.random.get_state()  # noqa: NPY002
    err = np.geterr()
    for i, (name, p, mut) in enumerate(case["steps"]):
        what = f"step {i}: {name}{tuple(p)}"
        if ctx.shared == "buffers":
            # the same arrays first hold other numbers
            ctx.begin(0.875)
            try:
                call(ctx, name, p)
            except Exception:
                pass
        before = len(ctx.watched)
        ctx.begin()
        try:
            r = call(ctx, name, p)
        except Violation:
            raise
        except Exception as e:
            fail(f"{what} works in a pristine process, but raises {type(e).__name__}: {e}"
                 f"\n{traceback.format_exc()[-1500:]}")
        out, mutable = [], []
        observe(r, out, mutable)
        for key, a, orig in ctx.watched[before:]:
            need(pickle.dumps(a) == orig, f"{what} modified its argument {key}")
        same(out, expected[i], what)
        if mut is not None:
            modify(mutable, random.Random(mut))
            if not OPS[name][2]:
                for key, a, orig in ctx.watched[before:]:
                    need(pickle.dumps(a) == orig,
                         f"{what}: modifying the result changes the argument {key}")
        need(err == np.geterr(), f"{what} changed the floating point error handling")
        new = np.random.get_state()  # noqa: NPY002
        need(state[2] == new[2] and np.array_equal(state[1], new[1]),
             f"{what} used the global random state")
    return None


def run_history(case):
    expected = [model(name, p) for name, p, _ in case["steps"]]
    kind, val = in_child(lambda: history(case, expected))
    if kind == "violation":
        fail(val)
    if kind == "exc":
        raise RuntimeError(val)
    n = len(case["steps"])
    return [f"steps<={n//5*5+5}", f"shared={case['shared']}"]


def _json_params(p):
    return ["inf" if x == np.inf else "-inf" if x == -np.inf else x for x in p]


ALL_STEPS = {name: [_json_params(p) for p in params]
             for name, (_, params, _) in OPS.items()}


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(sorted(ALL_STEPS)), min_size=1, max_size=5,
                          unique=True))
    step = st.sampled_from(names).flatmap(
        lambda nm: st.tuples(st.just(nm), st.sampled_from(ALL_STEPS[nm]),
                             st.one_of(st.integers(0, 100), st.integers(0, 100),
                                       st.none())))
    steps = draw(st.lists(step, min_size=2, max_size=25))
    return {"shared": draw(st.sampled_from([False, True, "buffers"])), "steps": [list(s) for s in steps]}


def nontrivial(case):
    """some call is repeated after something was modified"""
    seen, dirty = set(), False
    for name, _p, mut in case["steps"]:
        if dirty and name in seen:
            return True
        seen.add(name)
        dirty = dirty or mut is not None
    return False


def repeat_cases(tier):
    """every call, modification of its result, the same call again, with fresh and with
    shared arguments; then all other parameters of the operation"""
    for name in sorted(ALL_STEPS):
        ps = ALL_STEPS[name]
        for shared in (False, True, "buffers"):
            for mut in ((1, 4) if tier == "quick" else range(20)):
                steps = []
                for p in ps:
                    steps += [[name, p, mut], [name, p, mut]]
                steps += [[name, p, None] for p in reversed(ps)]
                yield {"shared": shared, "steps": steps}

# }}}


SUBS = [
    Sub("repeat", run_history, cases=repeat_cases,
        rule="every operation of the catalogue", shards=4),
    Sub("histories", run_history, histories(), quick=200, thorough=6000, shards=4,
        nontrivial=nontrivial,
        rule="an operation is called again after some result was modified"),
]
