"""C06: one-dimensional quadrature rules."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.core import Sub
from vlib.util import arr, close, fail, matrix_valued, need


ID = "C06"
SCALE = 2
ASSUMPTIONS = [
    "alpha + beta is at least 1e-3 away from -1 for the builtin backend, except for"
    " alpha = beta = -1/2 (the constructor documents this restriction)",
    "orders N <= 100",
]


def axis_nodes(q, n, axis, what):
    x = arr(q.nodes, (1, n) if axis else (n,), f"{what} nodes")
    w = arr(q.weights, (n,), f"{what} weights")
    need(q.dim == 1, f"{what}: dim {q.dim}")
    return x.ravel().astype(float), w.astype(float)


def moments(al, be, x, w, deg, what, tol=1e-9):
    """Exactness for all polynomials up to *deg* under the Jacobi weight."""
    mass = ref.jacobi_norm(al, be, 0)**2
    ps = ref.hom_jacobi_upto(al, be, deg, x, np.ones_like(x))
    for k in range(deg + 1):
        p = ps[k] / ref.jacobi_norm(al, be, k)
        s = float(w @ p)
        e = mass**0.5 if k == 0 else 0.0
        # weights are only as accurate as rounding relative to the total mass allows
        if not abs(s - e) <= tol * mass**0.5 + 1e-13 * mass * float(np.max(np.abs(p))):
            fail(f"{what}: degree {k} polynomial integrates to {s!r}, expected {e!r}"
                 f" (exact to {deg})")


def distinct(x, what):
    xs = np.sort(x)
    if len(xs) > 1:
        need(np.min(np.diff(xs)) > 1e-9, f"{what}: nodes are not distinct: {xs}")


def make(case, kind=None, axis=None, backend=0):
    import modepy as mp
    from modepy.quadrature.clenshaw_curtis import (
        ClenshawCurtisQuadrature,
        FejerQuadrature,
    )
    k = kind or case["kind"]
    n = case["N"]
    axis = case["axis"] if axis is None else axis
    kw = {"force_dim_axis": axis}
    if k not in ("cc", "fejer1", "fejer2"):
        kw["backend"] = case["backend"] if backend == 0 else backend
    return {
        "jacobi": lambda: mp.JacobiGaussQuadrature(case["al"], case["be"], n, **kw),
        "gegenbauer": lambda: mp.GaussGegenbauerQuadrature(case["al"], n, **kw),
        "legendre": lambda: mp.LegendreGaussQuadrature(n, **kw),
        "cheb1": lambda: mp.ChebyshevGaussQuadrature(n, kind=1, **kw),
        "cheb2": lambda: mp.ChebyshevGaussQuadrature(n, kind=2, **kw),
        "jlobatto": lambda: mp.JacobiGaussLobattoQuadrature(
            case["al"], case["be"], n, **kw),
        "llobatto": lambda: mp.LegendreGaussLobattoQuadrature(n, **kw),
        "cc": lambda: ClenshawCurtisQuadrature(n, **kw),
        "fejer1": lambda: FejerQuadrature(n, kind=1, **kw),
        "fejer2": lambda: FejerQuadrature(n, kind=2, **kw),
    }[k]()


def params(case):
    k = case["kind"]
    if k == "gegenbauer":
        return case["al"], case["al"]
    return {"legendre": (0., 0.), "cheb1": (-.5, -.5), "cheb2": (.5, .5),
            "llobatto": (0., 0.)}.get(k) or (case["al"], case["be"])


def run_gauss(case):
    q = make(case)
    n = case["N"]
    al, be = params(case)
    x, w = axis_nodes(q, n + 1, case["axis"], case["kind"])
    need(np.all(np.abs(x) < 1), f"nodes outside of (-1, 1): {x}")
    distinct(x, case["kind"])
    need(np.all(w > 0), f"weights not positive: {w}")
    need(q.exact_to >= 2*n + 1, f"exact_to {q.exact_to} < {2*n + 1}")
    moments(al, be, x, w, q.exact_to, case["kind"])
    need(q.alpha == al and q.beta == be, "alpha/beta attributes")
    # the back ends are interchangeable
    q2 = make(case, axis=False, backend="scipy")
    x2, w2 = axis_nodes(q2, n + 1, False, "scipy backend")
    i, j = np.argsort(x), np.argsort(x2)
    close(x[i], x2[j], 1e-9, "nodes of the two back ends", scale=1.0)
    close(w[i], w2[j], 1e-9, "weights of the two back ends", scale=float(np.sum(w2)))


def run_lobatto(case):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes,
        legendre_gauss_lobatto_nodes,
    )
    q = make(case)
    n = case["N"]
    al, be = params(case)
    x, w = axis_nodes(q, n + 1, case["axis"], case["kind"])
    distinct(x, case["kind"])
    need(abs(np.min(x) + 1) < 1e-14 and abs(np.max(x) - 1) < 1e-14, f"end points missing: {x}")
    mass = ref.jacobi_norm(al, be, 0)**2
    need(np.all(w > -1e-12*mass), f"weights not positive: {w}")
    need(q.exact_to >= 2*n - 1, f"exact_to {q.exact_to} < {2*n - 1}")
    moments(al, be, x, w, q.exact_to, case["kind"])
    for be_ in ("builtin", "scipy", None):
        nd = jacobi_gauss_lobatto_nodes(al, be, n, backend=be_,
                                        force_dim_axis=case["axis"])
        nd = arr(nd, (1, n + 1) if case["axis"] else (n + 1,), "lobatto nodes")
        close(np.sort(nd.ravel()), np.sort(x), 1e-9, "lobatto nodes", scale=1.0)
        if al == be == 0:
            nd = legendre_gauss_lobatto_nodes(n, backend=be_,
                                              force_dim_axis=case["axis"])
            nd = arr(nd, (1, n + 1) if case["axis"] else (n + 1,), "lobatto nodes")
            close(np.sort(nd.ravel()), np.sort(x), 1e-9, "lobatto nodes", scale=1.0)
    q2 = mp.JacobiGaussLobattoQuadrature(al, be, n, backend="scipy")
    x2, w2 = axis_nodes(q2, n + 1, False, "scipy backend")
    i, j = np.argsort(x), np.argsort(x2)
    close(w[i], w2[j], 1e-9, "weights of the two back ends", scale=mass)


def run_chebyshev_type(case):
    """Clenshaw-Curtis and Fejer."""
    k, n = case["kind"], case["N"]
    q = make(case)
    npts = {"cc": n + 1, "fejer1": n, "fejer2": n - 1}[k]
    x, w = axis_nodes(q, npts, case["axis"], k)
    distinct(x, k)
    need(np.all(w > 0), f"weights not positive: {w}")
    i = np.argsort(x)
    close(x[i], -x[i][::-1], 1e-13, "nodes are symmetric", scale=1.0)
    close(w[i], w[i][::-1], 1e-12, "weights are symmetric", scale=1.0)
    if k == "cc":
        need(abs(np.min(x) + 1) < 1e-14 and abs(np.max(x) - 1) < 1e-14, f"end points missing: {x}")
        need(q.exact_to >= n, f"exact_to {q.exact_to}")
        moments(0., 0., x, w, max(q.exact_to, npts - 1 + npts % 2), k)
        ref_x = np.cos(np.arange(n + 1)*np.pi/n)
    else:
        need(q.kind == int(k[-1]), "kind")
        need(np.all(np.abs(x) < 1), f"nodes outside of (-1, 1): {x}")
        if hasattr(q, "exact_to"):
            moments(0., 0., x, w, q.exact_to, k)
        moments(0., 0., x, w, npts - 1 + npts % 2, k)
        ref_x = (np.cos((np.arange(n) + 0.5)*np.pi/n) if k == "fejer1" else
                 np.cos(np.arange(1, n)*np.pi/n))
    close(x[i], np.sort(ref_x), 1e-12, f"{k} nodes", scale=1.0)
    if k != "fejer1":
        # nested
        big = make({**case, "N": 2*n})
        xb = np.sort(np.asarray(big.nodes, dtype=float).ravel())
        for xi in x:
            need(np.min(np.abs(xb - xi)) < 1e-12, f"{k}: rules are not nested")


def run_axis(case):
    """force_dim_axis changes the node shape and nothing else; calling a rule is
    the weighted sum, also for array-valued integrands."""
    a, b = make(case, axis=True), make(case, axis=False)
    xa, xb = arr(a.nodes, what="nodes"), arr(b.nodes, what="nodes")
    need(xa.shape == (1, xb.size) and xb.shape == (xb.size,),
         f"node shapes {xa.shape} {xb.shape}")
    close(xa[0], xb, 1e-14, "nodes", scale=1.0)
    close(a.weights, np.asarray(b.weights), 1e-14, "weights")
    c = np.array(case["c"], dtype=float)

    def poly(x):
        return sum(ck * x**i for i, ck in enumerate(c))
    e = float(np.asarray(b.weights, float) @ poly(xb))
    sc = 1 + float(np.sum(np.abs(b.weights)) * np.sum(np.abs(c)))
    close(b(poly), e, 1e-13, "quad(f)", shape=(), scale=sc)
    close(a(lambda x: poly(x[0])), e, 1e-13, "quad(f), dim axis", shape=(), scale=sc)
    close(a(lambda x: np.array([poly(x[0]), 2*poly(x[0])])), np.array([e, 2*e]),
          1e-13, "quad of a vector-valued function", scale=sc)
    close(a(lambda x: (1 + 2j)*poly(x[0])), (1 + 2j)*e, 1e-13, "quad of a complex"
          " function", shape=(), scale=3*sc)
    matrix_valued(b, poly, e, 1e-13, "quad of matrices", sc)
    matrix_valued(a, lambda x: poly(x[0]), e, 1e-13, "quad of matrices, dim axis", sc)


alphas = st.one_of(st.sampled_from([-0.5, 0., 0.5, 1., 2., -0.25, 1.5, 3., -0.9, 7.]),
                   st.floats(-0.95, 8.0, allow_subnormal=False))
orders = st.one_of(*[st.integers(0, 40)]*5, st.integers(41, 100))
backends = st.sampled_from(["builtin", None, "scipy"])


@st.composite
def _gauss(draw):
    kind = draw(st.sampled_from(["jacobi"]*6 + ["gegenbauer"]*2
                                + ["legendre", "cheb1", "cheb2"]))
    c = {"kind": kind, "N": draw(orders), "backend": draw(backends),
         "axis": draw(st.booleans()), "al": 0., "be": 0.}
    if kind == "jacobi" and draw(st.integers(0, 7)) == 0:
        # alpha + beta close to -1, 0 or 1
        c["al"] = draw(st.integers(-14, 8)) / 16
        c["be"] = (draw(st.sampled_from([-1., 0., 1.])) - c["al"]
                   + draw(st.sampled_from([1, -1, 0])) * 2.0**-draw(st.integers(2, 9)))
        if not -0.95 <= c["be"] <= 8 or (c["backend"] != "scipy"
                                         and abs(c["al"] + c["be"] + 1) < 1e-3):
            c["be"] = c["al"] + 0.25
    elif kind in ("jacobi", "gegenbauer"):
        c["al"] = draw(alphas)
        c["be"] = draw(alphas) if kind == "jacobi" else c["al"]
        if c["backend"] != "scipy" and abs(c["al"] + c["be"] + 1) < 1e-3:
            if kind == "jacobi" and draw(st.booleans()):
                c["be"] += 0.25
            else:
                c["al"] = c["be"] = -0.5
    return c


@st.composite
def _lob(draw):
    kind = draw(st.sampled_from(["jlobatto"]*3 + ["llobatto"]))
    c = {"kind": kind, "N": max(1, draw(orders)), "backend": draw(backends),
         "axis": draw(st.booleans()), "al": 0., "be": 0.}
    if kind == "jlobatto":
        c["al"], c["be"] = draw(alphas), draw(alphas)
    return c


def _cheb(tier):
    for k, lo in (("cc", 1), ("fejer1", 1), ("fejer2", 2)):
        for n in range(lo, 80 if tier == "quick" else 300):
            yield {"kind": k, "N": n, "axis": n % 3 == 0}


@st.composite
def _axis(draw):
    c = draw(st.one_of(_gauss(), _lob(), st.builds(
        lambda k, n: {"kind": k, "N": n}, st.sampled_from(["cc", "fejer1", "fejer2"]),
        st.integers(2, 20))))
    c["N"] = min(c["N"], 12)
    c["axis"] = True
    c["c"] = draw(st.lists(st.floats(-2, 2, width=32, allow_subnormal=False),
                           min_size=1, max_size=5))
    return c


def _small(tier):
    """All small orders of the named rules."""
    for axis in (False, True):
        for backend in ("builtin", "scipy"):
            for n in range(0, 45):
                for k, al in (("legendre", 0.), ("cheb1", -.5), ("cheb2", .5),
                              ("gegenbauer", 1.)):
                    yield {"kind": k, "N": n, "backend": backend, "axis": axis,
                           "al": al, "be": al}


def _small_lob(tier):
    for axis in (False, True):
        for backend in ("builtin", "scipy"):
            for n in range(1, 45):
                for al, be in ((0., 0.), (1., 0.), (0.5, -0.5)):
                    yield {"kind": "jlobatto" if al or be else "llobatto", "N": n,
                           "backend": backend, "axis": axis, "al": al, "be": be}


def _big(tier):
    for n in (101, 128, 150, 201, 256, 300, 400, 513) + (() if tier == "quick" else (777, 1024)):
        for backend in ("builtin", "scipy"):
            for k, al, be in (("legendre", 0., 0.), ("cheb1", -.5, -.5), ("cheb2", .5, .5),
                              ("gegenbauer", 1., 1.), ("jacobi", .5, 2.),
                              ("jacobi", -.25, 0.), ("llobatto", 0., 0.),
                              ("jlobatto", 1., .5)):
                yield {"kind": k, "N": n, "backend": backend, "axis": n % 2 == 0,
                       "al": al, "be": be}
        for k in ("cc", "fejer1", "fejer2"):
            yield {"kind": k, "N": n, "axis": n % 2 == 0}


def run_big(case):
    if case["kind"] in ("cc", "fejer1", "fejer2"):
        run_chebyshev_type(case)
    elif "lobatto" in case["kind"]:
        run_lobatto(case)
    else:
        run_gauss(case)


def run_lob0(case):
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes,
        legendre_gauss_lobatto_nodes,
    )
    sh = (1, 1) if case["axis"] else (1,)
    close(jacobi_gauss_lobatto_nodes(case["al"], case["be"], 0,
                                     force_dim_axis=case["axis"]),
          np.zeros(sh), 1e-15, "N=0 nodes")
    close(legendre_gauss_lobatto_nodes(0, force_dim_axis=case["axis"]),
          np.zeros(sh), 1e-15, "N=0 nodes")


def cl(c):
    return [c["kind"], f"backend {c.get('backend')}"]


SUBS = [
    Sub("gauss", run_gauss, _gauss(), quick=1200, shards=2, classify=cl,
        nontrivial=lambda c: c["N"] >= 1, rule="N >= 1"),
    Sub("gauss_named", run_gauss, cases=_small, classify=cl, rule="every case",
        shards=2),
    Sub("high_order", run_big, cases=_big, classify=cl, rule="every case", shards=4),
    Sub("lobatto", run_lobatto, _lob(), quick=800, shards=2, classify=cl,
        nontrivial=lambda c: c["N"] >= 2, rule="N >= 2 (interior nodes)"),
    Sub("lobatto_small", run_lobatto, cases=_small_lob, rule="every case"),
    Sub("lobatto_zero", run_lob0, cases=lambda tier: [
        {"al": a, "be": b, "axis": ax} for a in (0., 1.) for b in (0., .5)
        for ax in (False, True)], rule="every case"),
    Sub("clenshaw_fejer", run_chebyshev_type, cases=_cheb, classify=cl,
        rule="every case; all orders up to 79 (thorough: 299)"),
    Sub("dim_axis_and_call", run_axis, _axis(), quick=800, classify=cl,
        nontrivial=lambda c: any(c["c"]), rule="nonzero integrand"),
]
