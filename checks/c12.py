"""C12: 1-D rules transformed to intervals or by conformal maps."""
from __future__ import annotations

from functools import lru_cache, partial

import numpy as np
from hypothesis import strategies as st

from vlib import layouts
from vlib.core import Sub
from vlib.util import arr, close, need, quiet, raises


ID = "C12"
SCALE = 4
ASSUMPTIONS = [
    "strip map: rho >= 1.02 (closer to 1 the reference itself is too expensive);"
    " reference values from Jacobi theta functions with 160 digits (mpmath)",
    "map accuracy is checked at 1e-11 relative, jacobians at 1e-8",
]

RULES = ["LG", "JG", "LGL", "CC", "F1", "F2", "CG1", "T"]


def build_rule(spec, dim_axis):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    k, n = spec
    kw = {"force_dim_axis": True} if dim_axis else {}
    if k == "LG":
        return mp.LegendreGaussQuadrature(n, **kw)
    if k == "JG":
        return mp.JacobiGaussQuadrature(0.5, -0.25, n, **kw)
    if k == "LGL":
        return mp.LegendreGaussLobattoQuadrature(max(n, 1), **kw)
    if k == "CC":
        return mp.ClenshawCurtisQuadrature(max(n, 2), **kw)
    if k == "F1":
        return mp.FejerQuadrature(max(n, 2), kind=1, **kw)
    if k == "F2":
        return mp.FejerQuadrature(max(n, 2), kind=2, **kw)
    if k == "CG1":
        return mp.ChebyshevGaussQuadrature(n, kind=1, **kw)
    if k == "any":
        # user supplied, with nodes beyond the ends
        rng = np.random.default_rng(n)
        x = rng.uniform(-2, 2, size=n + 1)
        w = rng.uniform(-1, 2, size=n + 1)
        return mp.Quadrature(x.reshape(1, -1) if dim_axis else x, w,
                             exact_to=[None, 0, 5][n % 3])
    # an already transformed rule
    q = Transformed1DQuadrature(mp.LegendreGaussQuadrature(n, **kw), -0.75, 0.5)
    return q


@st.composite
def rule_st(draw, kinds=RULES):
    return [draw(st.sampled_from(kinds)), draw(st.integers(0, 24))]


# {{{ affine

@st.composite
def affine_cases(draw):
    left = draw(st.floats(-50, 50, allow_subnormal=False))
    length = draw(st.one_of(st.floats(2.0**-20, 100),
                            st.sampled_from([1e-9, 1e-3, 1.0, 2.0, 1e6])))
    c = draw(st.lists(st.floats(-1, 1, width=32, allow_subnormal=False), min_size=1, max_size=10))
    ints = draw(st.booleans())
    return {"rule": draw(rule_st([*RULES, "any"])), "axis": draw(st.booleans()), "ints": ints,
            "ends": draw(st.sampled_from(["both", "both", "left", "right"])),
            "left": float(round(left)) if ints else left,
            "length": float(max(1, round(length))) if ints else length, "c": c}


def run_affine(case):
    from modepy.quadrature import Transformed1DQuadrature
    q0 = build_rule(case["rule"], case["axis"])
    left, right = case["left"], case["left"] + case["length"]
    if right <= left:
        return
    if case["ints"]:
        left = int(left) if case["ends"] != "right" else left
        right = int(right) if case["ends"] != "left" else right
    x0, w0 = np.array(q0.nodes, copy=True), np.array(q0.weights, copy=True)
    q = Transformed1DQuadrature(q0, left, right)
    h = right - left
    mag = max(abs(left), abs(right))
    close(q.nodes, left*(1 - x0)/2 + right*(1 + x0)/2, 4e-15, "mapped nodes",
          shape=x0.shape, scale=mag + h)
    close(q.weights, w0*h/2, 1e-14, "mapped weights", shape=w0.shape,
          scale=float(np.max(np.abs(w0)))*h)
    need(q.left == left and q.right == right, "left/right attributes")
    need(np.array_equal(q0.nodes, x0) and np.array_equal(q0.weights, w0),
         "base rule modified")
    need(q.dim == 1 and q.dim == q0.dim, f"dim is {q.dim}")
    # exactness is that of the base rule
    try:
        e0 = q0.exact_to
    except AttributeError:
        e0 = None
    if e0 is None:
        raises(AttributeError, lambda: q.exact_to, "exact_to of a rule without exactness")
    else:
        need(q.exact_to == e0, f"exact_to {q.exact_to}, base rule has {e0}")
        # integrate a polynomial in the scaled variable, against int w.r.t. weight
        if case["rule"][0] in ("LG", "LGL", "CC", "F1", "F2"):
            c = np.array(case["c"])[:e0 + 1]
            m, s = (left + right)/2, h/2

            def f(x):
                x = x.reshape(-1) if x.ndim == 2 else x
                return np.polynomial.legendre.legval((x - m)/s, c)
            val = quiet(q, f)
            # rounding of x is amplified by 1/s
            amp = 1 + mag/s * 1e-3
            close(val, c[0]*h, 3e-13*amp*len(c)**2, "integral over the interval",
                  shape=(), scale=h)


# }}}


# {{{ conformal maps

def ref_sausage(s, degree):
    import mpmath as mp
    with mp.workdps(50):
        s = mp.mpf(s)
        c = [mp.binomial(2*k, k)/mp.mpf(4)**k/(2*k + 1) for k in range((degree + 1)//2)]
        tot = sum(c)
        g = sum(ck*s**(2*k + 1) for k, ck in enumerate(c))/tot
        gp = sum(ck*(2*k + 1)*s**(2*k) for k, ck in enumerate(c))/tot
        return float(g), float(gp)


def ref_kte(s, rho, alpha):
    import mpmath as mp
    with mp.workdps(50):
        if alpha is None:
            r = mp.mpf(rho)
            alpha = 2/(r + 1/r)
        al, s = mp.mpf(alpha), mp.mpf(s)
        return (float(mp.asin(al*s)/mp.asin(al)),
                float(al/mp.asin(al)/mp.sqrt(1 - (al*s)**2)))


@lru_cache(maxsize=64)
def _strip_norm(rho):
    import mpmath as mp
    with mp.workdps(160):
        q = mp.mpf(rho)**-4
        return q, mp.atanh(mp.jtheta(2, 0, q)/mp.jtheta(3, 0, q))


def ref_strip(s, rho):
    import mpmath as mp
    with mp.workdps(160):
        q, nrm = _strip_norm(rho)
        s = mp.mpf(s)
        z = mp.asin(s)
        t1, t4 = mp.jtheta(1, z, q), mp.jtheta(4, z, q)
        d1, d4 = mp.jtheta(1, z, q, 1), mp.jtheta(4, z, q, 1)
        r = t1/t4
        rp = (d1*t4 - t1*d4)/t4**2
        return float(mp.atanh(r)/nrm), float(rp/(1 - r*r)/nrm/mp.sqrt(1 - s*s))


def the_map(spec):
    """(library map, scalar reference, condition of jacobian at s)"""
    from modepy.quadrature import transplanted as tr
    k = spec["kind"]
    if k == "identity":
        return tr.map_identity, lambda s: (s, 1.0)
    if k == "sausage":
        d = spec["degree"]
        return partial(tr.map_sausage, degree=d), lambda s: ref_sausage(s, d)
    if k == "kte":
        kw = {}
        if spec["rho"] is not None:
            kw["rho"] = spec["rho"]
        if spec["alpha"] is not None:
            kw["alpha"] = spec["alpha"]
        rho = spec["rho"] if spec["rho"] is not None else 1.4
        return (partial(tr.map_kosloff_tal_ezer, **kw),
                lambda s: ref_kte(s, rho, spec["alpha"]))
    kw = {} if spec["rho"] is None else {"rho": spec["rho"]}
    rho = spec["rho"] if spec["rho"] is not None else 1.4
    return partial(tr.map_strip, **kw), lambda s: ref_strip(s, rho)


@st.composite
def map_st(draw):
    k = draw(st.sampled_from(["identity", "sausage", "kte", "strip"]))
    rhos = st.one_of(st.none(), st.floats(1.02, 4), st.sampled_from([1.05, 1.1, 10., 1e3]))
    if k == "sausage":
        return {"kind": k, "degree": 2*draw(st.integers(0, 40)) + 1}
    if k == "kte":
        return {"kind": k, "rho": draw(rhos),
                "alpha": draw(st.one_of(st.none(), st.floats(1e-3, 0.999),
                                        st.sampled_from([0.9999, 0.999999])))}
    if k == "strip":
        return {"kind": k, "rho": draw(rhos)}
    return {"kind": k}


@st.composite
def map_cases(draw):
    m = draw(map_st())
    s = draw(st.lists(st.one_of(
        st.floats(-1, 1, allow_subnormal=False),
        st.sampled_from([-1., 1., 0., .5, -.5, 1 - 1e-6, -1 + 1e-9, 1e-8])),
        min_size=1, max_size=5))
    return {"map": m, "s": s, "shape2": draw(st.booleans())}


def run_map(case):
    fn, ref = the_map(case["map"])
    s = np.array(case["s"])
    if case["map"]["kind"] == "strip":
        if np.any(np.abs(s) == 1):
            raises(ValueError, lambda: fn(s), "strip map at an end point")
            s = s[np.abs(s) < 1]
            if not s.size:
                return
    if case["shape2"]:
        s = np.stack([s, -s])
    s0 = s.copy()
    g, gp = quiet(fn, s)
    need(np.array_equal(s, s0), "map modified its argument")
    need(g is not s and not np.shares_memory(g, s), "map returned its argument")
    r = np.array([ref(float(v)) for v in s.ravel()])
    close(g, r[:, 0].reshape(s.shape), 1e-11, "mapped points", shape=s.shape, scale=1.0)
    d = np.abs(arr(gp, s.shape, "jacobian") - r[:, 1].reshape(s.shape))
    need(np.all(d <= 1e-8*(1 + np.abs(r[:, 1].reshape(s.shape)))),
         f"jacobian: got {gp}, expected {r[:, 1].reshape(s.shape)} at {s}")
    # structure: odd, end points fixed, increasing
    o = np.argsort(s.ravel())
    need(np.all(np.diff(g.ravel()[o]) >= -1e-14), "map not increasing")
    need(np.all(np.abs(g) <= 1 + 1e-13), "mapped points leave the interval")
    need(np.all(gp >= 0), "negative jacobian")
    one = np.abs(s) == 1
    close(g[one], s[one], 1e-13, "end points are fixed", scale=1.0)
    g2, gp2 = quiet(fn, -s)
    close(g2, -g, 1e-13, "map is odd", scale=1.0)
    close(gp2, gp, 1e-12, "jacobian is even", scale=float(np.max(np.abs(gp))))


@st.composite
def tq_cases(draw):
    m = draw(map_st())
    kinds = ["LG", "JG", "F1", "F2", "CG1", "T"] if m["kind"] == "strip" else RULES
    return {"map": m, "rule": draw(rule_st(kinds)), "axis": draw(st.booleans()),
            "direct": draw(st.booleans())}


def run_tq(case):
    from modepy.quadrature.transplanted import (
        transplanted_1d_quadrature, transplanted_legendre_gauss_quadrature)
    fn, ref = the_map(case["map"])
    kind, n = case["rule"]
    if kind == "F2" and case["map"]["kind"] == "strip":
        kind = "F1"
    q0 = build_rule([kind, n], case["axis"])
    if case["map"]["kind"] == "strip" and np.any(np.abs(q0.nodes) >= 1):
        raises(ValueError, lambda: transplanted_1d_quadrature(q0, fn),
               "strip map of a rule with end points")
        return
    x0, w0 = np.array(q0.nodes, copy=True), np.array(q0.weights, copy=True)
    if kind == "LG" and case["direct"]:
        q = quiet(transplanted_legendre_gauss_quadrature, n, fn,
                  force_dim_axis=case["axis"])
    else:
        q = quiet(transplanted_1d_quadrature, q0, fn)
    s = x0.reshape(-1)
    r = np.array([ref(float(v)) for v in s])
    close(q.nodes, r[:, 0].reshape(x0.shape), 1e-11, "transplanted nodes",
          shape=x0.shape, scale=1.0)
    w = w0*r[:, 1]
    close(q.weights, w, 1e-8, "transplanted weights", shape=w0.shape,
          scale=float(np.max(np.abs(w))) + 1e-300)
    need(np.array_equal(q0.nodes, x0) and np.array_equal(q0.weights, w0),
         "base rule modified")
    # change of variables keeps the integral of g' * f(g)
    f = np.polynomial.polynomial.polyval
    c = [0.3, -1.0, 0.7, 0.2]
    close(np.sum(q.weights*f(np.asarray(q.nodes).reshape(-1), c)),
          np.sum(w*f(r[:, 0], c)), 1e-8, "quadrature sum", shape=(),
          scale=float(np.sum(np.abs(w))))
    try:
        e0 = q0.exact_to
    except AttributeError:
        e0 = None
    try:
        e = q.exact_to
    except AttributeError:
        e = None
    if case["map"]["kind"] == "identity":
        need(e == e0, f"identity map: exact_to is {e}, base rule has {e0}")
    elif e is not None and not (case["map"]["kind"] == "sausage"
                                and case["map"]["degree"] == 1):
        # a nonlinear map loses polynomial exactness: any claim must hold
        x = np.asarray(q.nodes).reshape(-1)
        for k in range(e + 1):
            ex = 2/(k + 1) if k % 2 == 0 else 0
            need(abs(np.sum(q.weights*x**k) - ex) < 1e-12,
                 f"claims exactness to {e} but is wrong for x**{k}")


@st.composite
def conv_cases(draw):
    m = draw(st.sampled_from([
        {"kind": "identity"}, {"kind": "sausage", "degree": 1},
        {"kind": "sausage", "degree": 5}, {"kind": "sausage", "degree": 9},
        {"kind": "kte", "rho": 1.4, "alpha": None},
        {"kind": "kte", "rho": None, "alpha": 0.5},
        {"kind": "strip", "rho": 1.4}, {"kind": "strip", "rho": 1.1},
        {"kind": "strip", "rho": 2.5}]))
    return {"map": m, "c": draw(st.lists(st.floats(-1, 1, width=32, allow_subnormal=False),
                                         min_size=1, max_size=8)),
            "n": draw(st.integers(160, 200))}


def run_conv(case):
    """With many nodes, transplanted rules integrate polynomials exactly."""
    from modepy.quadrature.transplanted import transplanted_legendre_gauss_quadrature
    fn, _ = the_map(case["map"])
    q = quiet(transplanted_legendre_gauss_quadrature, case["n"], fn)
    x, w = arr(q.nodes, (case["n"] + 1,)), arr(q.weights, (case["n"] + 1,))
    need(np.all(np.diff(x) > 0) and x[0] > -1 and x[-1] < 1, "nodes not in the interval")
    need(np.all(w > 0), "weights not positive")
    c = case["c"]
    val = np.sum(w*np.polynomial.legendre.legval(x, c))
    close(val, 2*c[0], 1e-11, "integral of a polynomial", shape=(), scale=1.0)

# }}}


# {{{ rejections

def rej_cases(tier):
    for d in (-3, -1, 0, 2, 4, 10):
        yield {"what": "sausage", "v": d}
    for rho in (1.0, 0.5, 0.0, -2.0):
        yield {"what": "kte-rho", "v": rho}
        yield {"what": "strip-rho", "v": rho}
    for al in (0.0, 1.0, -0.5, 1.5, "nan", "inf", "-inf"):
        yield {"what": "kte-alpha", "v": al}
    for s in (1.0, -1.0, 1.5):
        yield {"what": "strip-s", "v": s}
    for a, b in ((0, 0), (1, 0), (2.0, 2.0), (1.0, -1.0), (0.0, -1e-12)):
        yield {"what": "interval", "v": [a, b]}
    for v in ("S2", "S3", "H2"):
        yield {"what": "dim", "v": v}


def run_rej(case):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    from modepy.quadrature import transplanted as tr
    v = float(case["v"]) if case["v"] in ("nan", "inf", "-inf") else case["v"]
    s = np.array([0.1, -0.5])
    q = mp.LegendreGaussQuadrature(3)
    w = case["what"]
    if w == "sausage":
        f = lambda: tr.map_sausage(s, v)  # noqa: E731
    elif w == "kte-rho":
        f = lambda: tr.map_kosloff_tal_ezer(s, rho=v)  # noqa: E731
    elif w == "kte-alpha":
        f = lambda: tr.map_kosloff_tal_ezer(s, alpha=v)  # noqa: E731
    elif w == "strip-rho":
        f = lambda: tr.map_strip(s, rho=v)  # noqa: E731
    elif w == "strip-s":
        f = lambda: tr.map_strip(np.array([0.0, v]))  # noqa: E731
    elif w == "interval":
        f = lambda: Transformed1DQuadrature(q, *v)  # noqa: E731
    else:
        q2 = {"S2": lambda: mp.XiaoGimbutasSimplexQuadrature(3, 2),
              "S3": lambda: mp.XiaoGimbutasSimplexQuadrature(3, 3),
              "H2": lambda: mp.LegendreGaussTensorProductQuadrature(3, 2)}[v]()
        f = lambda: tr.transplanted_1d_quadrature(q2, tr.map_identity)  # noqa: E731
    raises(ValueError, f, f"{w}={v}")

# }}}


@st.composite
def lay_cases(draw):
    how = draw(layouts.how(integral=False) | st.sampled_from(["float32", "int64", "int32"]))
    return {"map": draw(map_st()), "how": how,
            "many": draw(layouts.sizes),
            "s": draw(st.lists(st.integers(-15, 15), min_size=1, max_size=6)),
            "rank": draw(st.integers(1, 3))}


def run_lay(case):
    """Abscissae of any type and layout, and scalars."""
    fn, _ = the_map(case["map"])
    s = np.array(case["s"])/16.0
    how = case["how"]
    if how.startswith("int"):
        s = np.sign(np.array(case["s"], dtype=float))
        if case["map"]["kind"] == "strip":
            s = 0*s
    s = s.reshape((1,)*(case["rank"] - 1) + s.shape)
    # single precision: the maps are as ill-conditioned as their derivative is large
    _, gp = quiet(fn, s)
    k = 1 + float(np.max(np.abs(gp)))
    if how == "float32":
        if k < 5:
            layouts.same(lambda v: quiet(fn, v)[0], [s], how, "mapped points")
    else:
        layouts.same(lambda v: quiet(fn, v), [s], how, "map", 1e-11)
    layouts.batch(lambda v: quiet(fn, v), s, case["many"], "map", tol=1e-11)
    g = quiet(fn, s)
    for j in np.ndindex(*s.shape):
        r = quiet(fn, s[j])
        close(r[0], g[0][j], 1e-12, "map of one abscissa", shape=())
        close(r[1], g[1][j], 1e-11, "jacobian at one abscissa", shape=())


SUBS = [
    Sub("layouts", run_lay, lay_cases(), quick=300, classify=lambda c: [layouts.label(c["how"])],
        rule="every case"),
    Sub("affine", run_affine, affine_cases(), quick=600, shards=2,
        rule="any 1-D rule mapped to a random interval",
        classify=lambda c: [c["rule"][0]]),
    Sub("map", run_map, map_cases(), quick=300, shards=3,
        nontrivial=lambda c: c["map"]["kind"] != "identity",
        rule="a map other than the identity",
        classify=lambda c: [c["map"]["kind"]]),
    Sub("transplanted", run_tq, tq_cases(), quick=250, shards=3,
        nontrivial=lambda c: c["rule"][1] > 0, rule="more than one node",
        classify=lambda c: [c["map"]["kind"]]),
    Sub("convergence", run_conv, conv_cases(), quick=60,
        nontrivial=lambda c: len(c["c"]) > 1, rule="non-constant polynomial"),
    Sub("reject", run_rej, cases=rej_cases, rule="every listed invalid argument"),
]
