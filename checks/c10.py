"""C10: Gauss-Kronrod rules."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st
from scipy.special import roots_legendre

from vlib import ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need, raises


ID = "C10"
SCALE = 3
ASSUMPTIONS = ["orders up to 100, and some up to 256 (thorough: 300)"]


def legendre(k, x):
    return ref.hom_jacobi(0., 0., k, x, np.ones_like(x)) * np.sqrt((2*k + 1)/2)


def exactness(x, w, deg, what):
    ps = ref.hom_jacobi_upto(0., 0., deg, x, np.ones_like(x))
    for k in range(deg + 1):
        s = float(w @ ps[k]) * np.sqrt((2*k + 1)/2)
        e = 2**0.5 if k == 0 else 0.0
        if abs(s - e) > 1e-11:
            fail(f"{what}: orthonormal Legendre polynomial {k} integrates to {s!r},"
                 f" expected {e!r}")


def run_rule(case):
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    n = case["n"]
    gx, gw = roots_legendre(n)
    # full rule
    q = make_kronrod_quadrature(n)
    g = q.gauss_quadrature
    xg, wg = arr(g.nodes, (n,), "Gauss nodes"), arr(g.weights, (n,), "Gauss weights")
    i = np.argsort(xg)
    close(xg[i], gx, 1e-11, "embedded Gauss nodes", scale=1.0)
    close(wg[i], gw, 1e-11, "embedded Gauss weights", scale=1.0)
    need(g.exact_to >= 2*n - 1, f"Gauss exact_to {g.exact_to}")
    exactness(xg, wg, g.exact_to, f"Gauss rule of Kronrod({n})")
    xk = arr(q.nodes, (n + 1,), "Kronrod nodes")
    wk = arr(q.weights, (n + 1,), "Kronrod weights")
    wkg = arr(q.weights_at_gauss_nodes, (n,), "Kronrod weights at Gauss nodes")
    need(q.exact_to >= 3*n + 1, f"Kronrod exact_to {q.exact_to}")
    need(q.dim == 1 and g.dim == 1, "dim")
    x, w = np.concatenate([xk, xg]), np.concatenate([wk, wkg])
    need(np.all(w > 0), f"Kronrod weights not positive: {w}")
    need(np.all(np.abs(x) < 1), "nodes outside of (-1, 1)")
    i = np.argsort(x)
    need(np.min(np.diff(x[i])) > 1e-6, "nodes are not distinct")
    close(x[i], -x[i][::-1], 1e-12, "nodes not symmetric", scale=1.0)
    close(w[i], w[i][::-1], 1e-11, "weights not symmetric", scale=1.0)
    # interlacing
    k = np.sort(xk)
    need(np.all(k[:-1] < gx + 1e-12) and np.all(gx < k[1:] + 1e-12),
         "Kronrod and Gauss nodes do not interlace")
    exactness(x, w, q.exact_to, f"Kronrod({n})")
    # half tables
    hx, hw, hgw = kronrod(n)
    hx, hw = arr(hx, (n + 1,), "x"), arr(hw, (n + 1,), "w")
    hgw = arr(hgw, ((n + 1)//2,), "gw")
    need(abs(hx[-1]) < 1e-15, f"the last node is {hx[-1]}, not zero")
    need(np.all(np.diff(hx) > 0) and np.all(hx <= 1e-15), "half nodes not increasing")
    close(hx, x[i][:n + 1], 1e-12, "half nodes", scale=1.0)
    close(hw, w[i][:n + 1], 1e-12, "half weights", scale=1.0)
    close(hx[1::2], gx[:(n + 1)//2], 1e-11, "Gauss nodes in the half table", scale=1.0)
    close(hgw, gw[:(n + 1)//2], 1e-11, "Gauss weights in the half table", scale=1.0)
    x1, w1 = gauss(n)
    x1, w1 = arr(x1, (n,), "gauss(n)"), arr(w1, (n,), "gauss(n)")
    j = np.argsort(x1)
    close(x1[j], gx, 1e-11, "gauss(n) nodes", scale=1.0)
    close(w1[j], gw, 1e-11, "gauss(n) weights", scale=1.0)


def run_call(case):
    """Calling the rule integrates polynomials exactly, also complex ones; asking
    again gives the same answer."""
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    n = case["n"]
    c = np.array(case["c"], dtype=float)[:3*n + 2]
    e = 2.0**0.5 * c[0]

    def f(x):
        return sum(ck * legendre(k, x) for k, ck in enumerate(c))
    sc = 1 + float(np.sum(np.abs(c)))
    q = make_kronrod_quadrature(n)
    close(q(f), e, 1e-11, "Kronrod estimate", shape=(), scale=sc)
    close(q(lambda x: (1 - 2j)*f(x)), (1 - 2j)*e, 1e-11, "complex integrand",
          shape=(), scale=3*sc)
    # vector- and matrix-valued integrands, a component per row
    v = q(lambda x: np.array([f(x), (2 + 1j)*f(x) + 1, 0*x + 3]))
    close(v, np.array([e, (2 + 1j)*e + 2, 6]), 1e-11, "vector-valued integrand",
          shape=(3,), scale=3*sc)
    v = q(lambda x: np.array([[f(x), 2*f(x)], [0*x, x**2], [x, 1 + x]]))
    close(v, np.array([[e, 2*e], [0, 2/3], [0, 2]]), 1e-11, "matrix-valued integrand",
          shape=(3, 2), scale=3*sc)
    cg = c[:2*n]

    def fg(x):
        return sum(ck * legendre(k, x) for k, ck in enumerate(cg))
    close(q.gauss_quadrature(fg), e, 1e-11, "Gauss estimate", shape=(), scale=sc)
    v = q.gauss_quadrature(lambda x: np.array([fg(x), 1 - fg(x)]))
    close(v, np.array([e, 2 - e]), 1e-11, "vector-valued integrand, Gauss",
          shape=(2,), scale=3*sc)
    q2 = make_kronrod_quadrature(n)
    close(q2(f), float(q(f)), 1e-15, "second construction", shape=(), scale=sc)


def run_invalid(case):
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    for f in (gauss, kronrod, make_kronrod_quadrature):
        raises(ValueError, lambda f=f: f(case["n"]), f"{f.__name__}({case['n']})")


SUBS = [
    Sub("rules", run_rule, cases=lambda tier: [
        {"n": n} for n in ([*range(1, 101), 128, 150, 199, 256] if tier == "quick" else
                          [*range(1, 257), 300])], shards=8,
        rule="every case: every order in the range"),
    Sub("call", run_call, st.fixed_dictionaries({
        "n": st.integers(1, 12) | st.integers(1, 40), "c": st.lists(
            st.floats(-3, 3, width=32, allow_subnormal=False), min_size=38,
            max_size=38)}),
        quick=200, nontrivial=lambda c: any(c["c"]), rule="nonzero polynomial"),
    Sub("invalid", run_invalid, cases=lambda tier: [{"n": n} for n in (0, -1, -5)],
        rule="every case"),
]
