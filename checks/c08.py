"""C08: hypercube tables and tensor-product quadrature."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.core import Sub, Trivial
from vlib.util import arr, close, fail, matrix_valued, need


ID = "C08"
SCALE = 5
ASSUMPTIONS = ["the factor rules themselves are decided by C06 and C07; here the"
               " product is compared with the product of its actual factors, and its"
               " exactness with independent integrals"]

OFFERED = {2: range(1, 22, 2), 3: range(1, 12, 2)}


def cube_exact(x, w, deg, what):
    d = len(x)
    one = [np.array([ref.simplex_onb(1, (k,), x[i:i + 1]) for k in range(deg + 1)])
           for i in range(d)]
    for m in itertools.product(range(deg + 1), repeat=d):
        if sum(m) > deg:
            continue
        p = np.prod([one[i][k] for i, k in enumerate(m)], axis=0)
        s = float(w @ p)
        e = 2**(d/2) if sum(m) == 0 else 0.0
        if abs(s - e) > 1e-11:
            fail(f"{what}: Legendre product {m} integrates to {s!r}, expected {e!r}"
                 f" (declared exact to {deg})")


def run_wv(case):
    import modepy as mp
    o, d = case["order"], case["d"]
    what = f"WitherdenVincent({o}, {d})"
    try:
        q = mp.WitherdenVincentQuadrature(o, d)
    except mp.QuadratureRuleUnavailable:
        need(o not in OFFERED[d], f"{what} is not available")
        raise Trivial from None
    w = arr(q.weights, what="weights")
    need(w.ndim == 1, "weights")
    x = arr(q.nodes, (d, w.size), "nodes")
    need(q.dim == d, "dim")
    need(q.exact_to >= o, f"exact_to {q.exact_to} < {o}")
    need(np.all(w > 0), "weights not positive")
    need(np.all(np.abs(x) <= 1 + 1e-13), "nodes outside of the hypercube")
    cube_exact(x, w, q.exact_to, what)
    # documented as symmetric: invariant under the symmetries of the cube
    for perm in itertools.permutations(range(d)):
        for sign in itertools.product((1, -1), repeat=d):
            y = x[list(perm)] * np.array(sign)[:, None]
            dist = np.max(np.abs(x[:, :, None] - y[:, None, :]), axis=0)
            j = np.argmin(dist, axis=0)
            if np.max(dist[j, np.arange(w.size)]) > 1e-11 or \
                    np.max(np.abs(w[j] - w)) > 1e-11:
                fail(f"{what}: not symmetric under {perm} {sign}")


def _wv(tier):
    for d in (2, 3):
        for o in range(0, max(OFFERED[d]) + 8):
            yield {"order": o, "d": d}


# {{{ products

def factor(f):
    import modepy as mp
    k, n = f["k"], f["n"]
    ax = f.get("axis", True)
    return {
        "lg": lambda: mp.LegendreGaussQuadrature(n, force_dim_axis=ax),
        "lgl": lambda: mp.LegendreGaussLobattoQuadrature(n + 1, force_dim_axis=ax),
        "cc": lambda: mp.ClenshawCurtisQuadrature(n + 1, force_dim_axis=ax),
        "fejer": lambda: mp.FejerQuadrature(n + 1, force_dim_axis=ax),
        "interval": lambda: mp.quadrature.Transformed1DQuadrature(
            mp.LegendreGaussQuadrature(n, force_dim_axis=ax), 0.0, 1.0 + n),
        "xg2": lambda: mp.XiaoGimbutasSimplexQuadrature(n + 1, 2),
        "xg3": lambda: mp.XiaoGimbutasSimplexQuadrature(n + 1, 3),
        "vr2": lambda: mp.VioreanuRokhlinSimplexQuadrature(n, 2),
        "gm2": lambda: mp.GrundmannMoellerSimplexQuadrature(n, 2),
        "js3": lambda: mp.JaskowiecSukumarQuadrature(n, 3),
        "wv2": lambda: mp.WitherdenVincentQuadrature(2*n + 1, 2),
        "zero": mp.ZeroDimensionalQuadrature,
        "empty": lambda: mp.TensorProductQuadrature([]),
        "tp": lambda: mp.LegendreGaussTensorProductQuadrature(n, 2),
        # rules made by the user, of various types
        "simpson": lambda: mp.Quadrature(
            np.array([[-1, 0, 1]] if ax else [-1, 0, 1]), np.array([1, 4, 1])/3,
            exact_to=3),
        "trapezoidal": lambda: mp.Quadrature(
            np.array([[-1, 1]] if ax else [-1, 1]), np.array([1, 1]), exact_to=1),
        "midpoint": lambda: mp.Quadrature(
            np.array([[0.0]] if ax else [0.0], dtype=np.float32), np.array([2.0]),
            exact_to=1),
        "corners": lambda: mp.Quadrature(
            np.array([[-1, 1, -1], [-1, -1, 1]]), np.array([2, 2, 2])/3, exact_to=1),
    }[k]()


DIM = {"xg2": 2, "xg3": 3, "vr2": 2, "gm2": 2, "js3": 3, "wv2": 2, "zero": 0,
       "empty": 0, "tp": 2, "corners": 2}


def run_tp(case):
    import modepy as mp
    quads = [factor(f) for f in case["factors"]]
    if case["iterator"]:
        q = mp.TensorProductQuadrature(iter(quads))
    else:
        q = mp.TensorProductQuadrature(quads)
    need(len(q.quadratures) == len(quads)
         and all(a is b or (np.array_equal(a.nodes, b.nodes))
                 for a, b in zip(q.quadratures, quads, strict=True)),
         "quadratures attribute")
    x = np.zeros((0, 1))
    w = np.ones(1)
    for qi in quads:
        xi = np.asarray(qi.nodes, dtype=float)
        xi = xi.reshape(1, -1) if xi.ndim == 1 else xi
        wi = np.asarray(qi.weights, dtype=float)
        # first factor fastest
        n, m = x.shape[1], wi.size
        x = np.vstack([np.tile(x, (1, m)), np.repeat(xi, n, axis=1)])
        w = np.tile(w, m) * np.repeat(wi, n)
    dim = x.shape[0]
    close(q.nodes, x, 1e-14, "product nodes")
    close(q.weights, w, 1e-13, "product weights")
    need(q.dim == dim, f"dim {q.dim} != {dim}")
    ex = [getattr(qi, "exact_to", None) for qi in quads]
    if any(e is None for e in ex):
        need(not hasattr(q, "exact_to"), "exact_to declared although unknown")
    else:
        fin = [e for e in ex if isinstance(e, int | np.integer)]
        if fin:
            need(q.exact_to == min(fin), f"exact_to {q.exact_to}, factors {ex}")
        else:
            need(q.exact_to >= 10**6, f"exact_to {q.exact_to} of a 0-D product")
    # a random polynomial within the factors' exactness
    if dim and not any(f["k"] == "fejer" for f in case["factors"]):
        exps, val = [], 1.0
        rnd = list(case["exps"])
        for f, e in zip(case["factors"], ex, strict=True):
            d = DIM.get(f["k"], 1)
            if d == 0:
                continue
            budget = min(int(e), 6)
            mine = []
            for _ in range(d):
                k = rnd.pop() % (budget + 1)
                budget -= k
                mine.append(k)
            exps += mine
            if f["k"] == "interval":
                h = 1.0 + f["n"]
                val *= h**(mine[0] + 1)/(mine[0] + 1)
            elif f["k"] in ("wv2", "tp"):
                val *= float(ref.cube_monomial_integral(mine))
            else:
                val *= float(ref.simplex_monomial_integral(mine))
        p = np.ones(x.shape[1])
        sc = 1.0
        for i, k in enumerate(exps):
            p = p * x[i]**k
            sc *= max(1.0, float(np.max(np.abs(x[i])))**k)
        def f(y):
            return math.prod(
                (y[i]**k for i, k in enumerate(exps)), start=np.ones(y.shape[1]))
        close(q(f), val, 1e-12, f"integral of x**{exps}", shape=(),
              scale=float(np.sum(np.abs(w)))*sc + 1)
        matrix_valued(q, f, val, 1e-12, f"matrix-valued integrand, x**{exps}",
                      float(np.sum(np.abs(w)))*sc + 1)
        close(float(w @ p), val, 1e-12, "reference product",
              scale=float(np.sum(np.abs(w)))*sc + 1)


ONE_D = ["lg", "lg", "lgl", "cc", "interval", "fejer", "simpson",
         "trapezoidal", "midpoint"]


@st.composite
def _tp(draw):
    k = draw(st.integers(0, 4))
    fs = []
    pts_ = 1
    for i in range(k):
        kinds = ONE_D + ["zero", "empty"] + (
            ["xg2", "xg3", "vr2", "gm2", "js3", "wv2", "tp",
             "corners"] if k <= 3 else [])
        f = {"k": draw(st.sampled_from(kinds)), "n": draw(st.integers(0, 4))}
        if f["k"] in ONE_D:
            f["axis"] = draw(st.booleans())
        fs.append(f)
    sz = {"xg2": 10, "xg3": 20, "vr2": 15, "gm2": 15, "js3": 20, "wv2": 20, "tp": 16,
          "zero": 1, "empty": 1}
    for f in fs:
        pts_ *= sz.get(f["k"], 5)
    if pts_ > 6000:
        fs = fs[:2]
    return {"factors": fs, "iterator": draw(st.booleans()),
            "exps": draw(st.lists(st.integers(0, 6), min_size=12, max_size=12))}

# }}}


def run_named(case):
    """The two shorthand classes are the product of d equal rules."""
    import modepy as mp
    n, d, b = case["n"], case["d"], case["backend"]
    for cls, one, deg in [
            (mp.LegendreGaussTensorProductQuadrature,
             lambda: mp.LegendreGaussQuadrature(n, backend=b, force_dim_axis=True),
             2*n + 1),
            (mp.LegendreGaussLobattoTensorProductQuadrature,
             lambda: mp.LegendreGaussLobattoQuadrature(n, backend=b,
                                                       force_dim_axis=True),
             2*n - 1)]:
        if deg < 0 or (n < 1 and "Lobatto" in cls.__name__):
            continue
        q = cls(n, d, backend=b) if b else cls(n, d)
        e = mp.TensorProductQuadrature([one() for _ in range(d)])
        close(q.nodes, e.nodes, 1e-14, f"{cls.__name__} nodes")
        close(q.weights, e.weights, 1e-14, f"{cls.__name__} weights")
        need(q.dim == d, "dim")
        if d:
            need(q.exact_to == deg, f"exact_to {q.exact_to}")
            if d*n <= 12:
                cube_exact(np.asarray(q.nodes), np.asarray(q.weights), deg,
                           cls.__name__)
        else:
            need(q.weights.shape == (1,) and q.weights[0] == 1, "0-D")


def run_inf(case):
    """The infinite exactness of 0-D rules compares like infinity."""
    from modepy.quadrature import inf, isinf
    n = case["n"]
    need(isinf(inf) and not isinf(n), "isinf")
    need(inf > n and inf >= n and not inf < n and not inf <= n, f"inf vs {n}")
    need(n < inf and n <= inf and not n > inf and not n >= inf, f"{n} vs inf")
    need(inf == inf and inf >= inf and inf <= inf and not inf > inf
         and not inf < inf and inf != n, "inf vs inf")
    need(min(n, inf) == n and min(inf, n) == n, "min")
    need(isinf(max(n, inf)) and isinf(max(inf, n)), "max")
    need(isinf(inf + n), "inf + n")


SUBS = [
    Sub("witherden_vincent", run_wv, cases=_wv, shards=2, rule="the rule exists;"
        " every tabulated order", classify=lambda c: [f"{c['d']}-D"]),
    Sub("tensor_product", run_tp, _tp(), quick=1500, shards=3,
        classify=lambda c: [f"{len(c['factors'])} factors"],
        nontrivial=lambda c: len({str(f) for f in c["factors"]}) >= 2,
        rule="at least two different factors"),
    Sub("named", run_named, cases=lambda tier: [
        {"n": n, "d": d, "backend": b} for n in range(0, 6) for d in range(0, 4)
        for b in (None, "builtin", "scipy")], rule="every case"),
    Sub("infinity", run_inf, st.fixed_dictionaries({"n": st.one_of(
        st.integers(-5, 10**6), st.floats(-1e300, 1e300, width=64))}),
        quick=100, rule="every case"),
]
