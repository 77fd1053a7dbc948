"""C07: simplex cubature."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.core import Sub
from vlib.util import arr, close, fail, matrix_valued, need


ID = "C07"
SCALE = 3
ASSUMPTIONS = ["tables are explored completely: every order the constructors accept"
               " between 0 and 60; Grundmann-Moeller up to the order bound per dimension"
               " in the generator"]

#: orders that are known to be on offer (a superset may be)
OFFERED = {("XG", 2): range(1, 51), ("XG", 3): range(1, 16),
           ("VR", 2): range(21), ("VR", 3): range(11), ("JS", 3): range(20)}


def get(fam, order, d):
    import modepy as mp
    return {"XG": mp.XiaoGimbutasSimplexQuadrature,
            "VR": mp.VioreanuRokhlinSimplexQuadrature,
            "JS": mp.JaskowiecSukumarQuadrature,
            "GM": mp.GrundmannMoellerSimplexQuadrature}[fam](order, d)


def parts(q, d, what):
    w = arr(q.weights, what=f"{what} weights")
    need(w.ndim == 1 and w.size, f"{what}: weights of shape {w.shape}")
    x = arr(q.nodes, (d, w.size), f"{what} nodes")
    need(q.dim == d, f"{what}: dim")
    return x, w


def bary(x):
    last = (x + 1) / 2
    return np.vstack([1 - last.sum(axis=0), last])


def symmetric(b, w, what):
    """Invariance under all permutations of the vertices."""
    d1 = len(b)
    for perm in itertools.permutations(range(d1)):
        pb = b[list(perm)]
        # match nodes by nearest neighbour
        for k in range(len(w)):
            dist = np.max(np.abs(b - pb[:, k, None]), axis=0)
            j = int(np.argmin(dist))
            if dist[j] > 1e-10 or abs(w[j] - w[k]) > 1e-10:
                fail(f"{what}: not symmetric: node {k} permuted by {perm}"
                     f" (distance {dist[j]:.2e}, weights {w[k]} {w[j]})")


def exact(x, w, d, deg, what):
    vol = ref.simplex_volume(d)
    scale = 1 + float(np.sum(np.abs(w)))
    for m, p in zip(ref.simplex_mids(d, deg), ref.simplex_vdm(d, deg, x), strict=True):
        s = float(w @ p)
        e = vol**0.5 if sum(m) == 0 else 0.0
        if not abs(s - e) <= 2e-13 * scale * max(1.0, float(np.max(np.abs(p)))):
            fail(f"{what}: orthonormal polynomial {m} integrates to {s!r}, expected"
                 f" {e!r} (declared exact to {deg})")


def run_table(case):
    import modepy as mp
    fam, o, d = case["fam"], case["order"], case["d"]
    what = f"{fam}({o}, {d})"
    try:
        q = get(fam, o, d)
    except mp.QuadratureRuleUnavailable:
        need(o not in OFFERED.get((fam, d), ()), f"{what} is not available")
        from vlib.core import Trivial
        raise Trivial from None
    x, w = parts(q, d, what)
    deg = q.exact_to
    need(int(deg) == deg and deg >= o, f"{what}: exact_to {deg!r} < requested {o}")
    if fam == "VR":
        # interpolation nodes for P^order
        n = math.comb(o + d, d)
        need(w.size == n, f"{what}: {w.size} nodes for a {n}-dimensional space")
        v = ref.simplex_vdm(d, o, x).T
        need(np.linalg.cond(v) < 1e3, f"{what}: nodes are not unisolvent for P^{o}")
    if fam in ("VR", "JS"):
        need(np.all(w > 0), f"{what}: weights not positive")
        need(np.all(ref.inside([d], x, 1e-13)), f"{what}: nodes outside")
    exact(x, w, d, deg, what)
    if fam == "JS" and (o <= 12 or case.get("sym")):
        symmetric(bary(x), w, what)


def _tables(tier):
    for (fam, d), offered in OFFERED.items():
        for o in range(0, max(offered) + 10):
            yield {"fam": fam, "order": o, "d": d, "sym": tier != "quick"}


def run_gm(case):
    s, d = case["s"], case["d"]
    what = f"GM({s}, {d})"
    q = get("GM", s, d)
    x, w = parts(q, d, what)
    if d == 0:
        need(w[0] == 1 and w.size == 1, "0-D rule is point evaluation")
        need(q.exact_to >= 1000, "0-D rule is exact")
        return
    need(q.exact_to >= 2*s + 1, f"{what}: exact_to {q.exact_to}")
    need(np.all(ref.inside([d], x, 1e-12)), f"{what}: nodes outside")
    if d <= 3:
        exact(x, w, d, q.exact_to, what)
    else:
        b = bary(x)
        scale = float(np.sum(np.abs(w)))
        for e in _exps(d + 1, q.exact_to, case["seed"]):
            p = np.prod([b[i]**k for i, k in enumerate(e)], axis=0)
            val = (2**d * math.prod(map(math.factorial, e))
                   / math.factorial(sum(e) + d))
            if abs(float(w @ p) - val) > 1e-12*scale:
                fail(f"{what}: barycentric monomial {e}: {w @ p} != {val}")
    symmetric(bary(x), w, what) if case["s"] <= 3 and d <= 3 else None


def _exps(n, deg, seed):
    """Barycentric monomials of exactly degree *deg* span P^deg."""
    rng = np.random.default_rng(seed)
    if math.comb(deg + n - 1, n - 1) <= 400:
        return [t for t in itertools.product(range(deg + 1), repeat=n)
                if sum(t) == deg]
    return [tuple(int(k) for k in rng.multinomial(deg, rng.dirichlet(np.ones(n))))
            for _ in range(200)]


def _gm(tier):
    big = tier != "quick"
    bound = {0: 12, 1: 16, 2: 12, 3: 9, 4: 6, 5: 5, 6: 4, 7: 3, 8: 1} if not big else \
        {0: 20, 1: 20, 2: 14, 3: 10, 4: 8, 5: 6, 6: 5, 7: 4, 8: 3, 9: 1}
    for d, hi in bound.items():
        for s in range(hi + 1):
            yield {"s": s, "d": d, "seed": 7*d + s}


def run_poly(case):
    """Integrals of random products of linear forms, through the call operator."""
    fam, o, d = case["fam"], case["order"], case["d"]
    q = get(fam, o, d)
    deg = q.exact_to
    c = np.array(case["c"], dtype=float)[:deg]      # (k, d+1): linear forms

    def f(x):
        p = np.ones(x.shape[1:])
        for row in c:
            p = p * (row[0] + np.tensordot(row[1:d + 1], x, axes=1))
        return p
    xr, wr = ref.simplex_quad(d, max(len(c), 1))
    e = float(wr @ f(xr))
    sc = ref.simplex_volume(d) * float(np.prod(np.sum(np.abs(c), axis=1)))
    wsum = 1 + float(np.sum(np.abs(q.weights)))
    close(q(f), e, 1e-12, f"{fam}({o}, {d}) of a product of {len(c)} linear forms",
          shape=(), scale=sc*wsum + 1e-300)
    close(q(lambda x: np.array([f(x), -f(x)])), np.array([e, -e]), 1e-12,
          "vector-valued integrand", scale=sc*wsum + 1e-300)
    matrix_valued(q, f, e, 1e-12, "matrix-valued integrand", sc*wsum + 1e-300)


@st.composite
def _poly(draw):
    fam = draw(st.sampled_from(["XG", "VR", "JS", "GM"]))
    d = 3 if fam == "JS" else draw(st.sampled_from([2, 3]))
    o = draw(st.integers(0, 6)) if fam == "GM" else \
        draw(st.sampled_from(list(OFFERED[fam, d])))
    k = draw(st.integers(1, 8))
    f = st.floats(-1, 1, width=16, allow_subnormal=False)
    return {"fam": fam, "order": o, "d": d,
            "c": draw(st.lists(st.lists(f, min_size=4, max_size=4),
                               min_size=k, max_size=k))}


SUBS = [
    Sub("tables", run_table, cases=_tables, shards=6,
        classify=lambda c: [f"{c['fam']} {c['d']}-D"],
        rule="the rule exists; every tabulated order is enumerated and tested against"
        " all orthonormal polynomials of its declared degree"),
    Sub("grundmann_moeller", run_gm, cases=_gm, shards=4,
        nontrivial=lambda c: c["s"] > 0, rule="s >= 1",
        classify=lambda c: [f"{c['d']}-D"]),
    Sub("polynomials", run_poly, _poly(), quick=800,
        classify=lambda c: [f"{c['fam']} {c['d']}-D"],
        nontrivial=lambda c: any(any(r[1:c["d"] + 1]) for r in c["c"]),
        rule="not a constant"),
]
