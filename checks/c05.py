"""C05: monomial bases and the Monomial helper."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need, raises


ID = "C05"
SCALE = 2
ASSUMPTIONS = []


def mono(e, x):
    r = np.ones(x.shape[1:])
    for i, k in enumerate(e):
        for _ in range(k):
            r = r * x[i]
    return r


def dmono(e, ax, x):
    if e[ax] == 0:
        return np.zeros(x.shape[1:])
    f = list(e)
    f[ax] -= 1
    return e[ax] * mono(f, x)


def run_basis(case):
    import modepy as mp
    s = case["shape"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, case["order"])
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    n = gen.ndofs(s, case["order"])
    basis = mp.monomial_basis_for_space(gen.build_space(s, case["order"]),
                                        gen.build_shape(s))
    raises(mp.BasisNotOrthonormal, basis.orthonormality_weight, "monomial basis weight")
    fs, gs, mids = tuple(basis.functions), tuple(basis.gradients), tuple(basis.mode_ids)
    need(len(fs) == len(gs) == len(mids) == n, f"{len(fs)}/{len(gs)}/{len(mids)} != {n}")
    # exponents of each function: simplex mode ids, or products of those
    if len(dims) == 1 or all(d == 1 for d in dims):
        exps = [tuple(int(k) for k in m) for m in mids]
    else:
        exps = [sum(m, ()) for m in _tp_exps(dims, orders)]
    need(all(len(e) == dim for e in exps), f"mode ids {mids}")
    declared = {sum(m, ()) for m in ref.tp_mids(dims, orders)}
    need(set(exps) == declared and len(set(exps)) == n,
         "mode ids do not enumerate the exponents of the space")
    for e, f, g in zip(exps, fs, gs, strict=True):
        sc = 1 + max(e)
        close(f(x), mono(e, x), 1e-13, f"monomial {e}", scale=1.0)
        gv = g(x)
        need(isinstance(gv, tuple) and len(gv) == dim, "gradient is a tuple")
        for ax in range(dim):
            close(gv[ax], dmono(e, ax, x), 1e-13, f"d{ax} monomial {e}", scale=sc)
    for ax in range(dim):
        for e, d in zip(exps, basis.derivatives(ax), strict=True):
            close(d(x), dmono(e, ax, x), 1e-13, f"derivatives({ax}) of {e}",
                  scale=1 + max(e))


def _tp_exps(dims, orders):
    """Per factor in the library's simplex mode order, first factor fastest."""
    import itertools

    import modepy as mp
    per = [[tuple(m) for m in mp.monomial_basis_for_space(
        mp.PN(d, o), mp.Simplex(d)).mode_ids] for d, o in
        zip(dims, orders, strict=True)]
    return [t[::-1] for t in itertools.product(*per[::-1])]


@st.composite
def _case(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "S4", "S5", "S6", "H1", "H4", "T:1"], max_dofs=130,
                                 max_order=14))
    c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), max_size=3))
    return c


def run_functions(case):
    """modes.monomial & friends for any exponents, including mixed dtypes."""
    from modepy.modes import diff_monomial, grad_monomial, monomial
    e = tuple(case["e"])
    d = len(e)
    x = np.array(case["x"], dtype=float).reshape(-1, d).T.copy()
    close(monomial(e, x), mono(e, x), 1e-12, f"monomial {e}")
    _relative(monomial(e, x), mono(e, x), f"monomial {e}")
    g = grad_monomial(e, x)
    need(isinstance(g, tuple) and len(g) == d, "gradient tuple")
    for ax in range(d):
        close(g[ax], dmono(e, ax, x), 1e-12, f"grad_monomial {e}[{ax}]")
        _relative(diff_monomial(e, ax, x), dmono(e, ax, x), f"diff_monomial {e} {ax}")
        close(diff_monomial(e, ax, x), dmono(e, ax, x), 1e-12,
              f"diff_monomial {e} {ax}")


def _relative(a, b, what):
    """Products of powers keep their relative accuracy down to underflow."""
    a, b = np.broadcast_to(a, b.shape), np.asarray(b)
    bad = np.abs(a - b) > np.where(np.abs(b) > 1e-280, 1e-12*np.abs(b), 1e-279)
    if np.any(bad):
        fail(f"{what}: {a[bad]} instead of {b[bad]}")


@st.composite
def _fcase(draw):
    d = draw(st.integers(1, 5))
    f = st.one_of(st.sampled_from([0.0, -1.0, 1.0, 2.0, 1e-9, -1e-17, 1e-60, 1e-140]),
                  st.floats(-2, 2, allow_subnormal=False))
    return {"e": draw(st.lists(st.integers(0, 12) | st.integers(0, 70), min_size=d, max_size=d)),
            "x": draw(st.lists(st.lists(f, min_size=d, max_size=d), min_size=1,
                               max_size=4))}


def run_types(case):
    """Exponents and points of any integer type and memory layout."""
    from modepy.modes import diff_monomial, grad_monomial, monomial
    from modepy.tools import Monomial
    e, how = tuple(case["e"]), case["how"]
    d = len(e)
    x = np.array(case["x"], dtype=float).reshape(-1, d).T.copy()
    ex = tuple(np.array(e, dtype=case["etype"])) if case["etype"] else e
    layouts.same(lambda y: monomial(ex, y), [x], how, "monomial")
    layouts.same(lambda y: grad_monomial(ex, y), [x], how, "grad_monomial")
    for ax in range(d):
        layouts.same(lambda y, ax=ax: diff_monomial(ex, ax, y), [x], how, "diff_monomial")
    close(monomial(ex, x), mono(e, x), 1e-12, f"monomial, {case['etype']} exponents")
    close(grad_monomial(ex, x)[0], dmono(e, 0, x), 1e-12,
          f"grad_monomial, {case['etype']} exponents")
    layouts.batch(lambda y: monomial(ex, y), x, case["many"], "monomial")
    layouts.batch(lambda y: grad_monomial(ex, y), x, case["many"], "grad_monomial")
    m = Monomial(e, factor=2.5)
    layouts.batch(m, x, case["many"], "Monomial()")
    layouts.same(m, [x], how, "Monomial()")
    layouts.same(lambda y: m(y[:, 0]), [x], how, "Monomial() at one point")
    close(m(x[:, 0]), 2.5*mono(e, (x + 1)/2)[0], 1e-12, "Monomial() at one point", shape=())


@st.composite
def _tcase(draw):
    d = draw(st.integers(1, 4))
    return {"e": draw(st.lists(st.integers(0, 9), min_size=d, max_size=d)),
            "etype": draw(st.sampled_from([None, "int64", "int32"])),
            "how": draw(layouts.how()), "many": draw(layouts.sizes),
            "x": draw(st.lists(st.lists(st.integers(-2, 2), min_size=d, max_size=d),
                               min_size=1, max_size=5))}


def run_helper(case):
    """modepy.tools.Monomial: alpha * prod(((xi+1)/2)**e), its integrals over the
    bi-unit simplex / the [0,1] hypercube and its derivative."""
    from modepy.tools import Monomial
    e, fac = tuple(case["e"]), case["factor"]
    d = len(e)
    m = Monomial(e) if fac is None else Monomial(e, factor=fac)
    fac = 1.0 if fac is None else fac
    x = np.array(case["x"], dtype=float).reshape(-1, d).T.copy()
    u = (x + 1) / 2
    close(m(x), fac * mono(e, u), 1e-13, "Monomial()", scale=abs(fac) + 1e-300)
    if d <= 3:
        xq, wq = ref.simplex_quad(d, sum(e))
        close(m.simplex_integral(), fac * (wq @ mono(e, (xq + 1)/2)), 1e-12,
              "simplex_integral", scale=abs(fac))
    else:
        close(m.simplex_integral(), fac * 2**d * math.prod(map(math.factorial, e))
              / math.factorial(sum(e) + d), 1e-12, "simplex_integral", scale=abs(fac))
    close(m.hypercube_integral(), fac / math.prod(k + 1 for k in e), 1e-13,
          "hypercube_integral", scale=abs(fac))
    ax = case["axis"] % d
    dm = m.diff(ax)
    close(dm(x), fac * dmono(e, ax, u), 1e-12, f"diff({ax}) of {m!r}",
          scale=abs(fac) * (1 + e[ax]))
    close(m(x), fac * mono(e, u), 1e-13, "Monomial changed by diff",
          scale=abs(fac) + 1e-300)
    # second derivatives commute
    bx = (ax + 1) % d
    close(dm.diff(bx)(x), m.diff(bx).diff(ax)(x), 1e-12, "mixed derivatives",
          scale=abs(fac) * (1 + max(e))**2)


@st.composite
def _hcase(draw):
    d = draw(st.integers(1, 4))
    f = st.one_of(st.sampled_from([0.0, -1.0, 1.0]),
                  st.floats(-1, 1, allow_subnormal=False))
    return {"e": draw(st.lists(st.integers(0, 12), min_size=d, max_size=d)),
            "factor": draw(st.one_of(st.none(), st.sampled_from([1.0, 2.0, -3.0]),
                                     st.floats(1e-3, 1e3))),
            "axis": draw(st.integers(0, 3)),
            "x": draw(st.lists(st.lists(f, min_size=d, max_size=d), min_size=1,
                               max_size=4))}


SUBS = [
    Sub("basis", run_basis, _case(), quick=1000, shards=4,
        classify=lambda c: [c["shape"]], nontrivial=lambda c: c["order"] != 0,
        rule="order >= 1"),
    Sub("functions", run_functions, _fcase(), quick=2000,
        nontrivial=lambda c: sum(c["e"]) > 0, rule="not the constant"),
    Sub("types", run_types, _tcase(), quick=300, rule="every case",
        classify=lambda c: [layouts.label(c["how"]), f"{c['etype']} exponents"]),
    Sub("helper", run_helper, _hcase(), quick=2500,
        nontrivial=lambda c: sum(c["e"]) > 0 and c["factor"] not in (None, 1.0),
        rule="not the constant, factor other than 1"),
]
