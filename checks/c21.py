"""C21: modal decay estimation."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import layouts
from vlib.core import Sub, Trivial
from vlib.util import arr, close, fail, need, quiet


ID = "C21"
SCALE = 6
ASSUMPTIONS = [
    "elements have a nonzero function with squared coefficients that neither overflow"
    " nor underflow; order at least one",
    "the residual estimate is only defined when the fitted exponent is below -1/2"
    " (otherwise the extrapolated tail has infinite norm)",
    "for elements whose skyline norm is not one the fit may use either the published"
    " normalisation of the baseline or the one in the code (see known_findings.txt)",
]

MAXN = {1: 16, 2: 9, 3: 5}


def modes(dims, n):
    import modepy as mp
    b = mp.orthonormal_basis_for_space(mp.PN(dims, n), mp.Simplex(dims))
    return np.array([sum(m) for m in b.mode_ids])


# {{{ generator

@st.composite
def coeff_spec(draw):
    return {"kind": draw(st.sampled_from(["alg", "exp", "rand", "sparse", "poly", "free"])),
            "s": draw(st.floats(0.0, 6.0, allow_subnormal=False)),
            "seed": draw(st.integers(0, 10**6)),
            "c0": draw(st.sampled_from([0.0, 1e-8, 0.5, 1.0, 30.0])),
            "mag": draw(st.sampled_from([1, 1, 1, 1e-3, 0.1, 20.0, 1e3])),
            "sign": draw(st.booleans())}


@st.composite
def fit_cases(draw):
    dims = draw(st.integers(1, 3))
    n = draw(st.integers(1, MAXN[dims]))
    return {"dims": dims, "n": n, "ign": draw(st.sampled_from([1, 1, 1, 0, 2, 3])),
            "els": draw(st.lists(coeff_spec(), min_size=1, max_size=4)),
            "scale": draw(st.sampled_from([1, 1, 1e-3, 7.0, 1e4])),
            "dflt": draw(st.booleans())}


def make(case):
    k = modes(case["dims"], case["n"])
    rows = []
    for e in case["els"]:
        rng = np.random.default_rng(e["seed"])
        kk = np.maximum(k, 1).astype(float)
        if e["kind"] == "alg":
            c = kk**-e["s"]
        elif e["kind"] == "exp":
            c = np.exp(-e["s"]*kk)*rng.uniform(0.5, 1, size=k.shape)
        elif e["kind"] == "rand":
            c = rng.uniform(0, 1, size=k.shape)
        elif e["kind"] == "sparse":
            c = rng.uniform(0.1, 1, size=k.shape)*(rng.uniform(size=k.shape) < 0.3)
        elif e["kind"] == "poly":
            c = np.where(k <= case["n"]/2, 1.0, 0.0)
        else:
            c = 10.0**rng.uniform(-9, 1, size=k.shape)
        c = c.copy()
        c[0] = e["c0"]
        if e["sign"]:
            c = c*rng.choice([-1.0, 1.0], size=k.shape)
        if not np.any(c):
            c[0] = 1.0
        # normalise the skyline norm to one
        c = c/np.sqrt(np.sum(skyline(c**2)))
        rows.append(c*case["scale"]*e["mag"])
    return k, np.array(rows)


def skyline(v):
    # the published definition: the last mode is judged together with the one before
    return np.array([max(v[min(i, len(v) - 2):]) for i in range(len(v))])

# }}}


def reference(k, c, n, ign, power):
    """least-squares power law through the baseline-regularised skyline magnitudes"""
    m = k[ign:].astype(float)
    base = np.array([x**-float(n) if x else 1.0 for x in m])
    base = base/np.sqrt(np.sum(base**2))
    sq = skyline(c**2)
    e = np.sum(sq)
    mag = np.log(sq[ign:] + base**2*e**power)/2
    a = np.array([[1.0, np.log(x) if x else 0.0] for x in m])
    sol, *_ = np.linalg.lstsq(a, mag, rcond=1e-13)
    return sol[1], sol[0], np.max(np.abs(mag))


def run_fit(case):
    from modepy.modal_decay import estimate_relative_expansion_residual, fit_modal_decay
    k, c = make(case)
    dims, n, ign = case["dims"], case["n"], case["ign"]
    if len(k) - ign < 1:
        raise Trivial
    kw = {} if ign == 1 and case["dflt"] else {"ignored_modes": ign}
    c0 = c.copy()
    nel = len(c)
    res = fit_modal_decay(c, dims, n, **kw)
    need(len(res) == 2, "two results")
    ex = arr(res[0], (nel,), "exponent")
    co = arr(res[1], (nel,), "constant")
    need(np.array_equal(c, c0), "coefficients modified")
    for i in range(nel):
        ok = []
        for power in (1, 2):
            e, lc, s = reference(k, c[i], n, ign, power)
            t = 1e-10*(1 + s)
            ok.append(abs(ex[i] - e) <= t and abs(np.log(co[i]) - lc) <= t)
        if not any(ok):
            e, lc, s = reference(k, c[i], n, ign, 1)
            fail(f"element {i}: fitted (exponent, constant) = ({ex[i]!r}, {co[i]!r}),"
                 f" least-squares fit is ({e!r}, {np.exp(lc)!r})")
        # elements do not influence each other
        e1, k1 = fit_modal_decay(c[i:i+1], dims, n, **kw)
        close(np.array([e1[0], k1[0]]), np.array([ex[i], co[i]]), 1e-12,
              "element alone differs from element among others")
    # the sign of the coefficients is irrelevant
    e2, k2 = fit_modal_decay(-c[::-1].copy(), dims, n, **kw)
    close(e2[::-1], ex, 1e-12, "sign/order of the elements matters")
    close(k2[::-1], co, 1e-12, "sign/order of the elements matters")

    with np.errstate(all="ignore"):
        r = np.asarray(estimate_relative_expansion_residual(c, dims, n, **kw))
    need(r.shape == (nel,), f"residual shape {r.shape}")
    need(np.array_equal(c, c0), "coefficients modified")
    for i in range(nel):
        if ex[i] >= -0.5 - 1e-6:
            continue
        p = 2*ex[i] + 1
        exp = co[i]*np.sqrt((n + 1)**p/-p)/np.linalg.norm(c[i])
        need(0 <= r[i] <= 1, f"residual fraction {r[i]}")
        if exp < 1 - 1e-9:
            close(r[i], exp, 1e-11, "relative residual of the extrapolated tail",
                  shape=(), scale=max(exp, 1e-30))


# {{{ skyline

@st.composite
def sky_cases(draw):
    nm = draw(st.integers(2, 12))
    return {"v": draw(st.lists(st.lists(st.floats(0, 100), min_size=nm, max_size=nm),
                               min_size=1, max_size=4))}


def run_sky(case):
    from modepy.modal_decay import skyline_pessimize
    v = np.array(case["v"])
    v0 = v.copy()
    r = arr(skyline_pessimize(v), v.shape)
    need(np.array_equal(v, v0), "argument modified")
    need(np.array_equal(r, np.array([skyline(x) for x in v])), f"skyline of {v}: {r}")
    need(np.array_equal(skyline_pessimize(r), r), "not idempotent")

# }}}


# {{{ scale invariance: known finding

def enum_scale(tier):
    yield {"dims": 1, "n": 6, "c": [1.0, 0.5, 0.2, 0.1, 0.01, 0.001, 0.0001], "factor": 10.0}


def run_scale(case):
    from modepy.modal_decay import fit_modal_decay
    c = np.array([case["c"]])
    e1, k1 = fit_modal_decay(c, case["dims"], case["n"])
    e2, k2 = fit_modal_decay(case["factor"]*c, case["dims"], case["n"])
    close(e2, e1, 1e-9, "exponent changes when the function is multiplied by a constant")
    close(k2, case["factor"]*k1, 1e-9, "constant does not scale with the function")

# }}}


# {{{ functions with known smoothness, through nodes and bases

@st.composite
def smooth_cases(draw):
    dims = draw(st.integers(1, 2))
    return {"dims": dims, "n": draw(st.integers(8, 14 if dims == 1 else 9)),
            "a": draw(st.floats(0.5, 2.0)), "perm": draw(st.integers(0, 3))}


def run_smooth(case):
    """An entire function decays faster than one with a jump; both keep their
    estimate when the element is described by other nodes."""
    import modepy as mp
    from modepy.modal_decay import fit_modal_decay
    d, n = case["dims"], case["n"]
    x = mp.warp_and_blend_nodes(d, n)
    b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
    y = x[:, np.random.default_rng(case["perm"]).permutation(x.shape[1])]
    out = []
    for z in (x, y):
        v = mp.vandermonde(b.functions, z)
        f = np.array([np.exp(case["a"]*z[0]), np.sign(z[0] + 1e-3) + 0.1*z[0]])
        # unit skyline norm
        c = np.linalg.solve(v, f.T).T
        c = c/np.sqrt([[np.sum(skyline(q**2))] for q in c])
        e, _ = fit_modal_decay(c, d, n)
        out.append(e)
    # (coefficients of the smooth function are rounding noise at high order)
    close(out[1][1:], out[0][1:], 1e-6, "node order changes the estimate")
    need(out[0][0] < out[0][1] - 1, f"smooth {out[0][0]} not faster than jump {out[0][1]}")

# }}}


@st.composite
def lay_cases(draw):
    dims = draw(st.integers(1, 3))
    n = draw(st.integers(1, 5) | st.integers(6, {1: 24, 2: 17, 3: 10}[dims]))
    ign = draw(st.integers(0, 3))
    return {"dims": dims, "n": n, "ign": min(ign, n),
            "nel": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)),
            "how": draw(layouts.how()), "many": draw(layouts.sizes)}


def run_lay(case):
    """Coefficient arrays of any type and layout."""
    from modepy import modal_decay as md
    rng = np.random.default_rng(case["seed"])
    m = len(modes(case["dims"], case["n"]))
    c = rng.integers(1, 30, size=(case["nel"], m))*rng.choice([-1, 1], size=(case["nel"], m))
    a = (case["dims"], case["n"], case["ign"])
    layouts.same(lambda v: md.fit_modal_decay(v, *a), [c], case["how"], "fit_modal_decay",
                 1e-11)
    layouts.same(md.skyline_pessimize, [np.abs(c)], case["how"], "skyline_pessimize")
    many = min(case["many"], 5100 if m <= 10 else 1030 if m <= 30 else 260)
    layouts.batch(lambda v: md.fit_modal_decay(v, *a), c.astype(float), many,
                  "fit_modal_decay", axis=0, out=0, tol=1e-11)
    layouts.batch(md.skyline_pessimize, np.abs(c), many, "skyline_pessimize", axis=0, out=0)
    # (the residual is set to zero where it exceeds one: keep away from that)
    c = c*1000
    c[:, 1:] //= 50
    r = quiet(md.estimate_relative_expansion_residual, c.astype(float), *a)
    if np.all(np.isfinite(r)) and np.all(np.abs(r - 1) > 0.01):
        layouts.same(lambda v: quiet(md.estimate_relative_expansion_residual, v, *a), [c],
                     case["how"], "estimate_relative_expansion_residual", 1e-11)
        layouts.batch(lambda v: quiet(md.estimate_relative_expansion_residual, v, *a),
                      c.astype(float), many, "estimate_relative_expansion_residual",
                      axis=0, out=0, tol=1e-11)


SUBS = [
    Sub("layouts", run_lay, strategy=lay_cases(), quick=200, thorough=5000,
        classify=lambda c: [layouts.label(c["how"])]),
    Sub("fit", run_fit, strategy=fit_cases(), quick=400, thorough=20000,
        nontrivial=lambda c: c["n"] > 1, rule="order above one"),
    Sub("skyline", run_sky, strategy=sky_cases(), quick=200, thorough=5000),
    Sub("scale", run_scale, cases=enum_scale),
    Sub("smoothness", run_smooth, strategy=smooth_cases(), quick=30, thorough=1000),
]
