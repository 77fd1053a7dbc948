"""C23: quadrature construction."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import roots_jacobi

from vlib import gen, ref
from vlib.core import Sub, Trivial
from vlib.nodal import node_set, node_spec
from vlib.util import arr, close, need, quiet, raises


ID = "C23"
SCALE = 5
ASSUMPTIONS = [
    "integrands are linearly independent on the domain; Gram matrices have condition"
    " number below 1e8",
    "the integration functional passed in is exact for the products that the routine"
    " documents it needs",
]


# {{{ domains: (points as the integrands expect them, weights, degree)

def domain(spec, deg):
    """Reference cubature of a weighted interval or of a planar convex domain in
    complex coordinates."""
    kind = spec["dom"]
    if kind == "interval":
        x, w = roots_jacobi(deg//2 + 1, spec["al"], spec["be"])
        return x, w
    if kind in ("tri", "tri2"):
        p, w = ref.simplex_quad(2, deg)
    else:
        p, w = ref.tp_quad([1, 1], [deg, deg])
    if kind.endswith("2"):
        a = np.array([[1.1, 0.4], [-0.3, 0.9]])
        p = a @ p + np.array([[0.3], [-0.2]])
        w = w*np.linalg.det(a)
    return p[0] + 1j*p[1], w


@st.composite
def domains(draw):
    d = draw(st.sampled_from(["interval", "tri", "tri2", "sq", "sq2"]))
    out = {"dom": d}
    if d == "interval":
        out["al"] = draw(st.sampled_from([0.0, 0.5, 1.0, 2.5, -0.4]))
        out["be"] = draw(st.sampled_from([0.0, 0.5, 1.0, 2.5, -0.4]))
    return out


class Family:
    """polynomials spanning the polynomials of degree n on the domain; values of all of
    them are cached per point set"""

    def __init__(self, spec, n):
        self.one = spec["dom"] == "interval"
        self.ids = ([(k, 0) for k in range(n + 1)] if self.one else
                    [(k, m) for k in range(n + 1) for m in range(n + 1 - k)])
        self.cache = {}

    def __len__(self):
        return len(self.ids)

    def values(self, z):
        key = (z.shape, z.tobytes())
        if key not in self.cache:
            one = np.ones(z.shape)
            n = max(k for k, _ in self.ids)
            px = [ref.hom_jacobi(0, 0, k, z.real, one) for k in range(n + 1)]
            py = [ref.hom_jacobi(0, 0, k, z.imag, one) for k in range(n + 1)]
            self.cache[key] = np.array([px[k]*(1 if self.one else py[m])
                                        for k, m in self.ids])
        return self.cache[key]

    def combos(self, matrix):
        return [lambda z, r=r: np.tensordot(r, self.values(z), 1) for r in matrix]


def family(spec, n):
    return Family(spec, n)


def combos(fam, seed, cplx):
    """random invertible combinations of the family"""
    rng = np.random.default_rng(seed)
    n = len(fam)
    c = rng.uniform(-1, 1, size=(n, n)) + 2*np.eye(n)
    if cplx:
        c = c + 1j*rng.uniform(-1, 1, size=(n, n))
    return fam.combos(c)


def integrator(x, w):
    calls = []

    def integrate(f):
        v = np.asarray(f(x))
        calls.append(v.shape)
        return np.sum(v*w)
    return integrate

# }}}


# {{{ linear combinations

@st.composite
def comb_cases(draw):
    nb = draw(st.integers(1, 5))
    num = st.floats(-3, 3, allow_subnormal=False, width=32)
    depth = draw(st.integers(1, 3))
    nf = draw(st.integers(1, 4))
    return {"nb": nb, "dim": draw(st.integers(0, 3)), "np": draw(st.integers(1, 4)),
            "cplx": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "depth": depth,
            # number of basis functions used by every inner combination
            "lens": [draw(st.integers(1, nb)) for _ in range(nf)],
            "kind": draw(st.sampled_from(["same", "same", "shuffled", "mixed", "tuple",
                                      "repeated"])),
            "outer": [draw(num) for _ in range(nf)]}


def run_comb(case):
    from modepy.quadrature.construction import LinearCombinationIntegrand, linearly_combine
    rng = np.random.default_rng(case["seed"])
    d, npt = case["dim"], case["np"]
    x = rng.uniform(-1, 1, size=(d, npt) if d else npt)
    s = (lambda z: z) if not d else (lambda z: z[d - 1] + z[0]*0.3)
    base = [lambda z, k=k: np.cos((k + 1)*s(z) + k)*(1j if case["cplx"] and k % 2 else 1)
            for k in range(case["nb"])]
    if case["kind"] == "repeated":
        # the same function several times among those combined
        base = [base[k] for k in rng.integers(0, case["nb"], size=case["nb"])]

    def rnd(n):
        c = rng.uniform(-2, 2, size=n)
        return c + 1j*rng.uniform(-2, 2, size=n) if case["cplx"] else c

    inner, values, cs = [], [], []
    for i, m in enumerate(case["lens"]):
        fs = base[:m]
        if case["kind"] == "shuffled" and i % 2:
            fs = base[::-1][:m]
        if case["kind"] == "mixed" and i % 2:
            inner.append(base[m - 1])
            values.append(base[m - 1](x))
            continue
        c = rnd(m)
        cs.append((c, c.copy()))
        f = LinearCombinationIntegrand(c, tuple(fs) if case["kind"] == "tuple" else fs)
        e = sum(ci*fi(x) for ci, fi in zip(c, fs, strict=True))
        close(f(x), e, 1e-13, "combination", scale=10.0)
        inner.append(f)
        values.append(e)
    for _ in range(case["depth"] - 1):
        m = [rnd(len(inner)) for _ in inner]
        new = [quiet(linearly_combine, c, list(inner)) for c in m]
        values = [sum(ci*v for ci, v in zip(c, values, strict=True)) for c in m]
        cs += [(c, c.copy()) for c in m]
        inner = new
        for f, v in zip(inner, values, strict=True):
            close(f(x), v, 1e-12, "nested combination", shape=v.shape,
                  scale=10.0**(case["depth"] + 1))
    c = np.array(case["outer"])
    n0 = [len(f.functions) for f in inner if hasattr(f, "functions")]
    f = quiet(linearly_combine, c, inner)
    e = sum(ci*v for ci, v in zip(c, values, strict=True))
    close(f(x), e, 1e-12, "linear combination", shape=e.shape,
          scale=10.0**(case["depth"] + 2))
    need([len(g.functions) for g in inner if hasattr(g, "functions")] == n0,
         "functions of an argument modified")
    need(all(np.array_equal(a, b) for a, b in cs), "coefficients modified")
    if case["kind"] == "same":
        # flattened: evaluates every basis function at most once
        count = [0]*len(base)

        def counted(k):
            def g(z):
                count[k] += 1
                return base[k](z)
            return g
        cb = [counted(k) for k in range(len(base))]
        fl = [LinearCombinationIntegrand(rnd(m), cb[:m]) for m in case["lens"]]
        h = linearly_combine(c, fl)
        h(x)
        need(all(k <= 1 for k in count), f"not flattened: evaluations {count}")

# }}}


# {{{ orthogonalization

@st.composite
def orth_cases(draw):
    return {**draw(domains()), "n": draw(st.integers(0, 4)),
            "cplx": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "lc": draw(st.booleans())}


def run_orth(case):
    from modepy.quadrature import construction as constr
    n = case["n"]
    x, w = domain(case, 2*n + 2)
    fam = family(case, n)
    fs = combos(fam, case["seed"], case["cplx"])
    m = len(fs)
    bv = np.array([np.broadcast_to(f(x), x.shape) for f in fs]).T
    g = (bv.T*w) @ bv.conj()
    k = np.linalg.cond(g)
    if k > 1e8:
        raise Trivial
    arg = fs
    if case["lc"]:
        arg = [constr.LinearCombinationIntegrand(np.eye(m)[i, :i+1], fs[:i+1])
               for i in range(m)]
    onb = quiet(constr.orthogonalize_basis, integrator(x, w), arg)
    need(len(onb) == m, f"{len(onb)} functions, expected {m}")
    v = np.array([arr(f(x), x.shape, "orthogonalized function") for f in onb]).T
    gram = (v.T*w) @ v.conj()
    close(gram, np.eye(m), 1e-13*k, "Gram matrix of the orthogonalized basis", scale=10.0)
    # q_i is a combination of b_0..b_i: coefficients by projection on the given basis
    coef = np.linalg.lstsq(bv*np.sqrt(w)[:, None], v*np.sqrt(w)[:, None], rcond=None)[0]
    close(bv @ coef, v, 1e-12*k, "orthogonalized basis leaves the span", shape=v.shape)
    low = np.tril(coef, -1)
    need(np.max(np.abs(low), initial=0) <= 1e-12*k*(1 + np.abs(coef).max()),
         "function i uses basis functions after i")
    # elsewhere: same combination
    y = x[:3]*0.5
    by = np.array([np.broadcast_to(f(y), y.shape) for f in fs]).T
    vy = np.array([f(y) for f in onb]).T
    close(vy, by @ coef, 1e-11*k, "evaluation at other points", scale=10.0 + np.abs(vy).max())

# }}}


# {{{ node guesses

@st.composite
def guess_cases(draw):
    return {**draw(domains()), "n": draw(st.integers(0, 4)),
            "seed": draw(st.integers(0, 10**6)), "cplx": draw(st.booleans()),
            "shift": [draw(st.floats(-2, 2, width=32)), draw(st.floats(-2, 2, width=32))]}


def match(a, b):
    """Distance of two multisets, by power sums: unlike the (possibly defective)
    eigenvalues themselves these are well-conditioned."""
    r = 2.0
    return max(abs(np.sum((a/r)**k) - np.sum((b/r)**k)) for k in range(1, len(a) + 1))


def run_guess(case):
    from modepy.quadrature import construction as constr
    n = case["n"]
    x, w = domain(case, 2*n + 3)
    fam = family(case, n)
    m = len(fam)
    v = fam.values(x).T
    g = (v.T*w) @ v
    c = np.linalg.inv(np.linalg.cholesky(g))
    if case["cplx"]:
        rng = np.random.default_rng(case["seed"])
        q, _ = np.linalg.qr(rng.normal(size=(m, m)) + 1j*rng.normal(size=(m, m)))
        c = q @ c
    onb = fam.combos(c)
    z = arr(constr.guess_nodes_vioreanu_rokhlin(integrator(x, w), onb), (m,), "nodes")
    if case["dom"] == "interval":
        e = np.sort(roots_jacobi(n + 1, case["al"], case["be"])[0])
        need(np.max(np.abs(z.imag)) < 1e-10, "complex nodes on an interval")
        close(np.sort(z.real), e, 1e-11, "nodes on an interval are the Gauss nodes")
        return
    # operator in the reference basis
    o = np.array([f(x) for f in onb]).T
    a = (o.T*w*x) @ o.conj()
    tol = 1e-11*m
    need(match(z, np.linalg.eigvals(a)) < tol, "eigenvalues of the multiplication operator")
    close(np.sum(z), np.trace(a), 1e-11, "sum of the nodes", shape=(), scale=1.0*m)
    # inside the (convex) domain: numerical range
    p = np.array([z.real, z.imag])
    if case["dom"].endswith("2"):
        am = np.array([[1.1, 0.4], [-0.3, 0.9]])
        p = np.linalg.solve(am, p - np.array([[0.3], [-0.2]]))
    ins = (np.all(np.abs(p) <= 1 + 1e-9, axis=0) if case["dom"].startswith("sq")
           else ref.inside([2], p, 1e-9))
    need(np.all(ins), "node outside the convex domain")
    # symmetry: every symmetry of the element that is complex-affine or antiholomorphic
    if case["dom"] == "sq":
        need(match(1j*z, z) < tol, "nodes do not obey the symmetry of the square")
    if case["dom"] in ("sq", ):
        need(match(z.conj(), z) < tol, "nodes do not obey the reflection")
    if case["dom"] == "tri":
        need(match(1j*z.conj(), z) < tol, "nodes do not obey the symmetry of the triangle")
    # translation moves the nodes
    s = complex(*case["shift"])
    onb2 = [lambda zz, f=f: f(zz - s) for f in onb]
    z2 = constr.guess_nodes_vioreanu_rokhlin(integrator(x + s, w), onb2)
    need(match(z2 - s, z) < tol, "nodes do not move with the domain")


@st.composite
def adapt_cases(draw):
    return {"n": draw(st.integers(0, 6)), "seed": draw(st.integers(0, 10**6)),
            "shape": draw(st.sampled_from([[], [1], [5], [2, 3]]))}


def run_adapt(case):
    import modepy as mp
    from modepy.quadrature.construction import adapt_2d_integrands_to_complex_arg
    rng = np.random.default_rng(case["seed"])
    # inside the simplex
    u = np.sort(rng.uniform(0, 1, size=(2, *case["shape"])), axis=0)
    p = np.array([2*u[0] - 1, 2*(u[1] - u[0]) - 1])
    b = mp.orthonormal_basis_for_space(mp.PN(2, case["n"]), mp.Simplex(2))
    fs = adapt_2d_integrands_to_complex_arg(b.functions)
    need(len(fs) == len(b.functions), "number of functions")
    for f, mid in zip(fs, b.mode_ids, strict=True):
        e = ref.simplex_onb(2, mid, p)
        close(f(p[0] + 1j*p[1]), e, 1e-10, "adapted function", shape=e.shape)

# }}}


# {{{ weights

@st.composite
def weight_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=40,
                                 max_order=8))
    return {**c, "nodes": draw(node_spec()), "seed": draw(st.integers(0, 10**6)),
            "kind": draw(st.sampled_from(["square", "over", "incons", "under", "cplx",
                                            "twice", "dup", "scaled", "scaled"])),
            "extra": draw(st.integers(1, 8)), "flat": draw(st.booleans())}


def run_weights(case):
    from modepy.quadrature.construction import find_weights_undetermined_coefficients as fw
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    mids = ref.tp_mids(dims, orders)
    x = node_set(case["nodes"], s, order)
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    fs = [lambda p, m=m: ref.tp_onb(dims, m, p) for m in mids]
    xq, wq = ref.tp_quad(dims, orders)
    ints = np.array([np.sum(np.broadcast_to(f(xq), wq.shape)*wq) for f in fs])
    if kind in ("over", "incons"):
        # fewer nodes than integrands
        keep = max(1, x.shape[1] - case["extra"])
        x = x[:, :keep]
        if kind == "over":
            # consistent right-hand side
            ints = ref.tp_vdm(dims, orders, x).T @ rng.uniform(0.1, 1, size=keep)
    elif kind == "under":
        y = ref.tp_quad(dims, orders)[0][:, :case["extra"]]
        x = np.hstack([x, 0.7*y - 0.05])
    elif kind == "cplx":
        q, _ = np.linalg.qr(rng.normal(size=(len(fs),)*2) + 1j*rng.normal(size=(len(fs),)*2))
        base = fs
        fs = [lambda p, r=r: sum(ri*f(p) for ri, f in zip(r, base, strict=True)) for r in q]
        ints = q @ ints
    elif kind == "twice":
        # the square system has a node twice: many solutions
        if len(fs) < 2:
            raise Trivial
        i, j = rng.permutation(len(fs))[:2]
        x[:, i] = x[:, j]
        ints = ref.tp_vdm(dims, orders, x).T @ rng.uniform(0.1, 1, size=len(fs))
    elif kind == "dup":
        # an integrand that is a combination of others
        if len(fs) < 2:
            raise Trivial
        c = rng.uniform(-1, 1, size=len(fs) - 1)
        base, i = fs[:-1], int(rng.integers(0, len(fs)))
        comb = lambda p: sum(ci*f(p) for ci, f in zip(c, base, strict=True))  # noqa: E731
        fs = [*base[:i], comb, *base[i:]]
        ints = np.array([*ints[:i], c @ ints[:-1], *ints[i:-1]])
    elif kind == "scaled":
        # units: integrands of very different magnitude
        u = 10.0**(-case["extra"]*rng.uniform(0, 1.1, size=len(fs)))
        fs = [lambda p, f=f, ui=ui: ui*f(p) for f, ui in zip(fs, u, strict=True)]
        ints = u*ints
    v = np.array([np.broadcast_to(f(x), x.shape[1:]) for f in fs]).T
    sv = np.linalg.svd(v)[1]
    if kind in ("twice", "dup"):
        # one singular value is zero (well below the cutoff of lstsq), the others are not
        if sv[-1] > 0.25*np.finfo(float).eps*len(sv)*sv[0]:
            raise Trivial
        sv = sv[:-1]
    if sv.min() < (1e-7 if kind != "scaled" else 1e-9)*sv.max():
        raise Trivial
    k = sv.max()/sv.min()
    arg = x[0] if case["flat"] and len(x) == 1 else x
    fsa = [lambda p, f=f: f(p[np.newaxis]) for f in fs] if arg.ndim == 1 else fs
    x0, i0 = x.copy(), ints.copy()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        w = arr(fw(fsa, arg, ints), (x.shape[1],), "weights")
    need(np.array_equal(x0, x) and np.array_equal(i0, ints), "argument modified")
    under = any("nderdetermined" in str(r.message) for r in rec)
    need(under == (len(fs) < x.shape[1]), f"underdetermined warning: {under} for"
         f" {len(fs)} integrands and {x.shape[1]} nodes")
    resid = v.T @ w - ints
    sc = np.abs(ints).max() + np.abs(w).max()*sv.max() + (kind != "scaled")
    if kind == "scaled":
        close(resid, np.zeros(len(fs)), 1e-12*sc + 2e-15*k*np.abs(ints).max(),
              "integrals not reproduced", scale=1.0)
    elif kind != "incons":
        close(resid, np.zeros(len(fs)), 1e-13*k, "integrals not reproduced", scale=10*sc)
    else:
        # normal equations
        close(v.conj() @ resid, np.zeros(x.shape[1]), 1e-12*k, "not the least-squares solution",
              scale=sc*sv.max())
    if kind in ("twice", "dup"):
        e = np.linalg.pinv(v.T, rcond=1e-10) @ ints
        close(w, e, 1e-11*k, "not the minimum-norm solution", scale=10 + np.abs(e).max())
    if kind == "under":
        e = np.linalg.pinv(v.T) @ ints
        close(w, e, 1e-12*k, "not the minimum-norm solution", scale=10 + np.abs(e).max())
    raises(ValueError, lambda: fw(fsa, arg, ints[:-1]) if len(ints) > 1
           else fw(fsa, arg, np.zeros(3)), "mismatched number of integrals")

# }}}


# {{{ residual, Jacobian, Gauss-Newton

@st.composite
def newton_cases(draw):
    c = draw(gen.shape_and_order(["S1", "S1", *gen.ALL, *gen.MANY],
                                 max_dofs=30, max_order=9, min_order=1))
    return {**c, "n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 10**6)),
            "flat": draw(st.booleans())}


def run_jac(case):
    from modepy.quadrature import construction as constr
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    d, n = sum(dims), case["n"]
    mids = ref.tp_mids(dims, orders)
    rng = np.random.default_rng(case["seed"])
    x = rng.uniform(-0.9, 0.9, size=(d, n))
    w = rng.uniform(-1, 1, size=n)
    ints = rng.uniform(-1, 1, size=len(mids))
    flat = case["flat"] and d == 1

    def lift(p):
        return p[np.newaxis] if flat else p
    fs = [lambda p, m=m: ref.tp_onb(dims, m, lift(p)) for m in mids]
    ds = [[lambda p, m=m, a=a: ref.grad_cs(lambda q: ref.tp_onb(dims, m, q), lift(p))[a]
           for m in mids] for a in range(d)]
    arg = x[0] if flat else x
    q = constr.quad_residual_and_jacobian(arg, w, fs, ds, ints)
    v = ref.tp_vdm(dims, orders, x)
    gv = ref.tp_grad_vdm(dims, orders, x)
    sc = 1 + np.abs(v).max()*n
    close(q.residual, v.T @ w - ints, 1e-12, "residual", scale=sc)
    close(q.dresid_dweights, v.T, 1e-13, "weight Jacobian", scale=sc)
    e = np.hstack([gv[a].T*w for a in range(d)])
    close(q.dresid_dnodes, e, 1e-11, "node Jacobian", scale=1 + np.abs(gv).max())
    # directional derivative of the residual
    h = 1e-6
    dx, dw = rng.uniform(-1, 1, size=(d, n)), rng.uniform(-1, 1, size=n)

    def res(t):
        return constr.quad_residual_and_jacobian(
            (x + t*dx)[0] if flat else x + t*dx, w + t*dw, fs, ds, ints).residual
    fd = (res(h) - res(-h))/(2*h)
    close(q.dresid_dweights @ dw + q.dresid_dnodes @ dx.reshape(-1), fd, 1e-6,
          "directional derivative", shape=fd.shape, scale=1 + np.abs(gv).max()*n*d)
    # increment: minimum-norm least-squares solution, split per axis
    iw, ix = constr.quad_gauss_newton_increment(q)
    jac = np.hstack([v.T, e])
    sv = np.linalg.svd(jac)[1]
    if sv.min() > 1e-6*sv.max():
        inc = -np.linalg.pinv(jac) @ (v.T @ w - ints)
        k = sv.max()/sv.min()
        close(iw, inc[:n], 1e-11*k, "weight increment", scale=1 + np.abs(inc).max())
        close(ix, inc[n:].reshape(d, n), 1e-11*k, "node increment",
              scale=1 + np.abs(inc).max())
    raises(ValueError, lambda: constr.quad_residual_and_jacobian(arg, w, fs, ds[:-1], ints),
           "too few axes")
    if len(mids) > 1:
        raises(ValueError, lambda: constr.quad_residual_and_jacobian(
            arg, w, fs, [a[:-1] for a in ds], ints), "too few derivatives")


@st.composite
def conv_cases(draw):
    return {"n": draw(st.integers(1, 8)), "al": draw(st.sampled_from([0.0, 0.5, 1.5])),
            "be": draw(st.sampled_from([0.0, 0.5, 1.5])),
            "seed": draw(st.integers(0, 10**6)), "flat": draw(st.booleans())}


def run_conv(case):
    """Gauss-Newton from a perturbed Gauss rule returns to the Gauss rule."""
    from modepy.quadrature import construction as constr
    n, al, be = case["n"], case["al"], case["be"]
    xg, wg = roots_jacobi(n, al, be)
    xq, wq = roots_jacobi(n + 1, al, be)
    rng = np.random.default_rng(case["seed"])
    gap = min(np.diff(np.concatenate([[-1], np.sort(xg), [1]])))

    def p(k):
        return lambda z: ref.hom_jacobi(0, 0, k, np.atleast_2d(z)[0], 1.0)

    def dp(k):
        return lambda z: ref.grad_cs(lambda y: ref.hom_jacobi(0, 0, k, y[0], 1.0),
                                     np.atleast_2d(z))[0]
    fs = [p(k) for k in range(2*n)]
    ds = [[dp(k) for k in range(2*n)]]
    ints = np.array([np.sum(np.broadcast_to(f(xq), wq.shape)*wq) for f in fs])
    x = xg + rng.uniform(-0.02, 0.02, size=n)*gap
    w = wg*(1 + rng.uniform(-0.02, 0.02, size=n))
    x = x if case["flat"] else x.reshape(1, -1)
    for _ in range(12):
        q = constr.quad_residual_and_jacobian(x, w, fs, ds, ints)
        iw, ix = constr.quad_gauss_newton_increment(q)
        need(ix.shape == (1, n) and iw.shape == (n,), f"increment shapes {iw.shape} {ix.shape}")
        w = w + iw
        x = x + (ix[0] if case["flat"] else ix)
    close(np.ravel(x), xg, 1e-10, "nodes of the Gauss rule", scale=1.0)
    close(w, wg, 1e-10, "weights of the Gauss rule")

# }}}


SUBS = [
    Sub("combine", run_comb, strategy=comb_cases(), quick=300, thorough=10000,
        nontrivial=lambda c: len(c["lens"]) > 1, rule="at least two functions combined"),
    Sub("orthogonalize", run_orth, strategy=orth_cases(), quick=150, thorough=4000,
        nontrivial=lambda c: c["n"] > 0, rule="more than one basis function"),
    Sub("guess", run_guess, strategy=guess_cases(), quick=120, thorough=4000,
        nontrivial=lambda c: c["n"] > 0, rule="more than one node"),
    Sub("adapt", run_adapt, strategy=adapt_cases(), quick=60, thorough=1000),
    Sub("weights", run_weights, strategy=weight_cases(), quick=250, thorough=8000,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one integrand"),
    Sub("jacobian", run_jac, strategy=newton_cases(), quick=150, thorough=4000,
        nontrivial=lambda c: c["n"] > 1, rule="more than one node"),
    Sub("newton", run_conv, strategy=conv_cases(), quick=60, thorough=2000,
        nontrivial=lambda c: c["n"] > 1, rule="more than one node"),
]
