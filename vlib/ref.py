"""Reference oracles that share no code with modepy.

Orthonormal polynomials are evaluated through *homogeneous* three-term recurrences
(no division, hence no singular points), which also accept complex arguments: their
derivatives come from complex-step differentiation, exact to rounding.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np
from scipy.special import gammaln, roots_jacobi


# {{{ 1D orthogonal polynomials

def hom_jacobi(al: float, be: float, n: int, x, t):
    """t**n * P_n^{(al,be)}(x/t), conventional normalisation, by the textbook
    recurrence (DLMF 18.9.2) made homogeneous."""
    x = np.asarray(x)
    t = np.asarray(t)
    p0 = np.ones_like(x * t)
    if n == 0:
        return p0
    p1 = ((al + be + 2) * x + (al - be) * t) / 2
    for k in range(1, n):
        c = 2 * k + al + be
        a1 = 2 * (k + 1) * (k + al + be + 1) * c
        a2 = (c + 1) * (al * al - be * be)
        a3 = c * (c + 1) * (c + 2)
        a4 = 2 * (k + al) * (k + be) * (c + 2)
        p0, p1 = p1, ((a3 * x + a2 * t) * p1 - a4 * t * t * p0) / a1
    return p1


def jacobi_norm(al: float, be: float, n: int) -> float:
    """L2 norm of the conventional Jacobi polynomial."""
    if n == 0:
        lg = ((al + be + 1) * math.log(2) + gammaln(al + 1) + gammaln(be + 1)
              - gammaln(al + be + 2))
    else:
        lg = ((al + be + 1) * math.log(2) - math.log(2 * n + al + be + 1)
              + gammaln(n + al + 1) + gammaln(n + be + 1)
              - gammaln(n + al + be + 1) - gammaln(n + 1))
    return math.exp(lg / 2)


def mp_jacobi(al: float, be: float, n: int, x: float, diff: int = 0):
    """Orthonormal Jacobi polynomial (or a derivative) with 50 digits, via the
    hypergeometric sum about x = 1."""
    import mpmath as mp
    with mp.workdps(60 + 2 * n):
        al, be, x = mp.mpf(al), mp.mpf(be), mp.mpf(x)
        # P_n = (al+1)_n/n! sum_k (-n)_k (n+al+be+1)_k/(al+1)_k/k! ((1-x)/2)^k
        z = (1 - x) / 2
        s = mp.mpf(0)
        coef = mp.rf(al + 1, n) / mp.factorial(n)
        for k in range(n + 1):
            if k >= diff:
                fall = mp.mpf(1)
                for q in range(diff):
                    fall *= (k - q)
                s += coef * fall * (z ** (k - diff)) * (-mp.mpf(1) / 2) ** diff
            coef = coef * (-n + k) * (n + al + be + 1 + k) / (al + 1 + k) / (k + 1)
        if n == 0:
            nrm2 = mp.power(2, al + be + 1) * mp.beta(al + 1, be + 1)
        else:
            nrm2 = (mp.power(2, al + be + 1) / (2 * n + al + be + 1)
                    * mp.gamma(n + al + 1) * mp.gamma(n + be + 1)
                    / mp.gamma(n + al + be + 1) / mp.factorial(n))
        return s / mp.sqrt(nrm2), s

# }}}


# {{{ simplex orthonormal basis

def simplex_onb(d: int, mid: tuple[int, ...], x: np.ndarray) -> np.ndarray:
    """Orthonormal Proriol-Koornwinder-Dubiner polynomial *mid* on the bi-unit
    simplex of dimension *d* at *x* of shape (d, ...)."""
    if d == 0:
        return np.ones(x.shape[1:])
    if d == 1:
        i, = mid
        return hom_jacobi(0, 0, i, x[0], np.ones_like(x[0])) * math.sqrt((2*i+1)/2)
    if d == 2:
        r, s = x
        i, j = mid
        p = hom_jacobi(0, 0, i, (1 + 2*r + s)/2, (1 - s)/2)
        q = hom_jacobi(2*i + 1, 0, j, s, np.ones_like(s))
        return math.sqrt((2*i + 1)*(i + j + 1)/2) * p * q
    if d == 3:
        r, s, t = x
        i, j, k = mid
        p = hom_jacobi(0, 0, i, (2 + 2*r + s + t)/2, (-s - t)/2)
        q = hom_jacobi(2*i + 1, 0, j, (1 + 2*s + t)/2, (1 - t)/2)
        u = hom_jacobi(2*i + 2*j + 2, 0, k, t, np.ones_like(t))
        nrm = math.sqrt((2*i + 1)*(i + j + 1)*(2*(i + j + k) + 3)/4)
        return nrm * p * q * u
    raise NotImplementedError


def simplex_mids(d: int, n: int) -> list[tuple[int, ...]]:
    return [t for t in itertools.product(range(n + 1), repeat=d) if sum(t) <= n]


def tp_onb(dims, mids, x):
    """Product over the factors; *mids* is one tuple per factor."""
    res = 1
    o = 0
    for d, m in zip(dims, mids, strict=True):
        res = res * simplex_onb(d, m, x[o:o + d])
        o += d
    return res


def grad_cs(f, x: np.ndarray) -> np.ndarray:
    """Gradient by complex step: shape (d, ...)."""
    h = 1e-40
    out = []
    for ax in range(x.shape[0]):
        z = x.astype(complex)
        z[ax] += 1j * h
        out.append(f(z).imag / h)
    return np.array(out)


def tp_mids(dims, orders) -> list[tuple[tuple[int, ...], ...]]:
    """Mode indices of the tensor product, first factor fastest."""
    per = [simplex_mids(d, n) for d, n in zip(dims, orders, strict=True)]
    return [t[::-1] for t in itertools.product(*per[::-1])]


def hom_jacobi_upto(al: float, be: float, n: int, x, t) -> list:
    """[hom_jacobi(al, be, k, x, t) for k in range(n + 1)] in one pass."""
    x = np.asarray(x)
    t = np.asarray(t)
    out = [np.ones_like(x * t), ((al + be + 2) * x + (al - be) * t) / 2]
    for k in range(1, n):
        c = 2 * k + al + be
        a1 = 2 * (k + 1) * (k + al + be + 1) * c
        a2 = (c + 1) * (al * al - be * be)
        a3 = c * (c + 1) * (c + 2)
        a4 = 2 * (k + al) * (k + be) * (c + 2)
        out.append(((a3 * x + a2 * t) * out[-1] - a4 * t * t * out[-2]) / a1)
    return out[:n + 1]


def simplex_vdm(d: int, n: int, x) -> np.ndarray:
    """(nmodes, ...) values of simplex_onb for all simplex_mids(d, n)."""
    mids = simplex_mids(d, n)
    if d == 0:
        return np.ones((1, *x.shape[1:]))
    if d == 1:
        p = hom_jacobi_upto(0, 0, n, x[0], np.ones_like(x[0]))
        return np.array([math.sqrt((2*i + 1)/2) * p[i] for i, in mids])
    if d == 2:
        r, s = x
        p = hom_jacobi_upto(0, 0, n, (1 + 2*r + s)/2, (1 - s)/2)
        q = [hom_jacobi_upto(2*i + 1, 0, n - i, s, np.ones_like(s))
             for i in range(n + 1)]
        return np.array([math.sqrt((2*i + 1)*(i + j + 1)/2) * p[i] * q[i][j]
                         for i, j in mids])
    if d == 3:
        r, s, t = x
        p = hom_jacobi_upto(0, 0, n, (2 + 2*r + s + t)/2, (-s - t)/2)
        q = [hom_jacobi_upto(2*i + 1, 0, n - i, (1 + 2*s + t)/2, (1 - t)/2)
             for i in range(n + 1)]
        u = [hom_jacobi_upto(2*i + 2, 0, n - i, t, np.ones_like(t))
             for i in range(n + 1)]
        return np.array([
            math.sqrt((2*i + 1)*(i + j + 1)*(2*(i + j + k) + 3)/4)
            * p[i] * q[i][j] * u[i + j][k] for i, j, k in mids])
    raise NotImplementedError


def _vdm(dims, orders, x) -> np.ndarray:
    """(nmodes, ...)"""
    res = None
    o = 0
    for d, n in zip(dims, orders, strict=True):
        f = simplex_vdm(d, n, x[o:o + d])
        o += d
        # first factor fastest
        res = f if res is None else \
            (f[:, None] * res[None, :]).reshape(-1, *f.shape[1:])
    if res is None:
        return np.ones((1, *x.shape[1:]))
    return res


def tp_vdm(dims, orders, x) -> np.ndarray:
    """(npts, nmodes) values of a complete orthonormal reference basis."""
    return np.ascontiguousarray(_vdm(dims, orders, x).T)


def tp_grad_vdm(dims, orders, x) -> np.ndarray:
    """(dim, npts, nmodes)"""
    return grad_cs(lambda z: _vdm(dims, orders, z), x).transpose(0, 2, 1)

# }}}


# {{{ quadrature

@lru_cache(maxsize=None)
def simplex_quad(d: int, deg: int) -> tuple[np.ndarray, np.ndarray]:
    """Collapsed Gauss-Jacobi rule on the bi-unit simplex exact to *deg*."""
    n = deg // 2 + 1
    if d == 0:
        return np.zeros((0, 1)), np.ones(1)
    rules = [roots_jacobi(n, k, 0) for k in range(d)]
    if d == 1:
        x, w = rules[0]
        return x.reshape(1, -1), w
    if d == 2:
        a, b = np.meshgrid(rules[0][0], rules[1][0], indexing="ij")
        w = np.outer(rules[0][1], rules[1][1])/2
        r = (1 + a)*(1 - b)/2 - 1
        return np.array([r.ravel(), b.ravel()]), w.ravel()
    if d == 3:
        a, b, c = np.meshgrid(*[q[0] for q in rules], indexing="ij")
        w = np.einsum("i,j,k->ijk", *[q[1] for q in rules])/8
        s = (1 + b)*(1 - c)/2 - 1
        r = (1 + a)*(-s - c)/2 - 1
        return np.array([r.ravel(), s.ravel(), c.ravel()]), w.ravel()
    # general: eta_k of weight (1 - eta_k)^k in coordinate k, from the last one down
    eta = np.meshgrid(*[q[0] for q in rules], indexing="ij")
    w = np.ones(())
    for q in rules:
        w = np.multiply.outer(w, q[1])
    x = [None]*d
    rest = np.ones_like(eta[0])             # 1 - sum of the barycentric coordinates so far
    for k in reversed(range(d)):
        lam = rest*(1 + eta[k])/2
        x[k] = (2*lam - 1).ravel()
        rest = rest - lam
    return np.array(x), w.ravel()/2.0**(d*(d - 1)//2)


def tp_quad(dims, degs) -> tuple[np.ndarray, np.ndarray]:
    x = np.zeros((0, 1))
    w = np.ones(1)
    for d, deg in zip(dims, degs, strict=True):
        xi, wi = simplex_quad(d, deg)
        n, m = x.shape[1], xi.shape[1]
        x = np.vstack([np.repeat(x, m, axis=1), np.tile(xi, (1, n))])
        w = np.repeat(w, m) * np.tile(wi, n)
    return x, w


def simplex_volume(d: int) -> float:
    return 2.0**d / math.factorial(d)


def simplex_monomial_integral(exps) -> Fraction:
    """Exact integral of prod x_i**e_i over the bi-unit simplex."""
    d = len(exps)
    total = Fraction(0)
    for ks in itertools.product(*[range(e + 1) for e in exps]):
        # x = 2 lam - 1
        c = Fraction(1)
        for e, k in zip(exps, ks, strict=True):
            c *= math.comb(e, k) * Fraction(2)**k * Fraction(-1)**(e - k)
        num = math.prod(math.factorial(k) for k in ks)
        total += c * Fraction(num, math.factorial(sum(ks) + d))
    return total * 2**d


def cube_monomial_integral(exps) -> Fraction:
    r = Fraction(1)
    for e in exps:
        r *= Fraction(2, e + 1) if e % 2 == 0 else 0
    return r

# }}}


# {{{ geometry

def inside(dims, x: np.ndarray, tol: float = 1e-12) -> np.ndarray:
    """Boolean per point: inside the tensor product of bi-unit simplices."""
    ok = np.ones(x.shape[1:], dtype=bool)
    o = 0
    for d in dims:
        xs = x[o:o + d]
        ok &= np.all(xs >= -1 - tol, axis=0)
        ok &= np.sum(xs, axis=0) <= (2 - d) + tol
        o += d
    return ok


def vertices(dims) -> np.ndarray:
    """Vertices, first factor fastest."""
    per = []
    for d in dims:
        v = [(-1.0,) * d]
        for i in range(d):
            v.append(tuple(1.0 if j == i else -1.0 for j in range(d)))
        per.append(v)
    out = [sum(t[::-1], ()) for t in itertools.product(*per[::-1])]
    return np.array(out, dtype=float).reshape(len(out), sum(dims)).T

# }}}
