"""C11: adaptive Gauss-Kronrod quadrature."""
from __future__ import annotations

import cmath
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Sub
from vlib.util import fail, need, raises


ID = "C11"
SCALE = 4
ASSUMPTIONS = [
    "an h-adaptive method that samples its integrand cannot be right for every function:"
    " integrands are smooth between the break points (or have an integrable end-point"
    " singularity) and have no features much smaller than a segment",
    "break points of (half-)infinite intervals are monotone",
]

INF = {"inf": math.inf, "-inf": -math.inf}


def pt(p):
    if isinstance(p, str):
        return INF[p]
    if isinstance(p, list):
        return complex(*p)
    return p


# {{{ integrands with antiderivatives

def f_poly(c):
    def f(x):
        r = 0.0
        for ck in reversed(c):
            r = r * x + ck
        return r

    def anti(x):
        r = 0.0
        for k, ck in reversed(list(enumerate(c))):
            r = r * x + ck / (k + 1)
        return r * x
    return f, anti


def f_exp(k, w, amp):
    """amp * exp((k + iw) x): complex valued."""
    z = complex(k, w)

    def f(x):
        return amp * np.exp(z * x)

    def anti(x):
        return amp * cmath.exp(z * x) / z
    return f, anti


def f_cos(w, ph):
    return (lambda x: np.cos(w*x + ph)), (lambda x: math.sin(w*x + ph)/w)


def f_abs(c):
    return (lambda x: abs(x - c)), (lambda x: (x - c)*abs(x - c)/2)


def f_lor(c, s, m):
    def anti(x):
        return s * math.atan((x - c)/s)
    return (lambda x: 1/(1 + ((x - c)/s)**2)), anti


def f_gauss(c, s, m):
    def anti(x):
        return math.sqrt(math.pi)/2 * s * math.erf((x - c)/s)
    return (lambda x: np.exp(-((x - c)/s)**2)), anti


def f_decay(k, s0):
    """exp(k (x - s0)); on a half line that ends at s0."""
    def anti(x):
        t = k*(x - s0)
        return 0.0 if t == -math.inf else math.exp(t)/k
    return (lambda x: np.exp(k*(x - s0))), anti


def f_pow(p):
    return (lambda x: x**p), (lambda x: x**(p + 1)/(p + 1))


FAM = {"poly": f_poly, "exp": f_exp, "cos": f_cos, "abs": f_abs, "lor": f_lor,
       "gauss": f_gauss, "decay": f_decay, "pow": f_pow}

# }}}


def run_integral(case):
    from modepy.quadrature.kronrod import quadgk
    k = case["fam"]
    args = case["args"]
    f, anti = FAM[k](args) if k == "poly" else FAM[k](*args)
    p = [pt(x) for x in case["pts"]]
    # z*f + c: one of the parts of a complex integrand may be much harder than the other
    z = complex(*case["z"]) if "z" in case else 1.0
    c = complex(*case["c"]) if "c" in case else 0.0
    if c and any(abs(x) == math.inf for x in p):
        c = 0.0
    true = z*(anti(p[-1]) - anti(p[0]))
    if c:
        true += c*(p[-1] - p[0])
    n, maxevals = case["order"], case["maxevals"]
    abstol, reltol = case["abstol"], case["reltol"]
    count = 0
    biggest = 0.0

    def g(x):
        nonlocal count, biggest
        count += 1
        v = z*f(x) + c
        biggest = max(biggest, abs(v))
        return v

    res = quadgk(g, *p, abstol=abstol, reltol=reltol, maxevals=maxevals, order=n)
    need(isinstance(res, tuple) and len(res) == 2, f"returned {res!r}")
    val, err = complex(res[0]), float(res[1])
    need(math.isfinite(abs(val)) and math.isfinite(err) and err >= 0, f"{res!r}")
    what = f"quadgk({z}*{k}{args} + {c}, {p}, order={n}): {val} +- {err}, true {true},"
    # budget
    limit = max(maxevals + 4*n + 2, (2*n + 1)*(len(p) - 1))
    need(count <= limit, f"{what} {count} evaluations, budget {maxevals}")
    # rounding: sums of values of the size of what was integrated
    finite = [x for x in p if abs(x) != math.inf]
    length = sum(abs(b - a) for a, b in zip(finite[:-1], finite[1:], strict=True))
    # values on (half-)infinite intervals are transformed; these families are O(1)
    rnd = 2e-13 * (1 + abs(true) + biggest*(length + 4 + max(map(abs, finite),
                                                            default=0)))
    tol = max(abstol, reltol*abs(val))
    if err > tol*(1 + 1e-6) + rnd:
        # not converged: only legitimate when the budget is used up
        need(count + 4*n + 2 > maxevals,
             f"{what} stopped after {count} of {maxevals} evaluations above the"
             f" requested tolerance {tol}")
        # nothing is promised about an estimate that is reported as not converged
        return
    # (the estimate is a difference of two rules: a coincidence at the level of the
    # tolerance is possible)
    slack = 20.0 if k == "pow" else 3.0
    if abs(val - true) > slack*err + 10*tol + rnd:
        fail(f"{what} wrong by {abs(val - true):.3e}, more than the reported error")


nice = st.one_of(st.integers(-3, 3), st.floats(-4, 4, width=32, allow_subnormal=False))


@st.composite
def _integral(draw):
    fam = draw(st.sampled_from(["poly", "poly", "exp", "cos", "abs", "lor", "gauss",
                                "decay", "pow", "lor", "gauss", "decay"]))
    order = draw(st.sampled_from([7, 7, 7, 4, 5, 6, 8, 10, 13, 15]))
    c = {"fam": fam, "order": order,
         "abstol": draw(st.sampled_from([1e-6, 1e-8, 1e-10, 1e-12])),
         "reltol": draw(st.sampled_from([0.0, 1e-6, 1.49e-8, 1e-10])),
         "maxevals": draw(st.sampled_from([20000, 20000, 5000, 300, 50, 1]))}

    def fin(k, lo=-4.0, hi=4.0):
        f = st.one_of(st.integers(math.ceil(lo), math.floor(hi)),
                      st.floats(lo, hi, width=32, allow_subnormal=False))
        return draw(st.lists(f, min_size=k, max_size=k, unique=True))

    nb = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if fam == "poly":
        c["order"] = draw(st.integers(1, 15))
        deg = draw(st.integers(0, min(3*c["order"] + 1, 8)))
        c["args"] = draw(st.lists(st.floats(-2, 2, width=16, allow_subnormal=False),
                                  min_size=deg + 1, max_size=deg + 1))
        c["pts"] = fin(2 + nb)
        if draw(st.booleans()):
            c["pts"].sort()
    elif fam == "exp":
        w = draw(st.sampled_from([0.5, 1.0, -2.0, 3.5, 6.0]))
        c["args"] = [draw(st.floats(-1, 1, width=16, allow_subnormal=False)), w,
                     draw(st.sampled_from([1.0, -2.5]))]
        c["pts"] = fin(2 + nb)
        if draw(st.booleans()):
            # along a polygon in the complex plane
            c["pts"] = [[x, y] for x, y in zip(c["pts"], fin(len(c["pts"]), -1, 1),
                                               strict=True)]
    elif fam == "cos":
        c["args"] = [draw(st.sampled_from([0.5, 1.0, 3.0, 10.0, 31.7])),
                     draw(st.floats(-3, 3, width=16, allow_subnormal=False))]
        c["pts"] = fin(2 + nb)
    elif fam == "abs":
        c["args"] = [draw(st.floats(-2, 2, width=32, allow_subnormal=False))]
        a, b = draw(st.floats(-4, -2.5, width=32)), draw(st.floats(2.5, 4, width=32))
        # (a kink inside of a segment can fool the error estimate, which is a
        # difference of two rules)
        c["pts"] = [a, c["args"][0], b]
        if draw(st.booleans()):
            c["pts"].reverse()
    elif fam == "pow":
        c["args"] = [draw(st.sampled_from([-0.5, -0.25, 0.5, -0.6]))]
        c["abstol"] = max(c["abstol"], 1e-8)
        c["pts"] = [0.0, *sorted(fin(1 + nb, 0.25, 3.0))]
        if draw(st.booleans()):
            c["pts"].reverse()
    elif fam in ("lor", "gauss"):
        c["order"] = max(c["order"], 7)
        c["args"] = [draw(st.floats(-2, 2, width=16, allow_subnormal=False)),
                     draw(st.sampled_from([0.75, 1.0, 2.0])), 0]
        mid = sorted(fin(nb + 1, -3, 3))
        kind = draw(st.sampled_from(["both", "pos", "neg", "fin"]))
        c["pts"] = {"both": ["-inf", *mid[:nb], "inf"], "pos": [*mid, "inf"],
                    "neg": ["-inf", *mid], "fin": [-4.0, *mid[:nb], 4.5]}[kind]
        if draw(st.booleans()):
            c["pts"].reverse()
    else:
        c["order"] = max(c["order"], 7)
        s0 = draw(st.one_of(st.integers(-3, 3),
                            st.floats(-3, 3, width=16, allow_subnormal=False)))
        k = draw(st.sampled_from([0.5, 1.0, 2.0]))
        steps = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 0.125]), min_size=nb,
                              max_size=nb))
        if draw(st.booleans()):
            c["args"] = [-k, s0]
            p = [s0]
            for h in steps:
                p.append(p[-1] + h)
            c["pts"] = [*p, "inf"]
        else:
            c["args"] = [k, s0]
            p = [s0]
            for h in steps:
                p.append(p[-1] - h)
            c["pts"] = ["-inf", *p[::-1]]
        if draw(st.booleans()):
            c["pts"].reverse()
    if draw(st.sampled_from([0, 0, 1])):
        c["z"] = draw(st.sampled_from([[0, 1], [0, -1.5], [1, -2], [-1, 0], [0.5, 0.5]]))
        c["c"] = draw(st.sampled_from([[0, 0], [1, 0], [2, 0], [0, 1], [-1, 1]]))
    return c


def _cls(c):
    p = [pt(x) for x in c["pts"]]
    t = [c["fam"]]
    if c.get("z", [1, 0])[1]:
        t.append("complex integrand")
    if any(isinstance(x, complex) for x in p):
        return [*t, "complex path"]
    ninf = sum(abs(x) == math.inf for x in p)
    t.append(["finite", "half-infinite", "infinite"][ninf])
    if p[0] > p[-1]:
        t.append("reversed")
    if len(p) > 2:
        t.append("break points")
    return t


def run_additive(case):
    """Consecutive intervals are summed; reversing negates; a factor scales."""
    from modepy.quadrature.kronrod import quadgk
    p = case["pts"]

    def f(x):
        return np.exp(case["k"]*x) * np.cos(x) + case["c"]
    kw = {"abstol": 1e-12, "maxevals": 20000}
    a = quadgk(f, *p, **kw)[0]
    b = sum(quadgk(f, x, y, **kw)[0] for x, y in zip(p[:-1], p[1:], strict=True))
    sc = 1e-7*(1 + 100*abs(case["c"]) + 1000)
    need(abs(a - b) < sc*1e-1, f"sum over the pieces: {a} != {b}")
    r = quadgk(f, *p[::-1], **kw)[0]
    need(abs(a + r) < sc*1e-1, f"reversed: {a}, {r}")
    z = quadgk(lambda x: (2 - 3j)*f(x), *p, **kw)[0]
    need(abs(z - (2 - 3j)*a) < sc, f"complex factor: {z}, {a}")
    need(abs(quadgk(f, p[0], p[0], abstol=1e-12, maxevals=100)[0]) < 1e-12,
         "empty interval")


def run_first_pass(case):
    """Without a budget for refinement, the result is the Kronrod rule on every interval
    and the reported error the sum of the differences to the embedded Gauss rules."""
    from scipy.special import roots_legendre

    from modepy.quadrature.kronrod import make_kronrod_quadrature, quadgk
    n = case["order"]
    z = complex(*case["z"])
    w, s = case["w"], case["s"]
    vec = np.array([1.0, -2.0, 0.5])
    count = 0

    def g(x):
        return abs(np.sin(w*(x - s))) + z*np.cos(w*x)/(1.5 + x*x)

    def f(x):
        nonlocal count
        count += 1
        return g(x)
    p = case["pts"]
    val, err = quadgk(f, *p, order=n, maxevals=1, abstol=0.0, reltol=0.0)
    need(count == (2*n + 1)*(len(p) - 1), f"{count} evaluations in the first pass over"
         f" {len(p) - 1} intervals of {2*n + 1} points")
    kq = make_kronrod_quadrature(n)     # (decided by C10)
    xg, wg = roots_legendre(n)
    xk = np.concatenate([kq.nodes, kq.gauss_quadrature.nodes])
    wk = np.concatenate([kq.weights, kq.weights_at_gauss_nodes])
    v, e, size = 0.0, 0.0, 0.0
    for a, b in zip(p[:-1], p[1:], strict=True):
        h, m = (b - a)/2, (a + b)/2
        ik = h*sum(wk*[g(m + h*x) for x in xk])
        e += abs(ik - h*sum(wg*[g(m + h*x) for x in xg]))
        v += ik
        size += abs(b - a)*(1 + abs(z))
    tol = 1e-12*(size + 1)*(1 + w)
    need(abs(val - v) <= tol, f"first pass: {val}, Kronrod rule: {v}")
    need(abs(err - e) <= tol, f"first pass: error estimate {err}, differences to the"
         f" Gauss rules: {e}")
    # a refined result reports the error of all its pieces
    if case["refine"]:
        k = case["refine"]
        val, err = quadgk(g, *p, order=n, maxevals=(2*n + 1)*(len(p) - 1 + 2*k),
                          abstol=1e-9, reltol=0.0)
        # the same pieces, obtained by always bisecting the worst one
        segs = []

        def seg(a, b):
            h, m = (b - a)/2, (a + b)/2
            ik = h*sum(wk*[g(m + h*x) for x in xk])
            return (abs(ik - h*sum(wg*[g(m + h*x) for x in xg])), a, b, ik)
        segs = [seg(a, b) for a, b in zip(p[:-1], p[1:], strict=True)]
        while sum(t[0] for t in segs) > 1e-9 and k > 0:
            segs.sort(key=lambda t: t[0])
            if len(segs) > 1 and segs[-1][0] - segs[-2][0] <= 1e-9*segs[-1][0]:
                return      # a tie: either may be refined
            _, a, b, _ = segs.pop()
            segs += [seg(a, (a + b)/2), seg((a + b)/2, b)]
            k -= 1
        te = sum(t[0] for t in segs)
        if abs(te - 1e-9) < 1e-11:
            return
        need(abs(err - te) <= tol, f"refined: error estimate {err}, differences to the"
             f" Gauss rules on the pieces: {te}")
        need(abs(val - sum(t[3] for t in segs)) <= tol, f"refined: {val}")
    # components are treated alike
    if case["vec"]:
        vals = [quadgk(lambda x, c=c: c*g(x), *p, order=n, maxevals=1) for c in vec]
        for c, (vc, ec) in zip(vec, vals, strict=True):
            need(abs(vc - c*v) <= 2*tol and abs(ec - abs(c)*e) <= 2*tol,
                 f"factor {c}: {vc} +- {ec}")


@st.composite
def _first(draw):
    return {"order": draw(st.integers(1, 16)), "w": draw(st.sampled_from(
                [0.5, 1.0, 3.0, 10.0, 25.0])),
            "s": draw(st.floats(-1, 1, width=16)),
            "z": draw(st.sampled_from([[0, 0], [1, 0], [0, 1], [1, -2]])),
            "pts": draw(st.lists(st.one_of(st.integers(-3, 3), st.floats(
                -3, 3, width=16, allow_subnormal=False)), min_size=2, max_size=6,
                unique=True)),
            "refine": draw(st.integers(0, 12)), "vec": draw(st.booleans())}


def run_types(case):
    """The integrand may return any kind of number."""
    from modepy.quadrature.kronrod import quadgk
    cast = {"bool": bool, "bool_": np.bool_, "int": int, "int8": np.int8,
            "uint8": np.uint8, "int16": np.int16, "int64": np.int64,
            "float32": np.float32, "0-d": np.array, "complex": complex,
            "complex64": np.complex64}[case["type"]]
    h, c, kind = case["h"], case["at"], case["kind"]

    def f(x):
        if case["type"] == "uint8":
            return 200 if x > c else 100
        if kind == "step":
            return h if x > c else 0
        if kind == "const":
            return h
        return int(h*np.floor(x))
    p = case["pts"]
    kw = {"order": case["order"], "abstol": 1e-7, "maxevals": 5000}
    n = [0, 0]

    def plain(x):
        n[0] += 1
        return float(bool(f(x)) if case["type"].startswith("bool") else f(x))

    def typed(x):
        n[1] += 1
        return cast(f(x))
    v, e = quadgk(plain, *p, **kw)
    vt, et = quadgk(typed, *p, **kw)
    tol = 1e-5 if case["type"] in ("float32", "complex64") else 1e-9
    sc = 1 + 400*(abs(p[0]) + abs(p[-1]) + 6)
    need(abs(v - vt) <= tol*sc and abs(e - et) <= tol*sc,
         f"{case['type']} integrand: {vt} +- {et}, {v} +- {e} for floats")
    if tol < 1e-6:
        need(n[0] == n[1], f"{n[1]} evaluations of the {case['type']} integrand, {n[0]}"
             " for floats")


@st.composite
def _types(draw):
    return {"type": draw(st.sampled_from(["bool", "bool_", "int", "int8", "uint8", "int16",
                                          "int64", "float32", "0-d", "complex",
                                          "complex64"])),
            "kind": draw(st.sampled_from(["step", "const", "floor"])),
            "h": draw(st.sampled_from([1, 2, -3, 30])), "at": draw(nice),
            "order": draw(st.integers(3, 10)),
            "pts": draw(st.lists(nice, min_size=2, max_size=4, unique=True))}


def run_bad(case):
    from modepy.quadrature.kronrod import quadgk
    k = case["k"]
    if k == "few":
        raises(ValueError, lambda: quadgk(np.cos, *case["pts"]), "too few points")
    else:
        bad = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[k]
        lo, hi = case["lo"], case["hi"]

        def f(x):
            return bad if lo <= x <= hi else 1.0
        raises(ValueError, lambda: quadgk(f, -1.0, 1.0, maxevals=5000, abstol=1e-8,
                                          order=case["order"]),
               f"integrand that returns {k}")


@st.composite
def _bad(draw):
    k = draw(st.sampled_from(["few", "nan", "inf", "-inf"]))
    if k == "few":
        return {"k": k, "pts": draw(st.lists(nice, max_size=1))}
    lo = draw(st.floats(-0.875, 0.25, width=16))
    return {"k": k, "lo": lo, "hi": lo + 0.6, "order": draw(st.integers(3, 10))}


SUBS = [
    Sub("integrals", run_integral, _integral(), quick=2400, shards=6, classify=_cls,
        nontrivial=lambda c: len(c["pts"]) > 2 or len(_cls(c)) > 2
        or c["fam"] != "poly", rule="not a polynomial over one forward interval"),
    Sub("additivity", run_additive, st.fixed_dictionaries({
        "pts": st.lists(st.one_of(st.integers(-3, 3), st.floats(
            -3, 3, width=16, allow_subnormal=False)), min_size=2, max_size=5),
        "k": st.floats(-1, 1, width=16), "c": st.floats(-1, 1, width=16)}),
        quick=200, shards=2, nontrivial=lambda c: len(c["pts"]) > 2,
        rule="at least two pieces"),
    Sub("first_pass", run_first_pass, _first(), quick=300, shards=2,
        nontrivial=lambda c: len(c["pts"]) > 2, rule="at least two intervals"),
    Sub("types", run_types, _types(), quick=200, classify=lambda c: [c["type"]],
        rule="every case"),
    Sub("bad_input", run_bad, _bad(), quick=200, rule="every case"),
]
