"""C04: symbolic basis functions agree with numeric evaluation."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from vlib.util import arr, close, need


ID = "C04"
SCALE = 3
ASSUMPTIONS = ["pymbolic's evaluation and stringification mappers are correct"]
GETTERS = ["orthonormal_basis_for_space", "basis_for_space",
           "monomial_basis_for_space"]


def _mapper(vectorised):
    from pymbolic.mapper.evaluator import EvaluationMapper

    class Vec(EvaluationMapper):
        def map_if(self, expr):
            return np.where(self.rec(expr.condition), self.rec(expr.then),
                            self.rec(expr.else_))

    return Vec if vectorised else EvaluationMapper


def _python_source(expr):
    """Straight-line Python computing *expr*, common subexpressions as variables."""
    from pymbolic.mapper.stringifier import (
        PREC_NONE,
        CSESplittingStringifyMapperMixin,
        StringifyMapper,
    )

    class M(CSESplittingStringifyMapperMixin, StringifyMapper):
        def map_if(self, expr, enclosing_prec, *args, **kwargs):
            return (f"(({self.rec(expr.then, PREC_NONE)})"
                    f" if ({self.rec(expr.condition, PREC_NONE)})"
                    f" else ({self.rec(expr.else_, PREC_NONE)}))")

        def map_constant(self, expr, enclosing_prec, *args, **kwargs):
            return f"({float(expr)!r})" if isinstance(expr, float) else f"({expr!r})"

    m = M()
    res = m(expr)
    return [*((n, v) for n, v in m.cse_name_list), ("_result", res)]


def _run_source(src, var, point):
    ns = {var: point, "abs": abs, "np": np}
    for name, rhs in src:
        ns[name] = eval(rhs, {"__builtins__": {}}, ns)  # noqa: S307
    return ns["_result"]


def run(case):
    import modepy as mp
    dims = gen.shape_dims(case["shape"])
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    basis = getattr(mp, case["getter"])(
        gen.build_space(case["shape"], case["order"]), gen.build_shape(case["shape"]))
    n = len(basis.functions)
    i = case["i"] % n
    ax = case["axis"] % dim
    var = case["var"]
    f, g = basis.functions[i], basis.gradients[i]
    dfun = basis.derivatives(ax)[i]
    kw = {} if var == "r" else {"ref_coord_var_name": var}
    sf = mp.symbolicize_function(f, dim, **kw)
    sg = mp.symbolicize_function(g, dim, **kw)
    sd = mp.symbolicize_function(dfun, dim, **kw)
    need(isinstance(sg, tuple) and len(sg) == dim, "symbolic gradient is a tuple")
    need(not isinstance(sf, tuple) and not isinstance(sd, tuple), "scalar expressions")
    vf = arr(f(x), (x.shape[1],), "function")
    vg = [arr(c, (x.shape[1],), "gradient") for c in g(x)]
    vd = arr(dfun(x), (x.shape[1],), "derivative")
    sc = 1 + max(float(np.max(np.abs(v))) for v in [vf, vd, *vg])
    with np.errstate(all="ignore"):
        for what, sym, num in [("function", sf, vf), ("derivative", sd, vd),
                               *((f"gradient[{k}]", a, b) for k, (a, b)
                                 in enumerate(zip(sg, vg, strict=True)))]:
            ev = np.broadcast_to(_mapper(True)({var: x, "abs": abs})(sym),
                                 (x.shape[1],))
            close(ev, num, 1e-12, f"symbolic {what} {i} evaluated on arrays", scale=sc)
            src = _python_source(sym)
            for j in range(x.shape[1]):
                p = [float(c) for c in x[:, j]]
                e1 = _mapper(False)({var: p, "abs": abs})(sym)
                close(float(e1), num[j], 1e-12,
                      f"symbolic {what} {i} at {p}", scale=sc)
                e2 = _run_source(src, var, p)
                close(float(e2), num[j], 1e-12,
                      f"code for symbolic {what} {i} at {p}", scale=sc)


def run_jacobi(case):
    """The polynomials the bases are made of, on a symbol."""
    import modepy as mp
    from pymbolic.primitives import Variable
    al, be, n = case["alpha"], case["beta"], case["n"]
    xs = np.array(case["x"])
    for name in ("jacobi", "grad_jacobi"):
        fn = getattr(mp, name)
        num = arr(fn(al, be, n, xs), xs.shape, name)
        sc = 1 + float(np.max(np.abs(num)))
        for what, expr, ctx in [
                ("variable", fn(al, be, n, Variable("t")), lambda p: {"t": p}),
                ("symbolicized", mp.symbolicize_function(
                    lambda r, fn=fn: fn(al, be, n, r[0]), 1, "q"), lambda p: {"q": [p]})]:
            ev = np.broadcast_to(_mapper(True)({**ctx(xs), "abs": abs})(expr), xs.shape)
            close(ev, num, 1e-12, f"{name} on a {what}, arrays", scale=sc)
            p = float(xs[0])
            close(float(_mapper(False)({**ctx(p), "abs": abs})(expr)), num[0], 1e-12,
                  f"{name} on a {what} at {p}", scale=sc)


@st.composite
def _jacobi(draw):
    ab = st.one_of(st.sampled_from([0, 1, 2, 5, -0.5, 0.5, 0.0]),
                   st.floats(-0.875, 12, width=16))
    return {"alpha": draw(ab), "beta": draw(ab), "n": draw(st.integers(0, 20)),
            "x": draw(st.lists(st.one_of(st.sampled_from([-1.0, 0.0, 1.0]),
                                         st.floats(-1, 1, width=32)),
                               min_size=1, max_size=4))}


def run_custom(case):
    """Products of different families of basis functions, and functions made from
    basis functions by arithmetic."""
    import modepy as mp
    dims = [d for d, _, _ in case["factors"]]
    dim = sum(dims)
    x = gen.pts(case["x"], dim)
    bases = [getattr(mp, k)(mp.PN(d, n), mp.Simplex(d)) for d, n, k in case["factors"]]
    tpb = mp.TensorProductBasis(bases, dims_per_basis=tuple(dims))
    fs, gs = tuple(tpb.functions), tuple(tpb.gradients)
    i, j = case["i"] % len(fs), case["j"] % len(fs)
    c = case["c"]

    def comb(r):
        return fs[i](r) + c*fs[j](r)

    def prod(r):
        return fs[i](r) * fs[j](r)

    def comb_grad(r):
        return tuple(a + c*b for a, b in zip(gs[i](r), gs[j](r), strict=True))

    todo = [("function", fs[i]), ("sum", comb), ("product", prod)]
    shape = (x.shape[1],)
    todo = [(w, mp.symbolicize_function(f, dim, ref_coord_var_name=case["var"]),
             arr(f(x), shape, w)) for w, f in todo]
    for w, g in [("gradient", gs[i]), ("gradient of sum", comb_grad)]:
        sg = mp.symbolicize_function(g, dim, ref_coord_var_name=case["var"])
        need(isinstance(sg, tuple) and len(sg) == dim, f"symbolic {w} is a tuple")
        todo += [(f"{w}[{k}]", a, arr(b, shape, w))
                 for k, (a, b) in enumerate(zip(sg, g(x), strict=True))]
    with np.errstate(all="ignore"):
        for w, sym, num in todo:
            sc = 1 + float(np.max(np.abs(num)))
            ev = np.broadcast_to(_mapper(True)({case["var"]: x, "abs": abs})(sym), shape)
            close(ev, num, 1e-11, f"symbolic {w} on arrays", scale=sc)
            p = [float(v) for v in x[:, 0]]
            close(float(_run_source(_python_source(sym), case["var"], p)), num[0], 1e-11,
                  f"code for symbolic {w} at {p}", scale=sc)


@st.composite
def _custom(draw):
    fs = []
    k = draw(st.integers(1, 4))
    for _ in range(k):
        d = draw(st.sampled_from([1, 1, 2, 3] if k <= 2 else [1, 1, 2]))
        fs.append([d, draw(st.integers(0, {1: 5, 2: 3, 3: 2}[d])),
                   draw(st.sampled_from(["orthonormal_basis_for_space",
                                         "monomial_basis_for_space"]))])
    return {"factors": fs, "x": draw(gen.points([d for d, _, _ in fs], max_size=3)),
            "i": draw(st.integers(0, 999)), "j": draw(st.integers(0, 999)),
            "c": draw(st.sampled_from([-2, 0.5, 3])),
            "var": draw(st.sampled_from(["r", "_y", "A"]))}


@st.composite
def _case(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "H4", "T:1"], max_dofs=100,
                                 max_order=11))
    c["getter"] = draw(st.sampled_from(GETTERS))
    c["x"] = draw(gen.points(gen.shape_dims(c["shape"]), max_size=3))
    c["i"] = draw(st.integers(0, 99))
    c["axis"] = draw(st.integers(0, 3))
    c["var"] = draw(st.sampled_from(["r", "r", "x", "ref_coord"]))
    return c


def _grid(tier):
    """Every function of every basis of low order, at fixed points incl. vertices."""
    from vlib import ref
    hi = 20 if tier == "quick" else 60
    for s in gen.ALL:
        dims = gen.shape_dims(s)
        x = ref.vertices(dims).T.tolist()
        x.append([sum(v[k] * w for v, w in zip(x, [0.4, 0.25, 0.2, 0.15], strict=False))
                  for k in range(sum(dims))])
        for getter in GETTERS:
            for n in range(0, 9):
                nd = gen.ndofs(s, n)
                if nd > hi:
                    break
                for i in range(nd):
                    yield {"shape": s, "order": n, "getter": getter, "x": x, "i": i,
                           "axis": i, "var": "r"}


def _classify(case):
    return [case["shape"], case["getter"]]


SUBS = [
    Sub("random", run, _case(), quick=1200, shards=5, classify=_classify,
        nontrivial=lambda c: c["order"] != 0 and c["i"] != 0,
        rule="order >= 1 and not the constant mode"),
    Sub("jacobi", run_jacobi, _jacobi(), quick=800, shards=2,
        nontrivial=lambda c: c["n"] > 1, rule="order >= 2"),
    Sub("custom", run_custom, _custom(), quick=500, shards=2,
        nontrivial=lambda c: len({k for _, _, k in c["factors"]}) > 1,
        rule="factors of different families"),
    Sub("grid", run, cases=_grid, shards=3, classify=_classify,
        nontrivial=lambda c: c["i"] != 0, rule="not the constant mode; all modes of all"
        " bases up to 20 (thorough: 60) functions"),
]
