"""C22: interpolation error estimator."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub, Trivial
from vlib.nodal import build_basis, cond, node_set, node_spec
from vlib.util import arr, close, need, quiet, raises


ID = "C22"
SCALE = 5
ASSUMPTIONS = [
    "node sets whose (reference) interpolation matrix has condition number below 1e8",
]


def degrees(s, order):
    """Degree of every mode of the reference basis (tp_mids order): total degree per
    simplex factor, maximum over the factors."""
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    return np.array([max(sum(m) for m in mid) for mid in ref.tp_mids(dims, orders)])


@st.composite
def est_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=140,
                                 max_order=16))
    top = max(gen.orders_of(c["shape"], c["order"]))
    c["tail"] = draw(st.integers(0, top + 2))
    c["nodes"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(["onb", "onb", "default", "mono"]))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def run_est(case):
    from modepy.modal_decay import (
        degree_vector,
        interp_error_coefficient_estimator_matrix as est,
        simplex_interp_error_coefficient_estimator_matrix as dep,
    )
    s, order, tail = case["shape"], case["order"], case["tail"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    x = node_set(case["nodes"], s, order)
    n = x.shape[1]
    k = cond(s, order, x)
    if k > 1e8:
        raise Trivial
    b = build_basis(case["basis"], s, order)
    # degrees of the library's modes by fitting the reference basis: mode i of the
    # library has exactly the degree of the highest reference mode it contains
    xq, wq = ref.tp_quad(dims, [2*o for o in orders])
    vq = ref.tp_vdm(dims, orders, xq)
    lib = np.array([np.broadcast_to(f(xq), wq.shape) for f in b.functions]).T
    t = (vq.T*wq) @ lib          # reference coefficients of the library's modes
    dr = degrees(s, order)
    dl = np.array([max([int(d) for d, c in zip(dr, col, strict=True)
                        if abs(c) > 1e-9*max(1e-300, np.abs(col).max())], default=0)
                   for col in t.T])
    dv = arr(degree_vector(b), (n,), "degree vector", kind="iu")
    need(np.array_equal(dv, dl), f"degree vector {dv.tolist()}, modes have {dl.tolist()}")
    top = max(orders)
    keep = dl > top - tail
    x0 = x.copy()
    c = arr(est(x, tail, b), (int(keep.sum()), n), "estimator matrix")
    need(np.array_equal(x, x0), "nodes modified")
    # random function of the space
    rng = np.random.default_rng(case["seed"])
    coef = rng.uniform(-1, 1, size=n) + (1j*rng.uniform(-1, 1, size=n)
                                         if case["seed"] % 2 else 0)
    vlib = np.array([np.broadcast_to(f(x), (n,)) for f in b.functions]).T
    kk = max(k, np.linalg.cond(vlib)) if vlib.size else k
    if kk > 1e10:
        raise Trivial
    # the inverse is only known up to cond(V) |V^-1| eps
    sc = 10.0 + (np.linalg.norm(np.linalg.inv(vlib)) if vlib.size else 0)
    close(c @ (vlib @ coef), coef[keep], 1e-13*kk, "coefficients of the top modes",
          scale=sc)
    # vanishes on everything of lower degree
    low = coef*(~keep)
    close(c @ (vlib @ low), np.zeros(int(keep.sum())), 1e-13*kk,
          "does not vanish on lower degrees", scale=sc)
    if case["basis"] == "onb":
        # independent: project the interpolated function on the reference modes
        g = ref.tp_vdm(dims, orders, x) @ rng.uniform(-1, 1, size=n)
        rc = np.linalg.solve(ref.tp_vdm(dims, orders, x), g)
        if tail:
            close(np.linalg.norm(c @ g), np.linalg.norm(rc[dr > top - tail]), 1e-12*kk,
                  "norm of the top coefficients", shape=(), scale=sc)
    if s[0] == "S" and case["basis"] == "onb":
        c2 = arr(quiet(dep, x, orders[0], tail), c.shape, "deprecated variant")
        close(c2, c, 1e-12*kk, "deprecated variant")
    # nested use: the estimator with more tail orders contains the one with fewer
    if tail:
        c3 = arr(est(x, tail - 1, b), None, "fewer tail orders")
        keep3 = dl[keep] > top - tail + 1
        close(c3, c[keep3], 1e-13*kk, "fewer tail orders", shape=c[keep3].shape)


@st.composite
def ill_cases(draw):
    s, lo, hi = draw(st.sampled_from([("S1", 6, 24), ("S1", 16, 23), ("S2", 5, 15),
                                      ("H2", 5, 12), ("S3", 4, 9), ("T:2,1", 4, 9)]))
    return {"shape": s, "order": draw(st.integers(lo, hi)),
            "nodes": draw(st.sampled_from(["equi", "edge"])),
            "basis": draw(st.sampled_from(["mono", "mono", "onb"])),
            "tail": draw(st.integers(1, 30))}


def run_ill(case):
    """Bases and node sets whose interpolation matrix is ill-conditioned: also then the
    estimator is the inverse (up to backward error), no mode is left out."""
    from modepy.modal_decay import (
        interp_error_coefficient_estimator_matrix as est,
    )
    s, order, tail = case["shape"], case["order"], case["tail"]
    b = build_basis(case["basis"], s, order)
    x = node_set([case["nodes"], 0], s, order)
    n = x.shape[1]
    v = np.array([np.broadcast_to(f(x), (n,)) for f in b.functions]).T
    sv = np.linalg.svd(v, compute_uv=False)
    k = sv[0]/sv[-1]
    if not k < 1e11:
        raise Trivial
    dr = np.array([max(sum(m) for m in mid) for mid in ref.tp_mids(
        gen.shape_dims(s), gen.orders_of(s, order))])
    keep = dr > order - tail
    c = arr(est(x, tail, b), (int(keep.sum()), n), "estimator matrix")
    resid = np.abs(c @ v - np.eye(n)[keep]).max()
    need(resid < 1e-3 or resid < 2e-15*n*k, f"the coefficients of the basis functions"
         f" are off by {resid} (condition number {k})")
    full = np.abs(est(x, order + 1, b) @ v - np.eye(n)).max()
    need(full < 1e-3 or full < 2e-15*n*k, f"the coefficients of the basis functions"
         f" are off by {full} (condition number {k})")
    return [f"condition 1e{int(np.log10(k))}"]


@st.composite
def lay_cases(draw):
    return {"shape": draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:1,2"])),
            "order": draw(st.integers(1, 2)), "how": draw(layouts.how()),
            "tail": draw(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 9])),
            "basis": draw(st.sampled_from(["onb", "default", "mono"]))}


def run_lay(case):
    """Node arrays of any type and layout."""
    from modepy.modal_decay import (
        interp_error_coefficient_estimator_matrix as est,
        simplex_interp_error_coefficient_estimator_matrix as dep,
    )
    s, order = case["shape"], case["order"]
    b = build_basis(case["basis"], s, order)
    x = node_set(["equi", 0], s, order)
    layouts.same(lambda a: est(a, case["tail"], b), [x], case["how"], "estimator", 1e-11)
    if s[0] == "S":
        layouts.same(lambda a: quiet(dep, a, order, case["tail"]), [x], case["how"],
                     "simplex estimator", 1e-11)


def enum_bad(tier):
    yield {"what": "obj"}
    yield {"what": "none"}


def run_bad(case):
    from modepy.modal_decay import degree_vector
    raises(TypeError, lambda: degree_vector(object() if case["what"] == "obj" else None),
           "degree vector of something that is not a basis")


SUBS = [
    Sub("estimator", run_est, strategy=est_cases(), quick=250, thorough=8000,
        nontrivial=lambda c: 0 < c["tail"] <= max(gen.orders_of(c["shape"], c["order"])),
        rule="proper, non-empty subset of the modes kept"),
    Sub("ill_conditioned", run_ill, strategy=ill_cases(), quick=80, thorough=1500),
    Sub("layouts", run_lay, strategy=lay_cases(), quick=80,
        classify=lambda c: [layouts.label(c["how"])]),
    Sub("invalid", run_bad, cases=enum_bad),
]
