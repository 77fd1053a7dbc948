"""C09: quadrature_for_space."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need


ID = "C09"
SCALE = 3
ASSUMPTIONS = [
    "the accuracy demanded is relative to the sum of the absolute weights, as rules"
    " with negative weights (used where no positive rule is tabulated) cancel",
]


def check_rule(q, dims, orders, what):
    dim = sum(dims)
    w = arr(q.weights, what=f"{what}: weights")
    need(w.ndim == 1, "weights")
    x = arr(q.nodes, (dim, w.size), f"{what}: nodes")
    need(q.dim == dim, f"{what}: dim {q.dim}")
    need(np.all(ref.inside(dims, x, 1e-10)), f"{what}: nodes outside of the shape")
    wabs = float(np.sum(np.abs(w)))
    vol = math.prod(ref.simplex_volume(d) for d in dims)
    v = ref.tp_vdm(dims, orders, x)
    got = w @ v
    e = np.zeros(v.shape[1])
    e[0] = vol**0.5
    need(ref.tp_mids(dims, orders)[0] == tuple((0,)*d for d in dims), "harness")
    tol = 1e-13 * (1 + wabs) * np.maximum(1, np.max(np.abs(v), axis=0))
    bad = np.abs(got - e) > np.maximum(tol, 1e-12)
    if np.any(bad):
        i = int(np.argmax(np.abs(got - e)/tol))
        fail(f"{what}: orthonormal mode {ref.tp_mids(dims, orders)[i]} integrates to"
             f" {got[i]!r}, expected {e[i]!r}")


def run_space(case):
    import modepy as mp
    s = case["shape"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, case["order"])
    space, shape = gen.build_space(s, case["order"]), gen.build_shape(s)
    q = mp.quadrature_for_space(space, shape)
    check_rule(q, dims, orders, f"{space!r}")
    # every monomial of the library's own basis, and the Gram matrix of half the order
    need(q.exact_to >= min(orders), f"exact_to {q.exact_to} < {min(orders)}")


def run_hidim(case):
    """Simplices beyond 3-D."""
    import modepy as mp
    d, n = case["d"], case["order"]
    q = mp.quadrature_for_space(mp.PN(d, n), mp.Simplex(d))
    w = arr(q.weights, what="weights")
    x = arr(q.nodes, (d, w.size), "nodes")
    need(q.exact_to >= n, f"exact_to {q.exact_to}")
    b = np.vstack([1 - ((x + 1)/2).sum(axis=0), (x + 1)/2])
    for e in case["exps"]:
        # barycentric monomial of degree exactly n
        e = sorted(k % (n + 1) for k in e[:d])
        e = [b_ - a_ for a_, b_ in zip([0, *e], [*e, n], strict=True)]
        val = 2**d * math.prod(map(math.factorial, e)) / math.factorial(n + d)
        close(float(w @ np.prod([b[i]**k for i, k in enumerate(e)], axis=0)), val,
              1e-12, f"barycentric monomial {e}", shape=(),
              scale=float(np.sum(np.abs(w))))


def run_mismatch(case):
    """Space and shape drawn independently: either the rule integrates the space over
    the shape, or the request is refused."""
    import modepy as mp
    space = gen.build_space(case["sspace"], case["order"])
    shape = gen.build_shape(case["shape"])
    dims = gen.shape_dims(case["shape"])
    same = gen.shape_dims(case["sspace"]) == dims
    try:
        q = mp.quadrature_for_space(space, shape)
    except (NotImplementedError, ValueError) as e:
        if same:
            raise
        if type(e) not in (NotImplementedError, ValueError):
            fail(f"{type(e).__name__}: {e}")
        return
    # accepted: must be right for that shape
    need(sum(gen.shape_dims(case["sspace"])) == sum(dims),
         f"{space!r} accepted for {shape!r}")
    need(same, f"{space!r} accepted for {shape!r}")
    check_rule(q, dims, gen.orders_of(case["sspace"], case["order"]), f"{space!r}")


@st.composite
def _mismatch(draw):
    c = draw(gen.shape_and_order([*gen.SIMPLICES, *gen.TPS], max_dofs=60))
    return {"sspace": c["shape"], "order": c["order"],
            "shape": draw(st.sampled_from(gen.ALL))}


def run_zero(case):
    import modepy as mp
    q = mp.quadrature_for_space(mp.PN(0, case["n"]), mp.Simplex(0))
    x = arr(q.nodes, (0, 1), "0-D nodes")
    w = arr(q.weights, (1,), "0-D weights")
    need(abs(w[0] - 1) < 1e-15, "0-D weight")
    need(q.exact_to >= case["n"], "exact_to")
    need(float(q(lambda y: 3*np.ones(y.shape[1]))) == 3, "point evaluation")
    need(x.size == 0 and q.dim == 0, "0-D nodes")
    if case["n"] == 0:
        q = mp.quadrature_for_space(mp.QN(0, 1), mp.Hypercube(0))
        arr(q.nodes, (0, 1), "0-D nodes")
        need(arr(q.weights, (1,), "0-D weights")[0] == 1, "0-D weight")


def _grid(tier):
    hi = {"S1": 60, "S2": 56, "S3": 20, "H2": 25, "H3": 10, "H4": 4, "T:2,1": 20,
          "T:1,2": 20, "T:1": 20, "T:3,1,1": 6, "T:1,3,1": 6, "T:1,2,1,1": 4, "T:3,1": 8, "T:1,3": 8, "T:1,1": 12,
          "H1": 20}
    for s, m in hi.items():
        for n in range(m + 1):
            if gen.ndofs(s, n) < 4000:
                yield {"shape": s, "order": n}


SUBS = [
    Sub("grid", run_space, cases=_grid, shards=4, classify=lambda c: [c["shape"]],
        nontrivial=lambda c: c["order"] > 0, rule="order >= 1; every order up to the"
        " listed bound (beyond the tables: 56 in 2-D, 20 in 3-D)"),
    Sub("mixed_orders", run_space, gen.shape_and_order(
        [*gen.TPS, "T:1,1,1,1"], max_dofs=200, max_order=18), quick=500,
        shards=2, classify=lambda c: [c["shape"]],
        nontrivial=lambda c: isinstance(c["order"], list)
        and len(set(c["order"])) > 1, rule="orders differ between the factors"),
    Sub("high_dimensional", run_hidim, st.fixed_dictionaries({
        "d": st.integers(4, 7), "order": st.integers(0, 7),
        "exps": st.lists(st.lists(st.integers(0, 100), min_size=7, max_size=7),
                         min_size=1, max_size=5)}), quick=150,
        nontrivial=lambda c: c["order"] > 0, rule="order >= 1"),
    Sub("mismatch", run_mismatch, _mismatch(), quick=500,
        nontrivial=lambda c: gen.shape_dims(c["sspace"]) != gen.shape_dims(c["shape"]),
        rule="space and shape do not belong together"),
    Sub("zero_dimensional", run_zero, cases=lambda tier: [{"n": n} for n in range(4)],
        rule="every case"),
]
