"""C13: node sets."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st
from scipy.special import roots_jacobi, roots_legendre

from vlib import gen, ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need, raises


ID = "C13"
SCALE = 5
ASSUMPTIONS = [
    "the barycentric form of a node tuple t on a simplex is (n - sum t, t): its"
    " permutations are the symmetries of the element",
    "\"benign\" Lebesgue constants: within 0.2% of the values of the published"
    " construction (Warburton 2006) as evaluated on a fixed fine lattice",
]

# Lebesgue constants of the published warp & blend nodes (Warburton 2006: same table up
# to the lattice), evaluated on the lattices that run_leb uses; beyond the tabulated
# blending parameters, those of the default parameter
LEB = {
    1: [1.0, 1.25, 1.5, 1.6359, 1.7786, 1.8737, 1.9724, 2.0456, 2.121, 2.1805, 2.2415,
        2.2917, 2.3428, 2.3857, 2.4303, 2.4684, 2.5072, 2.5412, 2.5758, 2.6058, 2.6377,
        2.6658, 2.6942, 2.7196, 2.746, 2.7696, 2.794, 2.8162, 2.8386, 2.8575],
    2: [1.0, 1.6667, 2.1098, 2.6558, 3.1211, 3.6952, 4.2733, 4.9629, 5.7338, 6.5845,
        7.7767, 9.315, 11.4674, 13.3304, 17.5383, 20.9927, 25.9933, 36.7771],
    3: [1.0, 2.0, 2.9126, 4.0558, 5.175, 6.9523, 9.1691, 12.3582, 15.6826, 20.487,
        25.7155, 33.0345, 40.923, 48.4539, 55.9601, 57.9943],
}


@lru_cache(maxsize=None)
def lgl(n):
    """Legendre-Gauss-Lobatto nodes, n+1 of them."""
    if n == 0:
        return np.zeros(1)
    inner = roots_jacobi(n - 1, 1, 1)[0] if n > 1 else np.zeros(0)
    return np.array([-1.0, *inner, 1.0])


def tuples_by_factor(s, order):
    """The distinct index tuples of the space, as a set."""
    dims = gen.shape_dims(s)
    per = [ref.simplex_mids(d, n)
           for d, n in zip(dims, gen.orders_of(s, order), strict=True)]
    return {sum(t, ()) for t in itertools.product(*per)}


def check_tuples(space, s, order):
    import modepy as mp
    t = [tuple(int(i) for i in x) for x in mp.node_tuples_for_space(space)]
    need(len(t) == gen.ndofs(s, order), f"{len(t)} node tuples, expected"
         f" {gen.ndofs(s, order)}")
    need(set(t) == tuples_by_factor(s, order), "node tuples are not the index set")
    return np.array(t).reshape(len(t), -1)


def factors(s, order):
    """(slice of axes, dimension, order) of each factor"""
    o = 0
    for d, n in zip(gen.shape_dims(s), gen.orders_of(s, order), strict=True):
        yield slice(o, o + d), d, n
        o += d


def distinct(x):
    """minimal distance between two nodes"""
    if x.shape[1] < 2:
        return np.inf
    from scipy.spatial import cKDTree
    return float(cKDTree(x.T).query(x.T, k=2)[0][:, 1].min())


def unisolvent(s, order, x, what):
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    v = ref.tp_vdm(dims, orders, x)
    need(v.shape[0] == v.shape[1], f"{what}: {v.shape[0]} nodes, dimension {v.shape[1]}")
    c = np.linalg.cond(v)
    need(c < 1e9, f"{what}: interpolation is not unique (condition {c:.1e})")


# {{{ equispaced

def run_equi(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    shape, space = gen.build_shape(s), gen.build_space(s, order)
    t = check_tuples(space, s, order)
    x = arr(mp.equispaced_nodes_for_space(space, shape), (shape.dim, len(t)), "nodes")
    for ax, d, n in factors(s, order):
        e = (2*t[:, ax]/n - 1).T if n else np.full((d, len(t)), 2/(d + 1) - 1)
        close(x[ax], e, 1e-14, "equispaced nodes", scale=1.0)
    need(np.all(ref.inside(gen.shape_dims(s), x)), "nodes outside the element")
    if max(gen.orders_of(s, order)) <= 10:
        unisolvent(s, order, x, "equispaced nodes")


@st.composite
def equi_simplex_cases(draw):
    d = draw(st.integers(0, 6))
    n = draw(st.integers(0, {0: 9, 1: 40, 2: 20, 3: 10}.get(d, 4)))
    import math
    return {"d": d, "n": n, "seed": draw(st.integers(0, 999)),
            "cut": draw(st.sampled_from([0, 0, 1, -1])),
            "size": math.comb(n + d, d)}


def run_equi_simplex(case):
    """equidistant_nodes with user node tuples, dimensions beyond 3"""
    import modepy as mp
    d, n = case["d"], case["n"]
    t = ref.simplex_mids(d, n)
    perm = np.random.default_rng(case["seed"]).permutation(len(t))
    t = [t[i] for i in perm]
    x = arr(mp.equidistant_nodes(d, n, node_tuples=t), (d, len(t)), "nodes")
    e = (2*np.array(t, dtype=float).reshape(len(t), d)/n - 1).T if n \
        else np.full((d, 1), 2/(d + 1) - 1)
    close(x, e, 1e-14, "nodes for given tuples", scale=1.0)
    x2 = arr(mp.equidistant_nodes(d, n), (d, len(t)), "nodes")
    need({tuple(np.round(c, 9)) for c in x2.T} == {tuple(np.round(c, 9)) for c in x.T},
         "default order is a different set of nodes")
    sp, sh = mp.PN(d, n), mp.Simplex(d)
    close(mp.equispaced_nodes_for_space(sp, sh), x2, 1e-13,
          "equispaced_nodes_for_space against equidistant_nodes", shape=x2.shape, scale=1.0)
    if d > 3:
        close(mp.edge_clustered_nodes_for_space(sp, sh), x2, 1e-13,
              "edge clustered nodes beyond 3-D against equidistant ones",
              shape=x2.shape, scale=1.0)
    if case["cut"]:
        bad = t[1:] if case["cut"] == 1 else [*t, t[0]]
        raises(ValueError, lambda: mp.equidistant_nodes(d, n, node_tuples=bad),
               "wrong number of node tuples")

# }}}


# {{{ edge clustered / warp and blend

def check_clustered_factor(x, t, d, n, what):
    """x (d, m), t (m, d): nodes of one simplex factor with their tuples."""
    if n == 0:
        close(x, np.full(x.shape, 2/(d + 1) - 1), 1e-14, f"{what}: order 0", scale=1.0)
        return
    full = np.hstack([n - t.sum(axis=1, keepdims=True), t])
    lam = (x + 1)/2
    lam = np.vstack([1 - lam.sum(axis=0), lam]).T
    need(np.all(lam >= -1e-12), f"{what}: node outside the element")
    # nodes of the boundary are on it, and only they are
    need(np.all(np.abs(lam[full == 0]) < 1e-12), f"{what}: boundary node not on its face")
    need(np.all(lam[full > 0] > 1e-3/n**2), f"{what}: interior node on the boundary")
    # a vertex node
    close(lam[full == n], 1.0, 1e-12, f"{what}: vertices", shape=(np.sum(full == n),),
          scale=1.0)
    # edges carry the Gauss-Lobatto nodes
    g = (lgl(n) + 1)/2
    for a, b in itertools.combinations(range(d + 1), 2):
        on = full[:, a] + full[:, b] == n
        close(lam[on, b], g[full[on, b]], 1e-11, f"{what}: nodes on edge {a}-{b}",
              scale=1.0)
    # equivariance under all symmetries of the simplex
    where = {tuple(f): i for i, f in enumerate(full.tolist())}
    need(len(where) == len(full), f"{what}: tuples not distinct")
    for p in itertools.permutations(range(d + 1)):
        j = [where[tuple(f[list(p)].tolist())] for f in full]
        close(lam[j], lam[:, p], 1e-11, f"{what}: symmetry {p}", scale=1.0)
    # order of barycentric coordinates follows the tuples
    for a, b in itertools.permutations(range(d + 1), 2):
        gt = full[:, a] > full[:, b]
        need(np.all(lam[gt, a] > lam[gt, b]), f"{what}: nodes out of order")


def run_clustered(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    shape, space = gen.build_shape(s), gen.build_space(s, order)
    t = check_tuples(space, s, order)
    x = arr(mp.edge_clustered_nodes_for_space(space, shape), (shape.dim, len(t)), "nodes")
    for i, (ax, d, n) in enumerate(factors(s, order)):
        # every node agrees with the node of the factor with the same tuple
        uniq = {}
        for k in range(len(t)):
            key = tuple(t[k, ax])
            if key in uniq:
                close(x[ax, k], x[ax, uniq[key]], 1e-14,
                      f"factor {i} of node {k} ({t[k]})", scale=1.0)
            else:
                uniq[key] = k
        sel = list(uniq.values())
        check_clustered_factor(x[ax][:, sel], t[sel][:, ax], d, n, f"factor {i}")
    need(distinct(x) > 1e-3/max(1, max(gen.orders_of(s, order)))**2, "nodes coincide")
    if shape.dim < 3 or max(gen.orders_of(s, order)) <= 16:
        unisolvent(s, order, x, "edge clustered nodes")
    if s[0] == "S" and case.get("seed") is not None:
        d = shape.dim
        wb = mp.warp_and_blend_nodes(d, order)
        close(wb, x, 1e-13, "warp_and_blend_nodes against the space interface",
              shape=x.shape, scale=1.0)
        perm = np.random.default_rng(case["seed"]).permutation(len(t))
        tt = [tuple(t[i].tolist()) for i in perm]
        y = arr(mp.warp_and_blend_nodes(d, order, node_tuples=tt), x.shape, "nodes")
        close(y, x[:, perm], 1e-12, "nodes for permuted tuples", scale=1.0)
        if order > 0:
            raises(ValueError, lambda: mp.warp_and_blend_nodes(d, order, node_tuples=tt[1:]),
                   "wrong number of node tuples")


def leb_cases(tier):
    for d, vals in LEB.items():
        for n in range(1, len(vals) + 1):
            yield {"d": d, "n": n}


def run_leb(case):
    import modepy as mp
    d, n = case["d"], case["n"]
    x = arr(mp.warp_and_blend_nodes(d, n))
    m = {1: 400, 2: 60, 3: 20}[d]
    fine = np.array(ref.simplex_mids(d, m), dtype=float).T/m*2 - 1
    v = ref.tp_vdm([d], [n], x)
    leb = np.max(np.sum(np.abs(np.linalg.solve(v.T, ref.tp_vdm([d], [n], fine).T)), axis=0))
    need(leb <= 1.002*LEB[d][n - 1],
         f"Lebesgue constant {leb:.3f}, {LEB[d][n - 1]} expected")

# }}}


# {{{ tensor product nodes

@st.composite
def tpn_cases(draw):
    nf = draw(st.integers(0, 4))
    fs = []
    for _ in range(nf):
        d = draw(st.integers(0, 3))
        fs.append([d, 1 if d == 0 else draw(st.integers(1, 4))])
    return {"f": fs, "flat": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["d", "f", "i", "m"])),
            "seed": draw(st.integers(0, 99))}


def run_tpn(case):
    import modepy as mp
    rng = np.random.default_rng(case["seed"])
    sets = []
    for k, (d, n) in enumerate(case["f"]):
        a = rng.integers(-50, 50, size=(d, n))
        dt = {"d": "float64", "f": "float32", "i": "int64",
              "m": ["int64", "float32", "float64"][k % 3]}[case["dtype"]]
        a = a.astype(dt)
        if case["flat"] and d == 1:
            a = a.reshape(-1)
        sets.append(a)
    orig = [a.copy() for a in sets]
    x = mp.tensor_product_nodes(sets)
    need(all(np.array_equal(a, b) for a, b in zip(sets, orig, strict=True)),
         "arguments modified")
    dims = sum(f[0] for f in case["f"])
    ns = [f[1] for f in case["f"]]
    if dims == 0:
        arr(x, (0, 1), "nodes")
        return
    tot = int(np.prod(ns))
    x = arr(x, (dims, tot), "nodes")
    need(x.dtype == np.result_type(*sets), f"dtype {x.dtype}")
    for flat in range(tot):
        idx = np.unravel_index(flat, ns, order="F")     # first factor fastest
        e = np.concatenate([a.reshape(1, -1)[:, i] if a.ndim == 1 else a[:, i]
                            for a, i in zip(sets, idx, strict=True)])
        need(np.array_equal(x[:, flat], e), f"node {flat}: {x[:, flat]}, expected {e}")
    if sets and sets[0].size:
        x[...] = 0
        need(all(np.array_equal(a, b) for a, b in zip(sets, orig, strict=True)),
             "result shares memory with an argument")


def run_gauss_tp(case):
    import modepy as mp
    d, n, kind = case["d"], case["n"], case["kind"]
    if kind == "lgl":
        x1 = lgl(n)
        x = mp.legendre_gauss_lobatto_tensor_product_nodes(d, n)
    elif kind == "lg":
        x1 = roots_legendre(n + 1)[0]
        x = mp.legendre_gauss_tensor_product_nodes(d, n)
    else:
        x1 = np.linspace(-1, 1, n + 1)**3
        x = mp.tensor_product_nodes(d, x1 if kind == "flat" else x1.reshape(1, -1))
    e = np.array([t[::-1] for t in itertools.product(x1, repeat=d)]).T
    close(x, e, 1e-12, f"{kind} nodes", scale=1.0)
    if kind in ("lg", "lgl"):
        s = "S1" if d == 1 else f"H{d}"
        if (n + 1)**d <= 650:
            unisolvent(s, n, arr(x), f"{kind} nodes")
        if kind == "lgl" and d > 1:
            close(mp.edge_clustered_nodes_for_space(gen.build_space(s, n),
                                                    gen.build_shape(s)), e, 1e-12,
                  "edge clustered nodes of the hypercube", scale=1.0)


def gauss_tp_cases(tier):
    top = {1: 30, 2: 12, 3: 6, 4: 3, 5: 2}
    for kind in ("lg", "lgl", "flat", "row"):
        for d, t in top.items():
            for n in range(t + 1 if tier != "quick" else t // 2 + 2):
                yield {"kind": kind, "d": d, "n": n}
        for d, n in ((1, 70), (2, 17), (2, 24), (3, 9), (3, 16), (4, 5)):
            yield {"kind": kind, "d": d, "n": n}

# }}}


# {{{ random nodes

@st.composite
def rand_cases(draw):
    return {"shape": draw(st.sampled_from([*gen.ALL, "H1", "H4", "S0", "S4", "S5"])),
            "n": draw(st.one_of(st.integers(0, 20), st.sampled_from([50, 300, 1100, 5000]))),
            "seed": draw(st.integers(0, 10**6))}


def run_rand(case):
    import modepy as mp
    s, n = case["shape"], case["n"]
    shape = gen.build_shape(s)
    if s in ("S4", "S5"):
        n = min(n, 20)
    x = arr(mp.random_nodes_for_shape(shape, n, rng=np.random.default_rng(case["seed"])),
            (shape.dim, n), "random nodes")
    need(np.all(ref.inside(gen.shape_dims(s), x)), "node outside the element")
    if shape.dim and n > 1:
        need(distinct(x) > 0, "random nodes coincide")
    y = mp.random_nodes_for_shape(shape, n, rng=np.random.default_rng(case["seed"]))
    need(np.array_equal(x, y), "not reproducible from the generator")
    z = arr(mp.random_nodes_for_shape(shape, n), (shape.dim, n), "random nodes, no rng")
    need(np.all(ref.inside(gen.shape_dims(s), z)), "node outside the element")
    if n >= 300 and shape.dim:
        # uniform in the element: every coordinate reaches both ends (p < 1e-9)
        o = 0
        for d in gen.shape_dims(s):
            if d <= 3:
                need(np.all(x[o:o + d].min(axis=1) < -0.75), f"lower part never reached: {x.min(axis=1)}")
                need(np.all(x[o:o + d].max(axis=1) > {1: .75, 2: .4, 3: 0.}[d]),
                     f"upper part never reached: {x.max(axis=1)}")
            o += d

# }}}


# {{{ 1-d warp

def warp_cases(tier):
    for n in range(1, 16):
        yield {"n": n}
        yield {"n": n, "many": 1000 if n < 8 else 90}
    for n in range(16, 21):
        yield {"n": n, "many": 90}


def run_warp(case):
    """The warp is the degree-n interpolant of (Lobatto - equispaced)."""
    from modepy.nodes import warp_factor
    n = case["n"]
    eq = np.linspace(-1, 1, n + 1)
    x = np.concatenate([eq, np.linspace(-0.999, 0.999, case.get("many", 17))])
    w = arr(warp_factor(n, x, scaled=False), x.shape, "warp")
    c = np.polynomial.legendre.Legendre.fit(eq, lgl(n) - eq, n, domain=[-1, 1])
    # (Lagrange interpolation in equispaced nodes amplifies rounding)
    tol = 1e-9 if n < 16 else 1e-14*2.0**n
    close(w, c(x), tol, "warp", scale=1.0)
    ws = arr(warp_factor(n, x), x.shape, "scaled warp")
    inner = np.abs(x) < 1 - 1e-10
    close(ws[inner], c(x[inner])/(1 - x[inner]**2), tol, "scaled warp", scale=1.0)
    close(ws[~inner], 0*ws[~inner], 1e-9, "scaled warp at the ends", scale=1.0)

# }}}


def _tag(c):
    return [c["shape"], "mixed orders" if isinstance(c["order"], list) else "one order"]


@st.composite
def clustered_cases(draw):
    c = draw(gen.shape_and_order([*gen.SIMPLICES, *gen.ALL, "H4"], max_dofs=150,
                                 max_order=14))
    c["seed"] = draw(st.integers(0, 999))
    return c


def all_clustered_cases(tier):
    """Every order of the tabulated blending parameters, and beyond the tables."""
    hi = {1: 40, 2: 20, 3: 17} if tier == "quick" else {1: 80, 2: 24, 3: 20}
    for d, top in hi.items():
        for n in range(top + 1):
            yield {"shape": f"S{d}", "order": n, "seed": n}


SUBS = [
    Sub("clustered_all", run_clustered, cases=all_clustered_cases, shards=4,
        nontrivial=lambda c: c["order"] > 0, rule="order at least 1", classify=_tag),
    Sub("equispaced", run_equi, gen.shape_and_order([*gen.ALL, "H4", "H1"], max_dofs=200,
                                                    max_order=20),
        quick=250, shards=2, nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=_tag),
    Sub("equidistant", run_equi_simplex, equi_simplex_cases(), quick=150,
        nontrivial=lambda c: c["size"] > 1, rule="more than one node"),
    Sub("edge-clustered", run_clustered, clustered_cases(), quick=250, shards=4,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=_tag),
    Sub("lebesgue", run_leb, cases=leb_cases, shards=4, rule="every tabulated order"),
    Sub("tensor-product", run_tpn, tpn_cases(), quick=300,
        nontrivial=lambda c: len(c["f"]) > 1, rule="at least two factors"),
    Sub("gauss-tp", run_gauss_tp, cases=gauss_tp_cases, shards=2,
        rule="every dimension and order of the table"),
    Sub("random", run_rand, rand_cases(), quick=200,
        nontrivial=lambda c: c["n"] > 1, rule="more than one node"),
    Sub("warp", run_warp, cases=warp_cases, rule="orders 1 to 20"),
]
