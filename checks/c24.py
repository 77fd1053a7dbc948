"""C24: value semantics of shapes, spaces, functions, rules and faces."""
from __future__ import annotations

import base64
import copy
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.core import HERE, REPO, Sub
from vlib.util import arr, fail, need


ID = "C24"
SCALE = 2
ASSUMPTIONS = [
    "spaces and rules have identity equality, so for them a copy is compared by what it"
    " does, not with ==",
    "pickling covers functions and gradients of bases (what the tests promise), not the"
    " per-axis derivative wrappers",
]


# {{{ specs:  shape spec = "S2" | "H3" | list of specs (nested product)

@st.composite
def nested_shape(draw):
    """A flat list of factors (at most one that is not a segment), grouped at random."""
    dims = [1]*draw(st.integers(0, 3))
    if draw(st.booleans()) or not dims:
        dims.insert(draw(st.integers(0, len(dims))), draw(st.sampled_from([0, 2, 3, 1])))
    while sum(dims) > 4:
        dims.remove(1)
    items = []
    i = 0
    while i < len(dims):
        run = 1
        while i + run < len(dims) and dims[i] == 1 and dims[i + run] == 1:
            run += 1
        if dims[i] == 1 and run > 1 and draw(st.booleans()):
            k = draw(st.integers(2, run))
            items.append(f"H{k}")
            i += k
        else:
            items.append(f"S{dims[i]}" if draw(st.booleans()) or dims[i] != 1 else "H1")
            i += 1
    while len(items) > 1 and draw(st.booleans()):
        a = draw(st.integers(0, len(items) - 1))
        b = draw(st.integers(a + 1, len(items)))
        items[a:b] = [items[a:b]]
    return items if len(items) > 1 or draw(st.booleans()) else items[0]


def flat(spec):
    if isinstance(spec, list):
        return sum((flat(x) for x in spec), [])
    return [1]*int(spec[1:]) if spec[0] == "H" else [int(spec[1:])]


def build_shape(spec):
    import modepy as mp
    if isinstance(spec, list):
        return mp.TensorProductShape(tuple(build_shape(x) for x in spec))
    return mp.Hypercube(int(spec[1:])) if spec[0] == "H" else mp.Simplex(int(spec[1:]))


def build_space(spec, orders):
    """nested like the shape, with one order per flat factor (consumed in order)"""
    import modepy as mp
    if isinstance(spec, list):
        return mp.TensorProductSpace(tuple(build_space(x, orders) for x in spec))
    n = len(flat(spec))
    mine = [orders.pop(0) for _ in range(n)]
    if spec[0] == "S":
        return mp.PN(int(spec[1:]), mine[0])
    if len(set(mine)) == 1:
        return mp.QN(n, mine[0])
    return mp.TensorProductSpace(tuple(mp.PN(1, o) for o in mine))

# }}}


# {{{ fingerprints: what an object does

def attempt(f):
    try:
        return f()
    except (NotImplementedError, AttributeError, ValueError) as e:
        return type(e).__name__


def fp_shape(s):
    import modepy as mp
    out = {"dim": s.dim, "nv": s.nvertices, "nf": attempt(lambda: s.nfaces)
           if s.dim else None,
           "vert": mp.unit_vertices_for_shape(s),
           "bases": [b.dim for b in getattr(s, "bases", ())]}
    if 0 < s.dim:
        sp = mp.space_for_shape(s, 2)
        out["space"] = sp.space_dim
        out["tuples"] = mp.node_tuples_for_space(sp)
        out["nodes"] = attempt(lambda: mp.edge_clustered_nodes_for_space(sp, s))
        out["quad"] = attempt(lambda: mp.quadrature_for_space(sp, s).nodes)
        out["rand"] = attempt(
            lambda: mp.random_nodes_for_shape(s, 3, np.random.default_rng(0)))
    return out


def fp_space(sp, s):
    import modepy as mp
    from modepy.tools import reshape_array_for_tensor_product_space
    out = {"sd": sp.spatial_dim, "n": sp.space_dim,
           "order": attempt(lambda: sp.order),
           "tuples": mp.node_tuples_for_space(sp)}
    x = 0.4*mp.unit_vertices_for_shape(s) - 0.3
    for name in ("orthonormal_basis_for_space", "monomial_basis_for_space"):
        b = attempt(lambda name=name: getattr(mp, name)(sp, s))
        if isinstance(b, str):
            out[name] = b
            continue
        out[name] = (b.mode_ids, attempt(lambda b=b: mp.vandermonde(b.functions, x)))
    out["nodes"] = attempt(lambda: mp.equispaced_nodes_for_space(sp, s))
    q = attempt(lambda: mp.quadrature_for_space(sp, s))
    out["quad"] = q if isinstance(q, str) else fp_quad(q)
    a = np.arange(sp.space_dim)
    out["reshape"] = reshape_array_for_tensor_product_space(sp, a)
    return out


def fp_quad(q):
    return {"n": q.nodes, "w": q.weights, "e": attempt(lambda: repr_exact(q.exact_to)),
            "i": attempt(lambda: q(lambda x: np.cos(x if x.ndim == 1 else sum(x, 0*x[:1].sum(0))))),
            "dim": q.dim, "cls": type(q).__name__,
            "factors": [fp_quad(p) for p in getattr(q, "quadratures", ())]}


def repr_exact(e):
    from modepy.quadrature import isinf
    return "inf" if isinf(e) else int(e)


def fp_face(f):
    import modepy as mp
    p = np.linspace(-0.9, 0.3, 3*f.dim).reshape(f.dim, 3) if f.dim else np.zeros((0, 1))
    return {"i": f.face_index, "vv": f.volume_vertex_indices, "d": f.dim,
            "vol": fp_shape(f.volume_shape), "map": f.map_to_volume(p),
            "n": mp.face_normal(f), "cls": type(f).__name__,
            "vert": mp.unit_vertices_for_shape(f)}


def fp_func(f, x):
    r = f(x)
    return list(r) if isinstance(r, tuple) else r


def same(a, b):
    if isinstance(a, np.ndarray | np.floating) or isinstance(b, np.ndarray | np.floating):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            # sums may depend on memory alignment in the last digit
            return bool(np.allclose(a, b, rtol=1e-13, atol=1e-13, equal_nan=True))
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, list | tuple):
        return isinstance(b, list | tuple) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b, strict=True))
    return bool(a == b)

# }}}


def copies(o):
    yield "copy", copy.copy(o)
    yield "deepcopy", copy.deepcopy(o)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield f"pickle protocol {p}", pickle.loads(pickle.dumps(o, p))


def check_copies(o, fp, what, eq=False):
    want = fp(o)
    for how, c in copies(o):
        need(type(c) is type(o), f"{what}: {how} gives {type(c).__name__} from"
             f" {type(o).__name__}")
        if eq:
            need(c == o and o == c and not (c != o), f"{what}: {how} is not equal")
            need(hash(c) == hash(o), f"{what}: {how} hashes differently")
        got = fp(c)
        if not same(want, got):
            bad = [k for k in want if not same(want[k], got[k])] \
                if isinstance(want, dict) else ""
            fail(f"{what}: {how} behaves differently {bad}")
        # copying again
        need(same(want, fp(copy.deepcopy(c))), f"{what}: copy of the {how} differs")
    need(same(want, fp(o)), f"{what}: copying changed the original")


# {{{ shapes

@st.composite
def shape_cases(draw):
    return {"a": draw(nested_shape()), "b": draw(nested_shape())}


def run_shape(case):
    import modepy as mp
    shapes = []
    for spec in (case["a"], case["b"], case["a"]):
        d = flat(spec)
        if sum(1 for x in d if x == 1) < len(d) - 1:
            return
        s = build_shape(spec)
        shapes.append(s)
        need(s.dim == sum(d), f"dim {s.dim}, expected {sum(d)}")
        if len(d) > 1:
            need(isinstance(s, mp.TensorProductShape), f"{s} is not a product")
            need(tuple(b.dim for b in s.bases) == tuple(d)
                 and all(isinstance(b, mp.Simplex) for b in s.bases),
                 f"product not flattened: {s}")
            need(s.nvertices == np.prod([x + 1 for x in d]), f"nvertices {s.nvertices}")
        else:
            need(type(s) is mp.Simplex, f"{type(s).__name__} for a single factor")
        v = arr(mp.unit_vertices_for_shape(s), (sum(d), int(np.prod([x + 1 for x in d]))))
        e = ref.vertices(d)
        need(np.array_equal(v, e), "vertices of a nested product")
        check_copies(s, fp_shape, f"shape {spec}", eq=True)
    a, b, c = shapes
    need(a == c and hash(a) == hash(c), "equal shapes differ or hash differently")
    need(len({a, c}) == 1 and {a: 1}[c] == 1, "equal shapes are different keys")
    same_kind = flat(case["a"]) == flat(case["b"])
    if not same_kind:
        need(a != b, f"{a} == {b}")
    if a == b:
        need(hash(a) == hash(b), "equal shapes hash differently")
        need(same(fp_shape(a), fp_shape(b)), "equal shapes behave differently")
    if same_kind:
        fa, fb = fp_shape(a), fp_shape(b)
        need(same(fa, fb), "differently nested shapes behave differently")

# }}}


# {{{ spaces and functions

@st.composite
def space_cases(draw):
    spec = draw(nested_shape())
    n = len(flat(spec))
    if draw(st.booleans()):
        orders = [draw(st.integers(0, 3))]*n
    else:
        orders = [draw(st.integers(0, 3)) for _ in range(n)]
    return {"shape": spec, "orders": orders}


def run_space(case):
    import math

    import modepy as mp
    spec, orders = case["shape"], case["orders"]
    d = flat(spec)
    s = build_shape(spec)
    sp = build_space(spec, list(orders))
    sp2 = build_space(spec, list(orders))
    n = math.prod(math.comb(o + k, k) for o, k in zip(orders, d, strict=True))
    need(sp.space_dim == n and sp.spatial_dim == sum(d),
         f"space_dim {sp.space_dim}/{n}, spatial_dim {sp.spatial_dim}/{sum(d)}")
    if len(d) > 1:
        need(isinstance(sp, mp.TensorProductSpace), "not a product space")
        need([b.spatial_dim for b in sp.bases] == d and [b.order for b in sp.bases] == orders
             and all(isinstance(b, mp.PN) for b in sp.bases), f"not flattened: {sp}")
        need(attempt(lambda: sp.order) == (orders[0] if len(set(orders)) == 1
                                           else "AttributeError"), "order of the product")
    else:
        need(type(sp) is mp.PN and sp.order == orders[0], f"single factor: {sp!r}")

    def fp(x):
        return fp_space(x, s)
    need(same(fp(sp), fp(sp2)), "separately built spaces behave differently")
    ref_space = mp.space_for_shape(s, tuple(orders) if len(d) > 1 else orders[0])
    need(same(fp(sp), fp(ref_space)), "space differs from space_for_shape")
    check_copies(sp, fp, f"space {spec} {orders}")
    repr(sp)


@st.composite
def func_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=40, max_order=6))
    return {**c, "basis": draw(st.sampled_from(["onb", "mono"])), "i": draw(st.integers(0, 40)),
            "pts": draw(gen.points(gen.shape_dims(c["shape"]), max_size=3))}


def run_func(case):
    from vlib.nodal import build_basis
    s, order = case["shape"], case["order"]
    x = gen.pts(case["pts"], sum(gen.shape_dims(s)))
    b = build_basis(case["basis"], s, order)
    n = len(b.functions)
    i = case["i"] % n
    for fs, what in ((b.functions, "function"), (b.gradients, "gradient")):
        need(len(fs) == n and len(b.mode_ids) == n, "lengths")
        check_copies(fs[i], lambda f: {"v": fp_func(f, x)}, f"{what} {i}")
    for ax in range(len(x)):
        f = b.derivatives(ax)[i]
        need(same(fp_func(copy.deepcopy(f), x), fp_func(f, x)), "deepcopy of a derivative")

    def fp(bb):
        return {"ids": bb.mode_ids, "v": [fp_func(f, x) for f in bb.functions],
                "g": [fp_func(f, x) for f in bb.gradients]}
    check_copies(b, fp, "basis")
    need(len(set(b.mode_ids)) == n, "mode ids not distinct")
    ids = {m: k for k, m in enumerate(b.mode_ids)}
    c = pickle.loads(pickle.dumps(b))
    need([ids[m] for m in c.mode_ids] == list(range(n)), "mode ids of the copy not usable as keys")

# }}}


# {{{ rules and faces

def quads(spec):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    k, n = spec["kind"], spec["n"]
    fd = spec["fd"]
    if k == "gl":
        return mp.LegendreGaussQuadrature(n, force_dim_axis=fd)
    if k == "jg":
        return mp.JacobiGaussQuadrature(0.5, 1.25, n, force_dim_axis=fd)
    if k == "lgl":
        return mp.LegendreGaussLobattoQuadrature(n + 1, force_dim_axis=fd)
    if k == "cheb":
        return mp.ChebyshevGaussQuadrature(n, kind=1 + n % 2, force_dim_axis=fd)
    if k == "cc":
        return mp.ClenshawCurtisQuadrature(n + 2, force_dim_axis=fd)
    if k == "fejer":
        return mp.FejerQuadrature(n + 1, kind=1 + n % 2, force_dim_axis=fd)
    if k == "xg":
        return mp.XiaoGimbutasSimplexQuadrature(n + 1, 2 + n % 2)
    if k == "vr":
        return mp.VioreanuRokhlinSimplexQuadrature(n + 1, 2 + n % 2)
    if k == "gm":
        return mp.GrundmannMoellerSimplexQuadrature(n, 1 + n % 4)
    if k == "js":
        return mp.JaskowiecSukumarQuadrature(n + 1, 3)
    if k == "wv":
        return mp.WitherdenVincentQuadrature(2*(n % 4) + 1, 2 + n % 2)
    if k == "0d":
        return mp.ZeroDimensionalQuadrature()
    if k == "lgt":
        return mp.LegendreGaussTensorProductQuadrature(n, 1 + n % 3)
    if k == "tr":
        return Transformed1DQuadrature(mp.LegendreGaussQuadrature(n), -0.5, 2.25)
    if k == "tp":
        return mp.TensorProductQuadrature([
            mp.LegendreGaussQuadrature(n, force_dim_axis=True),
            mp.XiaoGimbutasSimplexQuadrature(n + 1, 2), mp.ZeroDimensionalQuadrature()])
    if k == "tr2":
        from modepy.quadrature.transplanted import map_identity, map_strip
        return mp.transplanted_legendre_gauss_quadrature(
            n + 2, map_identity if n % 2 else map_strip)
    raise AssertionError(k)


KINDS = ["gl", "jg", "lgl", "cheb", "cc", "fejer", "xg", "vr", "gm", "js", "wv", "0d", "lgt",
         "tr", "tp", "tr2"]


def quad_cases(tier):
    for k in KINDS:
        for n in range(3 if tier == "quick" else 8):
            for fd in (False, True):
                if fd and k not in ("gl", "jg", "lgl", "cheb", "cc", "fejer"):
                    continue
                yield {"kind": k, "n": n, "fd": fd}


def run_quad(case):
    q = quads(case)
    check_copies(q, fp_quad, f"rule {case['kind']}")
    need(same(fp_quad(q), fp_quad(quads(case))), "separately built rules differ")
    if case["kind"] == "0d":
        from modepy.quadrature import inf, isinf
        c = pickle.loads(pickle.dumps(q))
        need(isinf(c.exact_to) and c.exact_to == inf, "infinite exactness lost")


def face_cases(tier):
    for s in ["S1", "S2", "S3", "H1", "H2", "H3"]:
        d = gen.shape_dims(s)
        for i in range(2*len(d) if s[0] == "H" else d[0] + 1):
            yield {"shape": s, "face": i}


def run_face(case):
    import modepy as mp
    s = gen.build_shape(case["shape"])
    f = mp.faces_for_shape(s)[case["face"]]
    need(f == f and hash(f) == hash(f), "face not equal to itself")
    need(f in {f}, "face not usable in a set")
    check_copies(f, fp_face, f"face {case['face']} of {case['shape']}")
    g = mp.faces_for_shape(s)[case["face"]]
    need(same(fp_face(f), fp_face(g)), "separately built faces differ")
    if f == g:
        need(hash(f) == hash(g), "equal faces hash differently")
    # a face is a shape: spaces, bases and rules of its dimension work on it
    if f.dim:
        sp = mp.space_for_shape(f, 2)
        want = fp_space(sp, gen.build_shape(
            f"S{f.dim}" if case["shape"][0] == "S" or f.dim == 1 else f"H{f.dim}"))
        need(same(fp_space(sp, f), want), "face is not interchangeable with its shape")
        need(same(fp_space(sp, copy.deepcopy(f)), want), "copy of the face is not a shape")

# }}}


# {{{ other processes

def batch(kind):
    """objects whose pickles travel to a fresh interpreter"""
    import modepy as mp
    from vlib.nodal import build_basis
    if kind == "shapes":
        return [build_shape(x) for x in
                ("S2", "H3", ["S2", "S1"], [["S1", "S3"]], ["H2", ["S1", "S2"]])]
    if kind == "spaces":
        return [mp.PN(2, 3), mp.QN(3, 2), build_space(["S2", "S1"], [2, 1]),
                build_space(["H2", "S1"], [1, 1, 3])]
    if kind == "rules":
        return [quads({"kind": k, "n": 2, "fd": False}) for k in KINDS]
    if kind == "faces":
        return [f for s in ("S1", "S2", "S3", "H2", "H3")
                for f in mp.faces_for_shape(gen.build_shape(s))]
    return [build_basis(k, s, o) for k in ("onb", "mono")
            for s, o in (("S2", 3), ("H2", [1, 2]), ("T:2,1", [1, 2]), ("S3", 1))]


def fp_any(kind, objs):
    if kind == "shapes":
        return [fp_shape(o) for o in objs]
    if kind == "spaces":
        shapes = [build_shape(x) for x in ("S2", "H3", ["S2", "S1"], ["H2", "S1"])]
        return [fp_space(o, s) for o, s in zip(objs, shapes, strict=True)]
    if kind == "rules":
        return [fp_quad(o) for o in objs]
    if kind == "faces":
        return [fp_face(o) for o in objs]
    out = []
    for b in objs:
        d = b._dim
        x = np.linspace(-0.9, -0.4, 3*d).reshape(d, 3)
        out.append({"ids": b.mode_ids, "v": [fp_func(f, x) for f in b.functions],
                    "g": [fp_func(f, x) for f in b.gradients]})
    return out


CHILD = """
import sys, pickle, base64
sys.path[:0] = [{repo!r}, {here!r}]
from checks import c24
kind, data = sys.stdin.read().split()
objs = pickle.loads(base64.b64decode(data))
extra = []
if kind == "shapes":
    mine = c24.batch(kind)
    extra = [o == m and hash(o) == hash(m) and {{o: 1}}.get(m) == 1
             for o, m in zip(objs, mine)]
sys.stdout.write("FP:" + base64.b64encode(pickle.dumps((c24.fp_any(kind, objs), extra))).decode())
"""


def proc_cases(tier):
    for kind in ("shapes", "spaces", "rules", "faces", "bases"):
        for proto in ((pickle.HIGHEST_PROTOCOL,) if tier == "quick" else range(6)):
            yield {"kind": kind, "protocol": proto}


def run_proc(case):
    objs = batch(case["kind"])
    for o in objs:
        if case["kind"] == "shapes":
            hash(o)      # must not end up in the pickle
    data = base64.b64encode(pickle.dumps(objs, case["protocol"])).decode()
    env = dict(os.environ, PYTHONHASHSEED="4711", OMP_NUM_THREADS="1")
    code = CHILD.format(repo=REPO, here=HERE)
    # the same search path as here (hypothesis lives outside the default one)
    code = f"import sys; sys.path[:] = {sys.path!r}\n" + code
    r = subprocess.run([sys.executable, "-c", code], input=f"{case['kind']} {data}",
                       capture_output=True, text=True, env=env, timeout=200)
    if "FP:" not in r.stdout:
        if "MemoryError" in r.stderr or r.returncode < 0:
            raise MemoryError(r.stderr[-1000:])
        fail(f"a fresh process could not use the pickles: {r.stderr[-2000:]}")
    got, extra = pickle.loads(base64.b64decode(r.stdout.split("FP:")[1]))
    want = fp_any(case["kind"], objs)
    for i, (a, b) in enumerate(zip(want, got, strict=True)):
        if not same(a, b):
            fail(f"{case['kind']} object {i} behaves differently in another process:"
                 f" {[k for k in a if not same(a[k], b[k])]}")
    need(all(extra), f"unpickled shapes are not equal to shapes built there: {extra}")

# }}}


SUBS = [
    Sub("shapes", run_shape, strategy=shape_cases(), quick=150, thorough=4000, shards=2,
        nontrivial=lambda c: len(flat(c["a"])) > 1, rule="product of at least two factors"),
    Sub("spaces", run_space, strategy=space_cases(), quick=100, thorough=4000, shards=3,
        nontrivial=lambda c: len(c["orders"]) > 1, rule="product of at least two factors"),
    Sub("functions", run_func, strategy=func_cases(), quick=100, thorough=4000, shards=2),
    Sub("rules", run_quad, cases=quad_cases),
    Sub("faces", run_face, cases=face_cases),
    Sub("processes", run_proc, cases=proc_cases, shards=3),
]
