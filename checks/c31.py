"""C31: what an object is, not how it was made.  A shape or space can be made in many ways:
directly, as a face, as an instance of a user's subclass, as a product of one or of nested
factors, by copying or unpickling.  All answers are those for the plain object."""
from __future__ import annotations

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import modepy as mp
from modepy import modal_decay as md
from modepy import tools
from vlib import gen
from vlib.core import Sub, Trivial
from vlib.util import close, fail, need


ID = "C31"
SCALE = 3
ASSUMPTIONS = [
    "subclasses by the user add nothing, so that they mean what their base class means",
    "faces are only asked for shapes that are simplices or instances of Hypercube",
]


class MySimplex(mp.Simplex):
    pass


class MyHypercube(mp.Hypercube):
    pass


class MyProduct(mp.TensorProductShape):
    pass


class MyPN(mp.PN):
    pass


class MyQN(mp.QN):
    pass


class MyProductSpace(mp.TensorProductSpace):
    pass


# {{{ ways to make shapes

def segment(how, k):
    """a shape of dimension one"""
    if how == "simplex face":
        fs = mp.faces_for_shape(mp.Simplex(2))
        return fs[k % len(fs)]
    if how == "cube face":
        fs = mp.faces_for_shape(mp.Hypercube(2))
        return fs[k % len(fs)]
    if how == "face of face":
        f = mp.faces_for_shape(mp.Simplex(3) if k % 2 else mp.Hypercube(3))
        fs = mp.faces_for_shape(f[k % len(f)])
        return fs[k % len(fs)]
    if how == "subclass":
        return MySimplex(1)
    if how == "cube":
        return mp.Hypercube(1)
    return mp.Simplex(1)


def factor(d, how, k):
    if d == 1:
        return segment(how, k)
    if how == "simplex face" and d == 2:
        fs = mp.faces_for_shape(mp.Simplex(3))
        return fs[k % len(fs)]
    if how == "subclass":
        return MySimplex(d)
    return mp.Simplex(d)


FACTORS = ["simplex face", "cube face", "face of face", "subclass", "cube", "plain"]
WRAP = ["", "copy", "deepcopy", "pickle", "single", "single twice"]


def wrapped(x, how, cls):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "pickle":
        return pickle.loads(pickle.dumps(x))
    if how == "single":
        return cls((x,))
    if how == "single twice":
        return cls((cls((x,)),))
    return x


def make_shape(s, case):
    dims = gen.shape_dims(s)
    how, k, fac = case["how"], case["k"], case["factors"]
    if s[0] == "S" and s != "S0":
        x = factor(dims[0], fac[0], k)
    elif s == "S0":
        fs = mp.faces_for_shape(segment(fac[0], k) if how != "plain" else mp.Simplex(1))
        x = fs[k % 2]
    else:
        fs = [factor(d, f, k + i) for i, (d, f) in
              enumerate(zip(dims, [*fac, *fac, *fac], strict=False))]
        cube = set(dims) == {1}
        if how == "hypercube" and cube:
            x = mp.Hypercube(len(dims))
        elif how == "my hypercube" and cube:
            x = MyHypercube(len(dims))
        elif how == "face" and cube and len(dims) == 2:
            f = mp.faces_for_shape(MyHypercube(3) if k % 2 else mp.Hypercube(3))
            x = f[k % 6]
        elif how == "my product":
            x = MyProduct(tuple(fs))
        elif how == "nested" and len(fs) > 2:
            j = 1 + k % (len(fs) - 1)
            x = mp.TensorProductShape((mp.TensorProductShape(tuple(fs[:j])),
                                       mp.TensorProductShape(tuple(fs[j:]))))
        elif how == "cubes" and len(dims) > 1 and dims[:2] == [1, 1]:
            x = mp.TensorProductShape((mp.Hypercube(2), *fs[2:]))
        elif how == "face product" and dims[-2:] == [1, 1] and len(dims) > 2:
            x = mp.TensorProductShape((*fs[:-2], mp.faces_for_shape(mp.Hypercube(3))[k % 6]))
        else:
            x = mp.TensorProductShape(tuple(fs))
    return wrapped(x, case["wrap"], mp.TensorProductShape)


HOW = ["plain", "hypercube", "my hypercube", "face", "my product", "nested", "cubes",
       "face product"]
HOWSP = ["for shape", "direct", "subclass", "nested", "my product", "qn", "my qn"]


def make_space(s, shape, order, case):
    dims = gen.shape_dims(s)
    os = list(order) if isinstance(order, list) else [order]*len(dims)
    how = case["space"]
    if how == "for shape":
        x = mp.space_for_shape(shape, gen.order_arg(order))
    elif s[0] == "S":
        x = (MyPN if how == "subclass" else mp.PN)(dims[0] if dims else 0, os[0] if os else order)
    else:
        fs = [(MyPN if (how == "subclass") else mp.PN)(d, o)
              for d, o in zip(dims, os, strict=True)]
        uniform = set(dims) == {1} and len(set(os)) == 1
        if how == "qn" and uniform:
            x = mp.QN(len(dims), os[0])
        elif how == "my qn" and uniform:
            x = MyQN(len(dims), os[0])
        elif how == "my product":
            x = MyProductSpace(tuple(fs))
        elif how == "nested" and len(fs) > 2:
            j = 1 + case["k"] % (len(fs) - 1)
            x = mp.TensorProductSpace((mp.TensorProductSpace(tuple(fs[:j])),
                                       mp.TensorProductSpace(tuple(fs[j:]))))
        else:
            x = mp.TensorProductSpace(tuple(fs))
    return wrapped(x, case["wrapsp"], mp.TensorProductSpace)

# }}}


# {{{ questions

def basis(f):
    def q(c):
        b = f(c.space, c.shape)
        x = c.x
        out = [list(b.mode_ids), [g(x) for g in b.functions], [g(x) for g in b.gradients]]
        for i in range(c.dim):
            out.append([g(x) for g in b.derivatives(i)])
        try:
            out.append(b.orthonormality_weight())
        except mp.BasisNotOrthonormal:
            out.append("not orthonormal")
        return out
    return q


def operators(c):
    b = mp.orthonormal_basis_for_space(c.space, c.shape)
    y = mp.edge_clustered_nodes_for_space(c.space, c.shape)
    out = [mp.vandermonde(b.functions, y), mp.mass_matrix(b, y),
           mp.resampling_matrix(b.functions, c.x, y)]
    if c.dim:
        out += list(mp.diff_matrices(b, y))
    return out


def faces(c):
    if c.product:
        return []
    out = []
    for f in mp.faces_for_shape(c.shape):
        z = np.linspace(-0.9, -0.2, 3*f.dim).reshape(f.dim, 3) if f.dim else np.zeros((0, 1))
        out += [f.dim, f.face_index, list(f.volume_vertex_indices), f.map_to_volume(z),
                mp.face_normal(f), mp.face_normal(f, normalize=False),
                mp.unit_vertices_for_shape(f)]
    return out


def face_operators(c):
    if c.product or not 1 <= c.dim <= 3:
        return []
    b = mp.orthonormal_basis_for_space(c.space, c.shape)
    y = mp.edge_clustered_nodes_for_space(c.space, c.shape)
    out = []
    order = 2*max(c.orders)
    for f in mp.faces_for_shape(c.shape):
        fsp = mp.space_for_shape(f, max(c.orders))
        fb = mp.orthonormal_basis_for_space(fsp, f)
        q = mp.quadrature_for_space(mp.space_for_shape(f, order), f)
        out += [mp.modal_mass_matrix_for_face(f, q, fb.functions, b.functions),
                mp.nodal_mass_matrix_for_face(
                    f, q, fb.functions, b.functions, y,
                    mp.edge_clustered_nodes_for_space(fsp, f)),
                mp.nodal_quad_mass_matrix_for_face(f, q, b.functions, y)]
    return out


def reshaped(c):
    a = np.arange(2.0*c.space.space_dim).reshape(2, -1)
    if not isinstance(c.space, mp.TensorProductSpace):
        return []
    r = tools.reshape_array_for_tensor_product_space(c.space, a)
    return [np.array(r), np.array(tools.unreshape_array_for_tensor_product_space(c.space, r))]


def rule(c):
    q = mp.quadrature_for_space(c.space, c.shape)
    e = q.exact_to
    return [q.nodes, q.weights, e if isinstance(e, int) else "inf", q.dim]


def space_info(c):
    try:
        o = c.space.order
    except AttributeError:
        o = "none"
    return [c.space.spatial_dim, c.space.space_dim, o,
            [(b.spatial_dim, b.order) for b in getattr(c.space, "bases", [])]]


QUESTIONS = {
    "shape": lambda c: [c.shape.dim, c.shape.nvertices, c.shape.nfaces,
                        mp.unit_vertices_for_shape(c.shape)],
    "space": space_info,
    "node_tuples": lambda c: list(mp.node_tuples_for_space(c.space)),
    "equispaced": lambda c: mp.equispaced_nodes_for_space(c.space, c.shape),
    "edge_clustered": lambda c: mp.edge_clustered_nodes_for_space(c.space, c.shape),
    "random": lambda c: mp.random_nodes_for_shape(c.shape, 6, np.random.default_rng(3)),
    "orthonormal": basis(mp.orthonormal_basis_for_space),
    "monomial": basis(mp.monomial_basis_for_space),
    "basis": basis(mp.basis_for_space),
    "rule": rule,
    "submesh": lambda c: [list(map(int, e)) for e in mp.submesh_for_shape(
        c.shape, mp.node_tuples_for_space(c.space))],
    "operators": operators,
    "faces": faces,
    "face_operators": face_operators,
    "reshape": reshaped,
    "lebesgue": lambda c: mp.estimate_lebesgue_constant(
        max(c.orders), mp.edge_clustered_nodes_for_space(
            mp.space_for_shape(c.shape, max(c.orders)), c.shape), c.shape),
    "tail": lambda c: md.interp_error_coefficient_estimator_matrix(
        mp.edge_clustered_nodes_for_space(c.space, c.shape), 1,
        mp.orthonormal_basis_for_space(c.space, c.shape)),
}


class C:
    def __init__(self, shape, space, s, order, product):
        self.shape, self.space, self.product = shape, space, product
        dims = gen.shape_dims(s)
        self.dim = sum(dims)
        self.orders = order if isinstance(order, list) else [order]
        self.x = np.random.default_rng(5).uniform(-1, 0.2, (self.dim, 4))/max(self.dim, 1) - 0.3


def answer(c, q):
    try:
        return QUESTIONS[q](c)
    except NotImplementedError:
        return "not implemented"
    except (ValueError, AttributeError, IndexError, TypeError, AssertionError) as e:
        return e


def compare(x, y, what):
    if isinstance(y, (list, tuple)):
        need(isinstance(x, (list, tuple)) and len(x) == len(y), f"{what}: {x!r}, not {y!r}")
        for i, (a, b) in enumerate(zip(x, y, strict=True)):
            compare(a, b, f"{what}[{i}]")
    elif isinstance(y, (np.ndarray, float, np.floating)):
        need(not isinstance(x, (str, list, tuple)), f"{what}: {x!r}, not {y!r}")
        x = np.asarray(x)
        need(x.shape == np.shape(y), f"{what}: shape {x.shape}, not {np.shape(y)}")
        close(x, y, 1e-11, what, scale=max(1.0, float(np.max(np.abs(y), initial=0.0))))
    else:
        need(x == y, f"{what}: {x!r}, not {y!r}")

# }}}


SHAPES = ["S0", "S1", "S2", "S3", "S4", "H2", "H3", "H4", "T:1,1", "T:1,1,1", "T:2,1", "T:1,2",
          "T:2,1,1", "T:1,1,2", "T:1,2,1", "T:3,1", "T:1,3"]


@st.composite
def made(draw):
    s = draw(st.sampled_from(SHAPES))
    nf = len(gen.shape_dims(s))
    top = 2 if s in ("H4", "S4", "T:2,1,1", "T:1,1,2", "T:1,2,1", "T:3,1", "T:1,3") else 4
    n = draw(st.integers(0, top))
    if nf > 1 and draw(st.booleans()):
        n = draw(st.lists(st.integers(0, top), min_size=nf, max_size=nf))
    return {"s": s, "order": n, "how": draw(st.sampled_from(HOW)),
            "factors": draw(st.lists(st.sampled_from(FACTORS), min_size=2, max_size=3)),
            "k": draw(st.integers(0, 11)), "wrap": draw(st.sampled_from(WRAP)),
            "space": draw(st.sampled_from(HOWSP)), "wrapsp": draw(st.sampled_from(WRAP)),
            "ask": draw(st.lists(st.sampled_from(sorted(QUESTIONS)), min_size=3, max_size=6,
                                 unique=True))}


def run(case):
    s, n = case["s"], case["order"]
    shape = make_shape(s, case)
    space = make_space(s, shape, n, case)
    plain = gen.build_shape(s)
    # (faces are known for hypercubes, not for products of segments)
    product = s[0] != "S" and not (isinstance(shape, mp.Hypercube)
                                   and isinstance(plain, mp.Hypercube))
    psp = mp.space_for_shape(plain, gen.order_arg(n))
    got = C(shape, space, s, n, product)
    ref = C(plain, psp, s, n, product)
    if repr(shape) == repr(plain) and repr(space) == repr(psp) \
            and not case["wrap"] and not case["wrapsp"]:
        raise Trivial
    for q in case["ask"]:
        b = answer(ref, q)
        a = answer(got, q)
        what = f"{q} of {type(shape).__name__} and {type(space).__name__} for {s}, order {n}"
        if isinstance(b, Exception):
            # outside of the library's range, whatever the answer
            continue
        if isinstance(a, Exception):
            fail(f"{what}: {type(a).__name__}: {a}")
        compare(a, b, what)
    return [type(shape).__name__, type(space).__name__, case["wrap"] or "as made"]


def all_made(tier):
    """every way to make every shape and space, all questions"""
    for s in SHAPES:
        for i, how in enumerate(HOW):
            if s[0] == "S" and how != "plain":
                continue
            for j, f in enumerate(FACTORS):
                for v in range(1 if tier == "quick" else 42):
                    if s[0] == "S":
                        v = 7*v + 1
                    yield {"s": s, "order": 1 + (i + j) % 2, "how": how,
                           "factors": [f, FACTORS[(j + 1) % len(FACTORS)]], "k": i + j + v,
                           "wrap": WRAP[(i + j + v) % 6], "space": HOWSP[(i + 2*j + v) % 7],
                           "wrapsp": WRAP[(2*i + j + v // 6) % 6],
                           "ask": sorted(QUESTIONS)}


RULE = "shape or space is not made in the plain way"
SUBS = [
    Sub("all", run, cases=all_made, shards=8, rule=RULE),
    Sub("made", run, made(), quick=200, thorough=20000, shards=4, rule=RULE),
]
