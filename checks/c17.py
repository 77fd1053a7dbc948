"""C17: faces and normals."""
from __future__ import annotations

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub
from vlib.util import arr, close, fail, need


ID = "C17"
SCALE = 6
ASSUMPTIONS = [
    "shapes with faces: simplices and hypercubes of dimension 1 to 3 (others are"
    " rejected by the library, see C26)",
]

FACED = ["S1", "S2", "S3", "H1", "H2", "H3"]


def facets(s):
    """Vertex index sets of the facets, by geometry."""
    dims = gen.shape_dims(s)
    v = ref.vertices(dims)
    out = set()
    o = 0
    for d in dims:
        for i in range(d):
            out.add(frozenset(np.flatnonzero(v[o + i] == -1).tolist()))
        out.add(frozenset(np.flatnonzero(np.isclose(v[o:o + d].sum(axis=0), 2 - d)).tolist()))
        o += d
    return out


def ref_face_vertices(fd, is_simplex):
    return ref.vertices([fd] if is_simplex else [1]*fd) if fd else np.zeros((0, 1))


def geom(face, s):
    """origin and tangent matrix of the face from its vertex list"""
    v = ref.vertices(gen.shape_dims(s))[:, list(face.volume_vertex_indices)]
    fd = v.shape[0] - 1
    return v, v[:, :1], (v[:, 1:fd + 1] - v[:, :1])/2


# {{{ static structure

def shape_cases(tier):
    for s in [*FACED, "S0", "S4", "S5", "H4", "H5", *gen.PRISMS, "T:1,1", "T:1,1,1", "T:1"]:
        yield {"shape": s}


def run_shape(case):
    import modepy as mp
    s = case["shape"]
    shape = gen.build_shape(s)
    dims = gen.shape_dims(s)
    need(shape.dim == sum(dims), f"dim {shape.dim}")
    e = ref.vertices(dims)
    v = arr(mp.unit_vertices_for_shape(shape), e.shape, "vertices")
    close(v, e, 1e-15, "vertices of the reference element", scale=1.0)
    need(shape.nvertices == e.shape[1], f"nvertices {shape.nvertices}")
    if s != "S0":
        nf = sum(d + 1 for d in dims)
        need(shape.nfaces == nf, f"nfaces {shape.nfaces}, expected {nf}")
    if s not in FACED:
        return
    faces = mp.faces_for_shape(shape)
    need(len(faces) == shape.nfaces, f"{len(faces)} faces")
    need({frozenset(f.volume_vertex_indices) for f in faces} == facets(s),
         "faces do not cover the boundary exactly once")
    for i, f in enumerate(faces):
        need(isinstance(f, mp.Face) and isinstance(f, mp.Shape), "face is not a shape")
        need(f.dim == shape.dim - 1 and f.face_index == i and f.volume_shape == shape,
             f"face {i}: dim/face_index/volume_shape")
        need(len(set(f.volume_vertex_indices)) == len(f.volume_vertex_indices)
             == f.nvertices, f"face {i}: vertex list {f.volume_vertex_indices}")
        need(isinstance(f, mp.Simplex) == (s[0] == "S" or f.dim <= 1)
             and isinstance(f, mp.Hypercube) == (s[0] == "H" and f.dim > 1),
             f"face {i} is a {type(f).__name__}")
        fv = arr(mp.unit_vertices_for_shape(f), (f.dim, f.nvertices), "face vertices")
        close(f.map_to_volume(fv), e[:, list(f.volume_vertex_indices)], 1e-14,
              f"face {i}: images of the face vertices", scale=1.0)
        # normal
        vv, o, t = geom(f, s)
        n = arr(mp.face_normal(f), (shape.dim,), f"normal {i}")
        need(abs(np.linalg.norm(n) - 1) < 1e-14, f"face {i}: normal of length {np.linalg.norm(n)}")
        need(np.all(np.abs(t.T @ n) < 1e-14), f"face {i}: normal {n} not orthogonal")
        inner = e.mean(axis=1)
        need(n @ (vv.mean(axis=1) - inner) > 0.1, f"face {i}: normal {n} not outward")
        if f.dim:
            m = arr(mp.face_normal(f, normalize=False), (shape.dim,))
            area = math.sqrt(np.linalg.det(4*t.T @ t))
            close(m, n*area, 1e-13, f"face {i}: unnormalized normal", scale=1 + area)

# }}}


# {{{ maps

@st.composite
def map_cases(draw):
    s = draw(st.sampled_from(FACED))
    shape_dim = sum(gen.shape_dims(s))
    fd = shape_dim - 1
    n = draw(st.integers(1, 5))
    return {"shape": s, "face": draw(st.integers(0, 5)),
            "p": [[draw(st.floats(-3, 3, width=32)) for _ in range(fd)] for _ in range(n)],
            "in": draw(gen.points([fd] if s[0] == "S" or fd <= 1 else [1]*fd, max_size=4))}


def run_map(case):
    import modepy as mp
    s = case["shape"]
    shape = gen.build_shape(s)
    faces = mp.faces_for_shape(shape)
    f = faces[case["face"] % len(faces)]
    p = gen.pts(case["p"], f.dim)
    if f.dim == 0:
        p = np.zeros((0, len(case["p"])))
    v, o, t = geom(f, s)
    p0 = p.copy()
    x = arr(f.map_to_volume(p), (shape.dim, p.shape[1]), "mapped points")
    need(np.array_equal(p, p0), "points modified")
    close(x, o + t @ (1 + p), 1e-13, "face map is the affine map of its vertices",
          shape=x.shape, scale=5.0)
    q = gen.pts(case["in"], f.dim) if f.dim else np.zeros((0, 1))
    y = arr(f.map_to_volume(q))
    dims = gen.shape_dims(s)
    need(np.all(ref.inside(dims, y)), "face point outside the element")
    n = mp.face_normal(f)
    close(n @ (y - v[:, :1]), np.zeros(y.shape[1]), 1e-13, "point not on the face's plane",
          scale=1.0)
    if f.dim == 2:
        # edges of a face are edges of the element
        for g in mp.faces_for_shape(f):
            ev = arr(f.map_to_volume(g.map_to_volume(np.array([[-1.0, 1.0]]))), (3, 2))
            want = ref.vertices(dims)[:, [f.volume_vertex_indices[k]
                                          for k in g.volume_vertex_indices]]
            close(ev, want, 1e-14, "edge of a face", scale=1.0)

# }}}


# {{{ structured point sets

def set_cases(tier):
    top = 8 if tier == "quick" else 20
    for s in FACED:
        if s in ("S1", "H1"):
            continue
        for i in range(6):
            for n in range(top):
                for kind in ("rule", "rule2", "clustered", "equispaced", "vertices",
                             "mirrored"):
                    yield {"shape": s, "face": i, "n": n, "kind": kind}


def run_set(case):
    """the sets of points that are used: rules, nodes, vertices, whose points are
    related to one another"""
    import modepy as mp
    s, n, kind = case["shape"], case["n"], case["kind"]
    faces = mp.faces_for_shape(gen.build_shape(s))
    f = faces[case["face"] % len(faces)]
    fd = [f.dim] if s[0] == "S" else [1]*f.dim
    sh = gen.build_shape(f"S{f.dim}" if s[0] == "S" else f"H{f.dim}")
    sp = mp.space_for_shape(sh, max(n, 1))
    if kind == "rule":
        p = mp.quadrature_for_space(sp, sh).nodes
    elif kind == "rule2":
        p = (mp.GrundmannMoellerSimplexQuadrature(n % 5, f.dim) if s[0] == "S" else
             mp.LegendreGaussLobattoTensorProductQuadrature(n + 1, f.dim)).nodes
    elif kind == "clustered":
        p = mp.edge_clustered_nodes_for_space(sp, sh)
    elif kind == "equispaced":
        p = mp.equispaced_nodes_for_space(sp, sh)
    else:
        p = ref.vertices(fd)
        if kind == "mirrored":
            p = -p[:, ::-1]
        p = np.roll(p, n, axis=1)
        p = p[:, :max(1, p.shape[1] - n // 4)]
    p = np.array(p, dtype=np.float64).reshape(f.dim, -1)
    v, o, t = geom(f, s)
    for q in (p, p[:, ::-1], -p, p*0.5 - 0.3):
        close(f.map_to_volume(q), o + t @ (1 + q), 1e-13, "face map at a set of points",
              shape=(f.dim + 1, q.shape[1]), scale=5.0)

# }}}


@st.composite
def lay_cases(draw):
    s = draw(st.sampled_from(FACED))
    fd = sum(gen.shape_dims(s)) - 1
    how = draw(layouts.how())
    co = st.integers(-3, 3) if layouts.typed(how) else st.floats(-3, 3, width=32)
    return {"shape": s, "face": draw(st.integers(0, 5)), "how": how,
            "many": draw(layouts.sizes),
            "p": draw(st.lists(st.lists(co, min_size=fd, max_size=fd), min_size=1,
                               max_size=6))}


def run_lay(case):
    """Points of any type and layout."""
    import modepy as mp
    faces = mp.faces_for_shape(gen.build_shape(case["shape"]))
    f = faces[case["face"] % len(faces)]
    p = gen.pts(case["p"], f.dim) if f.dim else np.zeros((0, len(case["p"])))
    layouts.same(f.map_to_volume, [p], case["how"], "face map", 1e-13)
    layouts.batch(f.map_to_volume, p, case["many"], "face map", tol=1e-13)
    # pointwise: each point is mapped alone as it is mapped among others
    x = arr(f.map_to_volume(p))
    for j in range(p.shape[1]):
        close(f.map_to_volume(p[:, j:j+1]), x[:, j:j+1], 1e-14, "one point at a time",
              scale=10.0)


# {{{ divergence theorem

@st.composite
def div_cases(draw):
    s = draw(st.sampled_from(FACED))
    return {"shape": s, "deg": draw(st.integers(0, 7 if s != "H3" else 5)),
            "seed": draw(st.integers(0, 10**6)), "lib": draw(st.booleans())}


def run_div(case):
    import modepy as mp
    s, deg = case["shape"], case["deg"]
    shape = gen.build_shape(s)
    dims = gen.shape_dims(s)
    dim = sum(dims)
    rng = np.random.default_rng(case["seed"])
    exps = [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg]
    c = rng.uniform(-1, 1, size=(dim, len(exps)))
    e = np.array(exps).T                        # (dim, nexp)

    def field(x):
        m = np.prod(x[:, :, None]**e[:, None, :], axis=0)      # (npts, nexp)
        return c @ m.T

    def div(x):
        r = np.zeros(x.shape[1])
        for ax in range(dim):
            ee = e.copy()
            ee[ax] = np.maximum(ee[ax] - 1, 0)
            m = np.prod(x[:, :, None]**ee[:, None, :], axis=0)*e[ax]
            r += m @ c[ax]
        return r

    if case["lib"]:
        sp = mp.space_for_shape(shape, deg + 1)
        q = mp.quadrature_for_space(sp, shape)
        xq, wq = np.asarray(q.nodes).reshape(dim, -1), np.asarray(q.weights)
    else:
        xq, wq = ref.tp_quad(dims, [deg + 1]*len(dims))
    vol = np.sum(wq*div(xq))
    tot = 0.0
    mag = 1.0
    for f in mp.faces_for_shape(shape):
        fd = f.dim
        fdims = [fd] if s[0] == "S" or fd <= 1 else [1]*fd
        if case["lib"] and fd:
            fq = mp.quadrature_for_space(mp.space_for_shape(f, deg + 1), f)
            xf, wf = np.asarray(fq.nodes).reshape(fd, -1), np.asarray(fq.weights)
        else:
            xf, wf = ref.tp_quad(fdims if fd else [0], [deg + 1]*len(fdims))
        y = arr(f.map_to_volume(xf), (dim, len(wf)))
        # surface element from the map itself
        corners = np.vstack([np.full(fd, -1.0), 2*np.eye(fd) - 1]).T if fd else np.zeros((0, 1))
        im = arr(f.map_to_volume(corners))
        t = (im[:, 1:] - im[:, :1])/2
        jac = math.sqrt(np.linalg.det(t.T @ t)) if fd else 1.0
        n = np.asarray(mp.face_normal(f))
        tot += jac*np.sum(wf*(n @ field(y)))
        mag += jac*np.sum(wf*np.abs(field(y)).sum(axis=0))
    if not abs(tot - vol) < 1e-11*mag*len(exps):
        fail(f"divergence theorem: volume integral {vol}, boundary integral {tot}")

# }}}


SUBS = [
    Sub("structure", run_shape, cases=shape_cases, rule="every listed shape"),
    Sub("maps", run_map, map_cases(), quick=300, shards=2,
        nontrivial=lambda c: c["shape"] not in ("S1", "H1"), rule="at least 2-D",
        classify=lambda c: [c["shape"]]),
    Sub("sets", run_set, cases=set_cases, shards=2, rule="every case"),
    Sub("layouts", run_lay, lay_cases(), quick=150, classify=lambda c: [layouts.label(c["how"])],
        rule="every case"),
    Sub("divergence", run_div, div_cases(), quick=200, shards=2,
        nontrivial=lambda c: c["deg"] > 0, rule="non-constant field",
        classify=lambda c: [c["shape"]]),
]
