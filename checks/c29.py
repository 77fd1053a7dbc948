"""C29: operators on the same element satisfy the discrete calculus identities."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from checks.c19 import KINDS, structured
from vlib import gen
from vlib.core import Sub, Trivial
from vlib.nodal import BASES, basis_cond, build_basis, cond, node_set, node_spec
from vlib.util import arr, close, quiet

ID = "C29"
SCALE = 4
ASSUMPTIONS = [
    "accuracy is judged relative to the condition numbers of the interpolation matrices"
    " involved; cases above 1e7 are skipped",
    "identities on faces: simplices and hypercubes of dimension 1 to 3 (the shapes that"
    " have faces in the library)",
    "the surface measure of a face is the length of the unnormalized normal, which is"
    " 2**(dim of the face) times the ratio of the areas of face and reference face",
]

TOL = 1e-12
CMAX = 1e7


def volume_ops(basis_kind, s, order, x):
    """mass matrix, differentiation matrices"""
    import modepy as mp
    n, dim = x.shape[1], x.shape[0]
    m = arr(mp.mass_matrix(build_basis("onb", s, order), x), (n, n), "mass matrix")
    d = [arr(a, (n, n), "differentiation matrix")
         for a in mp.diff_matrices(build_basis(basis_kind, s, order), x)]
    if len(d) != dim:
        arr(d, (dim, n, n), "differentiation matrices")
    return m, d


def amax(*xs):
    return max((float(np.max(np.abs(x))) for x in xs if np.size(x)), default=0.0)


# {{{ divergence theorem

FACED = ["S1", "S2", "S3", "H1", "H2", "H3"]


@st.composite
def green_cases(draw, shapes=FACED):
    c = draw(gen.shape_and_order(shapes, max_dofs=60, max_order=12))
    c["nodes"] = draw(node_spec())
    c["fnodes"] = draw(node_spec(["clustered", "equi", "perturbed"]))
    c["basis"] = draw(st.sampled_from(BASES))
    c["forder"] = draw(st.integers(0, 2))
    c["quad"] = draw(st.booleans())
    return c


def face_shape_str(s, fd):
    return f"S{fd}" if (s[0] == "S" or fd <= 1) else f"H{fd}"


def face_ops(face, s, order, x, c):
    """(nodes of the face in the volume, face mass matrix incl. measure, trace,
    condition number)"""
    import modepy as mp
    orders = gen.orders_of(s, order)
    fd = face.dim
    o = max(orders) + c["forder"] if fd else 0
    fs = face_shape_str(s, fd)
    sp = mp.space_for_shape(face, o)
    xf = node_set(c["fnodes"], fs, o) if fd else np.zeros((0, 1))
    bf = mp.orthonormal_basis_for_space(sp, face)
    b = build_basis("onb", s, order)
    # degree of the traces
    deg = o + max(orders)
    if fd:
        q = mp.quadrature_for_space(mp.space_for_shape(face, deg), face)
    else:
        q = mp.ZeroDimensionalQuadrature()
    y = arr(face.map_to_volume(xf), (x.shape[0], xf.shape[1]), "nodes on the face")
    area = float(np.linalg.norm(mp.face_normal(face, normalize=False)))/2**fd
    bm = arr(quiet(mp.nodal_mass_matrix_for_face, face, q, bf.functions, b.functions,
                   x, xf), (x.shape[1], xf.shape[1]), "face mass matrix")*area
    tr = arr(mp.resampling_matrix(b.functions, y, x), (y.shape[1], x.shape[1]), "trace")
    k = cond(fs, o, xf) if fd else 1.0
    return y, bm, tr, k, xf, bf, sp


def run_green(case):
    """int psi_i d phi_j + int d psi_i phi_j = sum over faces n int psi_i phi_j"""
    import modepy as mp
    s, order = case["shape"], case["order"]
    shape = gen.build_shape(s)
    x = node_set(case["nodes"], s, order)
    k = cond(s, order, x)
    kb = basis_cond(build_basis(case["basis"], s, order), x)
    if k > CMAX or kb > CMAX:
        raise Trivial
    m, d = volume_ops(case["basis"], s, order, x)
    n = x.shape[1]
    bnd = [np.zeros((n, n)) for _ in d]
    flux = [np.zeros(n) for _ in d]
    total = 0.0
    for face in mp.faces_for_shape(shape):
        _, bm, tr, kf, *_ = face_ops(face, s, order, x, case)
        k = max(k, kf)
        total = max(total, amax(bm)*amax(tr)*n)
        normal = arr(mp.face_normal(face), (len(d),), "normal")
        for i in range(len(d)):
            bnd[i] += normal[i]*(bm @ tr)
            flux[i] += normal[i]*np.sum(bm, axis=1)
    if k > CMAX:
        raise Trivial
    sc = total + n*amax(m)*amax(*d) + 1e-300
    kk = max(k*k, kb)
    for i, di in enumerate(d):
        close(m @ di + (m @ di).T, bnd[i], TOL*kk,
              f"axis {i}: M D + (M D)^T is the sum of n B over the faces", scale=sc)
        close(np.sum(m @ di, axis=0), flux[i], TOL*kk,
              f"axis {i}: the integral of the derivative is the flux through the faces",
              scale=sc)
        close(np.sum(flux[i]), 0.0, TOL*kk, f"axis {i}: closed surface", shape=(),
              scale=sc)

# }}}


# {{{ traces

def run_trace(case):
    """Differentiation along a face commutes with taking the trace; the two ways of
    integrating over the boundary agree."""
    import modepy as mp
    s, order = case["shape"], case["order"]
    shape = gen.build_shape(s)
    x = node_set(case["nodes"], s, order)
    k = cond(s, order, x)
    if k > CMAX or basis_cond(build_basis(case["basis"], s, order), x) > CMAX:
        raise Trivial
    _, d = volume_ops(case["basis"], s, order, x)
    for face in mp.faces_for_shape(shape):
        _, bm, tr, kf, xf, bf, _ = face_ops(face, s, order, x, case)
        if kf > CMAX:
            continue
        fd = face.dim
        # tangents from the images of points
        o = np.zeros((fd, 1))
        t = (arr(face.map_to_volume(np.eye(fd))) - arr(face.map_to_volume(o)))
        df = mp.diff_matrices(bf, xf)
        sc = (amax(*df) + amax(*d))*amax(tr)*x.shape[1]*(1 + amax(t)) + 1
        for j in range(fd):
            along = sum(t[i, j]*(tr @ d[i]) for i in range(len(d)))
            close(np.asarray(df[j]) @ tr, along, TOL*max(k, kf)**2,
                  f"face {face.face_index}: tangential derivative {j} of the trace",
                  scale=sc)
        # the face mass matrix is the trace, weighted with the mass matrix of the face
        mf = arr(mp.mass_matrix(bf, xf))*np.linalg.norm(
            mp.face_normal(face, normalize=False))/2**fd
        close(bm, tr.T @ mf, TOL*max(k, kf)**2,
              f"face {face.face_index}: face mass matrix", scale=amax(mf)*amax(tr)*len(mf))

# }}}


# {{{ nested spaces

@st.composite
def nested_cases(draw):
    s = draw(st.sampled_from([*gen.ALL, *gen.MANY]))
    c = draw(gen.shape_and_order([s], max_dofs=60, max_order=8))
    k = len(gen.shape_dims(s))
    c["inc"] = [draw(st.integers(0, 2)) for _ in range(k)]
    c["nodes"], c["fine"] = draw(node_spec()), draw(node_spec())
    c["basis"] = draw(st.sampled_from(BASES))
    c["seed"] = draw(st.integers(0, 999))
    return c


def fine_order(s, order, inc):
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    if len(dims) == 1 and not isinstance(order, list):
        return order + inc[0]
    out = [o + i for o, i in zip(orders, inc, strict=True)]
    while gen.ndofs(s, out) > 180:
        i = max(range(len(out)), key=lambda j: out[j] - orders[j])
        if out[i] == orders[i]:
            break
        out[i] -= 1
    return out


def run_nested(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    fine = fine_order(s, order, case["inc"])
    x, z = node_set(case["nodes"], s, order), node_set(case["fine"], s, fine)
    k = max(cond(s, order, x), cond(s, fine, z))
    bx, bz = build_basis(case["basis"], s, order), build_basis(case["basis"], s, fine)
    if max(k, basis_cond(bx, x), basis_cond(bz, z)) > CMAX:
        raise Trivial
    k = max(k, basis_cond(bx, x), basis_cond(bz, z))
    mx, dx = volume_ops(case["basis"], s, order, x)
    mz, dz = volume_ops(case["basis"], s, fine, z)
    up = arr(mp.resampling_matrix(bx.functions, z, x), (z.shape[1], x.shape[1]), "resampling")
    down = arr(mp.resampling_matrix(bz.functions, x, z), (x.shape[1], z.shape[1]), "resampling")
    n = z.shape[1]
    su = 1 + amax(up)*amax(down)*n
    close(down @ up, np.eye(len(mx)), TOL*k, "to a finer space and back", scale=su)
    close(up.T @ mz @ up, mx, TOL*k*k, "mass matrix through a finer space",
          scale=amax(mz)*amax(up)**2*n + amax(mx))
    for i in range(len(dx)):
        close(dz[i] @ up, up @ dx[i], TOL*k*k,
              f"axis {i}: differentiation commutes with resampling",
              scale=(amax(dz[i]) + amax(dx[i]))*amax(up)*n + 1)
    # L2 projection = truncation of the orthonormal coefficients
    ox, oz = build_basis("onb", s, order), build_basis("onb", s, fine)
    minv = arr(mp.inverse_mass_matrix(ox, x), mx.shape, "inverse mass matrix")
    proj = minv @ up.T @ mz
    vx = arr(mp.vandermonde(ox.functions, x), mx.shape, "Vandermonde matrix")
    vz = arr(mp.vandermonde(oz.functions, z), mz.shape, "Vandermonde matrix")
    keep = {m: i for i, m in enumerate(ox.mode_ids)}
    t = np.zeros((len(mx), len(mz)))
    for j, m in enumerate(oz.mode_ids):
        if m in keep:
            t[keep[m], j] = 1.0
    close(proj @ vz, vx @ t, TOL*k**2, "L2 projection keeps the common modes and drops"
          " the others", scale=amax(minv)*amax(up)*amax(mz)*amax(vz)*n*n)
    # product rule: u, v in the small space, uv in the one of twice the order
    u = np.cos(case["seed"] + np.arange(x.shape[1]))
    v = np.sin(1 + case["seed"] + np.arange(x.shape[1]))
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    dbl = [2*o for o in orders] if len(dims) > 1 else 2*orders[0]
    if gen.ndofs(s, dbl) > 200:
        return
    w = node_set(["clustered", 0], s, dbl)
    kw = cond(s, dbl, w)*k
    mw, dw = volume_ops("onb", s, dbl, w)
    up = arr(mp.resampling_matrix(bx.functions, w, x))
    for i in range(len(dx)):
        close(dw[i] @ ((up @ u)*(up @ v)),
              (up @ (dx[i] @ u))*(up @ v) + (up @ u)*(up @ (dx[i] @ v)), TOL*kw,
              f"axis {i}: product rule",
              scale=1 + (amax(dw[i]) + amax(dx[i]))*amax(up)**2*len(w.T)**2)
    close(np.sum(mw @ ((up @ u)*(up @ v))), u @ mx @ v, TOL*kw*k,
          "integral of a product", shape=(), scale=(amax(mw) + amax(mx))*n*n*amax(up)**2)

# }}}


# {{{ products of elements

@st.composite
def kron_cases(draw):
    s = draw(st.sampled_from([*gen.TPS, *gen.MANY]))
    c = draw(gen.shape_and_order([s], max_dofs=100, max_order=6))
    k = len(gen.shape_dims(s))
    c["nodes"] = [draw(node_spec()) for _ in range(k)]
    c["basis"] = draw(st.sampled_from(["onb", "mono"]))
    c["new"] = [draw(st.integers(1, 3)) for _ in range(k)]
    c["seed"] = draw(st.integers(0, 999))
    return c


def kron(mats):
    """first factor fastest"""
    out = np.ones((1, 1))
    for m in mats:
        out = np.kron(np.asarray(m), out)
    return out


def run_kron(case):
    import modepy as mp
    from modepy.tools import (
        reshape_array_for_tensor_product_space as resh,
    )
    from modepy.tools import (
        unreshape_array_for_tensor_product_space as unresh,
    )
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    per = [node_set(ns, f"S{d}", o)
           for ns, d, o in zip(case["nodes"], dims, orders, strict=True)]
    rng = np.random.default_rng(case["seed"])
    # inside every factor
    new = [2*rng.dirichlet(np.ones(d + 1), size=n)[:, 1:].T - 1
           for n, d in zip(case["new"], dims, strict=True)]
    k = math.prod(cond(f"S{d}", o, p) for d, o, p in zip(dims, orders, per, strict=True))
    fb = [build_basis(case["basis"], f"S{d}", o) for d, o in zip(dims, orders, strict=True)]
    b = build_basis(case["basis"], s, order)
    k = max(k, math.prod(basis_cond(f, p) for f, p in zip(fb, per, strict=True)))
    if k > CMAX:
        raise Trivial
    x = arr(mp.tensor_product_nodes(per), what="product nodes")
    y = arr(mp.tensor_product_nodes(new), what="product nodes")
    vf = [arr(mp.vandermonde(f.functions, p)) for f, p in zip(fb, per, strict=True)]
    v = kron(vf)
    if len(dims) == 1:
        x, y = x.reshape(sum(dims), -1), y.reshape(sum(dims), -1)
    close(mp.vandermonde(b.functions, x), v, 1e-12, "Vandermonde matrix of the product",
          scale=1 + amax(v))
    rf = [arr(mp.resampling_matrix(f.functions, q, p))
          for f, p, q in zip(fb, per, new, strict=True)]
    r = kron(rf)
    close(mp.resampling_matrix(b.functions, y, x), r, TOL*k, "resampling matrix of the product",
          scale=1 + amax(r))
    d = mp.diff_matrices(b, x)
    ax = 0
    eyes = [np.eye(p.shape[1]) for p in per]
    full = {}
    for i, (f, p) in enumerate(zip(fb, per, strict=True)):
        one = mp.diff_matrices(f, p)
        for dm in one:
            e = kron([*eyes[:i], dm, *eyes[i + 1:]])
            close(d[ax], e, TOL*k, f"differentiation matrix {ax} of the product",
                  scale=1 + amax(e))
            full[ax] = (i, np.asarray(dm))
            ax += 1
    if case["basis"] == "onb":
        mf = [arr(mp.mass_matrix(f, p)) for f, p in zip(fb, per, strict=True)]
        e = kron(mf)
        close(mp.mass_matrix(b, x), e, TOL*k*k, "mass matrix of the product",
              scale=amax(e))
        mi = kron([arr(mp.inverse_mass_matrix(f, p)) for f, p in zip(fb, per, strict=True)])
        close(mp.inverse_mass_matrix(b, x), mi, TOL*k*k, "inverse mass matrix of the"
              " product", scale=amax(mi))
    # sum factorisation
    space = gen.build_space(s, order)
    u = rng.uniform(-1, 1, size=x.shape[1])
    if not isinstance(space, mp.TensorProductSpace):
        return
    ur = arr(resh(space, u), tuple(p.shape[1] for p in per), "reshaped vector")
    for a, (i, dm) in full.items():
        t = np.moveaxis(np.tensordot(dm, ur, axes=(1, i)), 0, i)
        close(arr(unresh(space, t), u.shape), np.asarray(d[a]) @ u, TOL*k,
              f"differentiation matrix {a}, applied along axis {i} of the reshaped"
              " vector", scale=1 + amax(d[a])*len(u))
    t = ur
    for i, m in enumerate(vf):
        t = np.moveaxis(np.tensordot(m, t, axes=(1, i)), 0, i)
    close(arr(unresh(space, t), u.shape), v @ u, 1e-12,
          "evaluation of coefficients by sum factorisation", scale=1 + amax(v)*len(u))

# }}}


# {{{ weak forms

@st.composite
def weak_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "T:1", "H4"], max_dofs=60, max_order=9))
    c["nodes"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(BASES))
    return c


def run_weak(case):
    """Forms assembled by quadrature_for_space = products of the exact operators."""
    import modepy as mp
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    x = node_set(case["nodes"], s, order)
    b = build_basis(case["basis"], s, order)
    k = max(cond(s, order, x), basis_cond(b, x))
    if k > CMAX:
        raise Trivial
    if len(dims) > 1:
        deg = [2*o for o in orders]
    else:
        deg = 2*orders[0]
    try:
        q = mp.quadrature_for_space(gen.build_space(s, deg), gen.build_shape(s))
    except mp.QuadratureRuleUnavailable:
        return
    m, d = volume_ops(case["basis"], s, order, x)
    n = x.shape[1]

    def form(t, r):
        return arr(mp.nodal_quadrature_bilinear_form_matrix(
            q, t, r, b.functions, b.functions, x), (n, n), "form")
    sm = amax(m)*n
    close(form(b.functions, b.functions), m, TOL*k*k, "mass matrix by quadrature", scale=sm)
    stiff = np.zeros((n, n))
    for i in range(len(d)):
        di = b.derivatives(i)
        sd = sm*(1 + amax(d[i]))
        close(form(b.functions, di), m @ d[i], TOL*k*k, f"axis {i}: weak derivative",
              scale=sd)
        close(form(di, b.functions), d[i].T @ m, TOL*k*k,
              f"axis {i}: derivative on the test function", scale=sd)
        a = form(di, di)
        close(a, d[i].T @ m @ d[i], TOL*k*k, f"axis {i}: stiffness", scale=sd*n*(1 + amax(d[i])))
        stiff += a
    sc = amax(stiff) + 1e-300
    if n > 1 and amax(stiff) > 0:
        close(stiff @ np.ones(n), np.zeros(n), TOL*k*k, "stiffness matrix of constants",
              scale=sc*n)
        # energy: positive but for constants.  With the orthonormal coefficients the
        # Poincare constant of these elements is below 4.
        v = arr(mp.vandermonde(build_basis("onb", s, order).functions, x))
        ev = np.linalg.eigvalsh((v.T @ (stiff + stiff.T) @ v)/2)
        if ev[0] < -TOL*k*k*sc*n or not (ev[1] > 0.05 - TOL*k*k*sc*n*n):
            close(ev[:2], np.array([0.0, 1.0]), 1e-9,
                  "eigenvalues of the stiffness matrix (one zero, others positive)")
    # test matrix: applied to values at the quadrature nodes of a function of the space
    t = arr(mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, x),
            (n, len(q.weights)), "test matrix")
    r = arr(mp.resampling_matrix(b.functions, np.asarray(q.nodes), x), (len(q.weights), n))
    close(t @ r, m, TOL*k*k, "test matrix times resampling to the quadrature nodes",
          scale=sm*(1 + amax(r)))
    u = np.cos(np.arange(n))
    close(np.sum(m @ u), quiet(q, lambda y: arr(mp.resampling_matrix(b.functions, y, x)) @ u),
          TOL*k*k, "integral of a function of the space", shape=(), scale=sm*(1 + amax(r)))

# }}}


# {{{ refinement

@st.composite
def refine_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "T:1", "H4"], max_dofs=50, max_order=7))
    dims = gen.shape_dims(c["shape"])
    c["cells"] = [draw(st.integers(1, 4 if sum(dims) < 3 else 2)) for _ in dims]
    c["same"] = draw(st.booleans())
    c["nodes"] = draw(node_spec())
    c["child"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(BASES))
    c["vertices"] = draw(st.sampled_from(["equi", "clustered"]))
    return c


def run_refine(case):
    """A function restricted to the cells of a submesh: integrals add up, derivatives
    follow the chain rule."""
    import modepy as mp
    from modepy.tools import AffineMap
    s, order = case["shape"], case["order"]
    dims = gen.shape_dims(s)
    dim = sum(dims)
    shape = gen.build_shape(s)
    cells = case["cells"] if len(dims) > 1 else case["cells"][0]
    if case["same"]:
        cells = case["cells"][0]
    x, z = node_set(case["nodes"], s, order), node_set(case["child"], s, order)
    b = build_basis(case["basis"], s, order)
    k = max(cond(s, order, x), cond(s, order, z), basis_cond(b, x), basis_cond(b, z))
    if k > CMAX/10:
        raise Trivial
    m, d = volume_ops(case["basis"], s, order, x)
    mz, dz = volume_ops(case["basis"], s, order, z)
    coarse = gen.build_space(s, cells)
    # the submesh's own nodes; its cells are affine for equispaced nodes, and for simplices
    kind = case["vertices"] if len(dims) == 1 else "equi"
    xc = arr(mp.equispaced_nodes_for_space(coarse, shape) if kind == "equi"
             else mp.edge_clustered_nodes_for_space(coarse, shape))
    sub = mp.submesh_for_shape(shape, mp.node_tuples_for_space(coarse))
    uv = arr(mp.unit_vertices_for_shape(shape))
    ref = np.linalg.pinv(np.vstack([uv, np.ones(uv.shape[1])]))
    tot = np.zeros(len(m))
    quad2 = np.zeros_like(m)
    n = len(m)
    rmax = 1.0
    for cell in sub:
        am = xc[:, list(cell)] @ ref
        amap = AffineMap(am[:, :-1], am[:, -1])
        close(amap(uv), xc[:, list(cell)], 1e-12, "cell vertices", scale=2.0)
        r = arr(mp.resampling_matrix(b.functions, amap(z), x), (n, n), "restriction to a cell")
        rmax = max(rmax, amax(r))
        jac = abs(float(amap.jacobian))
        tot += jac*(np.ones(n) @ mz @ r)
        quad2 += jac*(r.T @ mz @ r)
        for j in range(dim):
            chain = sum(am[i, j]*(r @ d[i]) for i in range(dim))
            close(dz[j] @ r, chain, TOL*k*k, f"axis {j}: chain rule on a cell",
                  scale=1 + (amax(*dz) + amax(*d))*amax(r)*n)
        # back to the coarse element
        back = amap.inverse(amap(z))
        close(back, z, 1e-12, "inverse of the cell map", scale=4.0)
        if len(dims) == 1:
            # a function of the space is known from its values on any cell (at generic
            # points: the bases of simplices are for points of the simplex, and have a
            # singularity on the planes through the edge opposite to a collapsed one)
            y = 0.55*x - 0.1234567
            e = arr(mp.resampling_matrix(b.functions, amap.inverse(y), z), (n, n),
                    "extension")
            f = arr(mp.resampling_matrix(b.functions, y, x), (n, n), "resampling")
            close(e @ r, f, TOL*k*k, "extension from a cell",
                  scale=1 + amax(e)*amax(r)*n)
    close(tot, np.ones(n) @ m, TOL*k*k, "integral over the cells",
          scale=(amax(mz)*rmax + amax(m))*n*n)
    close(quad2, m, TOL*k*k, "mass matrix, summed over the cells",
          scale=(amax(mz)*rmax**2 + amax(m))*n*n)

# }}}


# {{{ elements under an affine map

@st.composite
def mapped_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, "H1", "T:1", "H4"], max_dofs=40, max_order=6,
                                 min_order=1))
    c["nodes"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(BASES))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["seed"] = draw(st.integers(0, 999))
    return c


def run_mapped(case):
    """Operators of an affine image of the element, from those of the element and the
    map and its inverse."""
    import modepy as mp
    from modepy.tools import AffineMap
    s, order = case["shape"], case["order"]
    dim = sum(gen.shape_dims(s))
    shape = gen.build_shape(s)
    rng = np.random.default_rng(case["seed"])
    a = structured(case["kind"], rng.uniform(-1, 1, size=(dim, dim)) + 3*np.eye(dim),
                   case["seed"])
    if np.linalg.cond(a) > 1e3:
        raise Trivial
    amap = AffineMap(a, rng.uniform(-2, 2, size=dim))
    inv = amap.inverse
    x = node_set(case["nodes"], s, order)
    b = build_basis(case["basis"], s, order)
    k = max(cond(s, order, x), basis_cond(b, x))
    if k > CMAX/10:
        raise Trivial
    m, d = volume_ops(case["basis"], s, order, x)
    n = len(m)
    y = arr(amap(x), x.shape, "mapped nodes")
    close(inv(y), x, 1e-11, "nodes mapped back", scale=10.0)
    jac = abs(float(amap.jacobian))
    close(jac*abs(float(inv.jacobian)), 1.0, 1e-11, "jacobians of map and inverse", shape=())
    # physical derivatives of the physical coordinates
    sc = 1 + amax(inv.a)*amax(*d)*amax(y)*n
    dphys = [sum(inv.a[j, i]*d[j] for j in range(dim)) for i in range(dim)]
    if min(gen.orders_of(s, order)) >= 1:
        for i in range(dim):
            for j in range(dim):
                close(dphys[i] @ y[j], np.full(n, float(i == j)), TOL*k,
                      f"derivative of physical coordinate {j} along axis {i}", scale=sc)
    # first moments
    v = arr(amap(arr(mp.unit_vertices_for_shape(shape))))
    vol = np.sum(m)*jac
    close((np.ones(n) @ m @ y.T)*jac/vol, centroid(s, v), TOL*k*k, "centre of gravity",
          scale=1 + amax(y)*n)
    # an element that is mapped twice, and by the composition
    again = AffineMap(inv.a, inv.b)
    close(again(y), x, 1e-11, "inverse map rebuilt from its matrix", scale=10.0)
    # divergence theorem in physical coordinates
    if s not in FACED:
        return
    total = [np.zeros(n) for _ in range(dim)]
    mag = 0.0
    c = {"fnodes": ["clustered", 0], "forder": 0}
    for face in mp.faces_for_shape(shape):
        _, bm, *_ = face_ops(face, s, order, x, c)
        nrm = jac*(np.asarray(inv.a).T @ mp.face_normal(face))
        mag = max(mag, amax(bm)*amax(nrm))
        for i in range(dim):
            total[i] += nrm[i]*np.sum(bm, axis=1)
    for i in range(dim):
        close(jac*(np.ones(n) @ m @ dphys[i]), total[i], TOL*k*k,
              f"physical axis {i}: flux through the faces",
              scale=n*(mag + jac*amax(m)*amax(*dphys)*n))


def centroid(s, v):
    """of the image of the element with vertices v: on products, of the simplices'
    vertices, hence of all of them"""
    return v.mean(axis=1)

# }}}


# {{{ permutations and symmetries

@st.composite
def perm_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=80, max_order=8))
    c["nodes"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(BASES))
    c["perm"] = draw(st.integers(0, 10**6))
    c["fperm"] = draw(st.integers(0, 10**6))
    return c


def run_perm(case):
    """Operators follow the numbering of the nodes and do not depend on that of the
    basis functions."""
    import modepy as mp
    s, order = case["shape"], case["order"]
    x = node_set(case["nodes"], s, order)
    b = build_basis(case["basis"], s, order)
    k = max(cond(s, order, x), basis_cond(b, x))
    if k > CMAX:
        raise Trivial
    n = x.shape[1]
    p = np.random.default_rng(case["perm"]).permutation(n)
    fp = np.random.default_rng(case["fperm"]).permutation(n)
    m, d = volume_ops(case["basis"], s, order, x)
    m2, d2 = volume_ops(case["basis"], s, order, np.ascontiguousarray(x[:, p]))
    close(m2, m[np.ix_(p, p)], TOL*k*k, "mass matrix for renumbered nodes", scale=amax(m))
    for i in range(len(d)):
        close(d2[i], d[i][np.ix_(p, p)], TOL*k, f"differentiation matrix {i} for"
              " renumbered nodes", scale=1 + amax(d[i]))
    fs = [b.functions[i] for i in fp]
    gs = [b.gradients[i] for i in fp]
    d3 = mp.differentiation_matrices(fs, gs, x)
    if len(x) == 1 and not isinstance(d3, (tuple, list)):
        d3 = (d3,)
    for i in range(len(d)):
        close(d3[i], d[i], TOL*k, f"differentiation matrix {i} for renumbered functions",
              scale=1 + amax(d[i]))
    sc = [2.0**((i*7) % 5 - 2) for i in range(n)]
    fs = [(lambda y, f=f, c=c: c*f(y)) for f, c in zip(fs, sc, strict=True)]
    gs = [(lambda y, g=g, c=c: tuple(c*a for a in g(y)) if isinstance(g(y), tuple)
           else c*g(y)) for g, c in zip(gs, sc, strict=True)]
    d4 = mp.differentiation_matrices(fs, gs, x)
    if len(x) == 1 and not isinstance(d4, (tuple, list)):
        d4 = (d4,)
    for i in range(len(d)):
        close(d4[i], d[i], 16*TOL*k, f"differentiation matrix {i} for scaled functions",
              scale=1 + amax(d[i]))
    v = arr(mp.vandermonde(fs, x), (n, n))
    v0 = arr(mp.vandermonde(b.functions, x), (n, n))
    close(v, v0[:, fp]*sc, 1e-13, "Vandermonde matrix of scaled functions",
          scale=1 + 4*amax(v0))

# }}}


SUBS = [
    Sub("green", run_green, green_cases(), quick=150, shards=3,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=lambda c: [c["shape"]]),
    Sub("trace", run_trace, green_cases(["S2", "S3", "H2", "H3"]), quick=80, shards=2,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=lambda c: [c["shape"]]),
    Sub("nested", run_nested, nested_cases(), quick=150, shards=3,
        nontrivial=lambda c: any(c["inc"]) and gen.ndofs(c["shape"], c["order"]) > 1,
        rule="different spaces, more than one node", classify=lambda c: [c["shape"]]),
    Sub("kron", run_kron, kron_cases(), quick=150, shards=2,
        nontrivial=lambda c: len(gen.shape_dims(c["shape"])) > 1
        and gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one factor, more than one node", classify=lambda c: [c["shape"]]),
    Sub("weak", run_weak, weak_cases(), quick=120, shards=2,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=lambda c: [c["shape"]]),
    Sub("refine", run_refine, refine_cases(), quick=80, shards=2,
        nontrivial=lambda c: max(c["cells"]) > 1 and gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one cell, more than one node", classify=lambda c: [c["shape"]]),
    Sub("mapped", run_mapped, mapped_cases(), quick=150, shards=2,
        nontrivial=lambda c: c["kind"] != "identity" and c["shape"] != "S1",
        rule="a map other than the identity, more than one axis",
        classify=lambda c: [c["kind"]]),
    Sub("renumber", run_perm, perm_cases(), quick=100, shards=2,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=lambda c: [c["shape"]]),
]
