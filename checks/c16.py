"""C16: mass, test and bilinear form matrices."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import gen, layouts, ref
from vlib.core import Sub
from vlib.nodal import build_basis, cond, node_set, node_spec, related_nodes, related_spec
from vlib.util import arr, close, need, quiet, raises


ID = "C16"
SCALE = 5
ASSUMPTIONS = [
    "accuracy is judged relative to the condition numbers of the (reference)"
    " interpolation matrices; cases above 1e7 are skipped",
    "face matrices integrate over the reference face (no surface measure), as"
    " documented",
]

TOL = 3e-13


def lagrange(s, order, nodes, x):
    """(npts, n) values of the nodal basis, and (dim, npts, n) its gradient."""
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    inv = np.linalg.inv(ref.tp_vdm(dims, orders, nodes))
    return ref.tp_vdm(dims, orders, x) @ inv, ref.tp_grad_vdm(dims, orders, x) @ inv


# {{{ mass matrices of orthonormal bases

@st.composite
def mass_cases(draw):
    c = draw(gen.shape_and_order([*gen.ALL, *gen.MANY], max_dofs=140, max_order=16))
    c["nodes"] = draw(node_spec())
    c["basis"] = draw(st.sampled_from(["onb", "default", "seq"]))
    return c


def run_mass(case):
    import modepy as mp
    s, order = case["shape"], case["order"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    x = node_set(case["nodes"], s, order)
    n = x.shape[1]
    k = cond(s, order, x)
    if k > 1e7:
        return
    b = build_basis("onb" if case["basis"] == "seq" else case["basis"], s, order)
    arg = list(b.functions) if case["basis"] == "seq" else b
    minv = arr(quiet(mp.inverse_mass_matrix, arg, x), (n, n), "inverse mass matrix")
    m = arr(quiet(mp.mass_matrix, arg, x), (n, n), "mass matrix")
    xq, wq = ref.tp_quad(dims, [2*o for o in orders])
    lag, _ = lagrange(s, order, x, xq)
    e = (lag.T*wq) @ lag
    close(m, e, TOL*k*k, "mass matrix", scale=np.max(np.abs(e)))
    close(minv @ e, np.eye(n), TOL*k*k, "inverse mass matrix times mass matrix",
          scale=1.0*n)
    close(m, m.T, TOL*k*k, "symmetry", scale=np.max(np.abs(e)))
    vol = np.prod([ref.simplex_volume(d) for d in dims])
    close(np.sum(m), vol, TOL*k*k*n, "sum of entries is the volume", shape=(), scale=vol)
    mono = build_basis("mono", s, order)
    raises(NotImplementedError, lambda: mp.mass_matrix(mono, x), "mass matrix of monomials")
    raises(NotImplementedError, lambda: mp.inverse_mass_matrix(mono, x),
           "inverse mass matrix of monomials")

# }}}


# {{{ product bases with factors of the user's choice

@st.composite
def mixed_cases(draw):
    s = draw(st.sampled_from(["H1", "T:1", "H2", "H3", "H4", "T:1,2", "T:2,1", "T:1,1,1",
                              "T:1,2,1", "T:2,1,1", "T:1,1,2"]))
    c = draw(gen.shape_and_order([s], max_dofs=50, max_order=6))
    k = len(gen.shape_dims(s))
    c["kinds"] = [draw(st.sampled_from(["onb", "onb", "default", "mono", "half"]))
                  for _ in range(k)]
    c["explicit"] = draw(st.booleans())
    c["nodes"] = draw(node_spec())
    return c


def run_mixed(case):
    """The (inverse) mass matrix of such a basis is right, or refused."""
    import modepy as mp

    class Halved(mp.Basis):
        """orthogonal, all norms 1/2"""
        def __init__(self, inner):
            self.inner = inner

        def orthonormality_weight(self):
            return 0.5

        @property
        def mode_ids(self):
            return self.inner.mode_ids

        @property
        def functions(self):
            return tuple((lambda x, f=f: np.sqrt(0.5)*f(x)) for f in self.inner.functions)

        @property
        def gradients(self):
            return tuple((lambda x, g=g: tuple(np.sqrt(0.5)*c for c in g(x)))
                         for g in self.inner.gradients)

    s, order, kinds = case["shape"], case["order"], case["kinds"]
    dims, orders = gen.shape_dims(s), gen.orders_of(s, order)
    x = node_set(case["nodes"], s, order)
    n = x.shape[1]
    k = cond(s, order, x)
    if k > 1e6:
        return
    bases = []
    for d, o, kind in zip(dims, orders, kinds, strict=True):
        b = build_basis("onb" if kind == "half" else kind, f"S{d}", o)
        bases.append(Halved(b) if kind == "half" else b)
    kw = {}
    if case["explicit"] or any(d != 1 for d in dims):
        kw["dims_per_basis"] = tuple(dims)
    b = mp.TensorProductBasis(bases, **kw)
    good = all(kind in ("onb", "default") for kind in kinds)
    xq, wq = ref.tp_quad(dims, [2*o for o in orders])
    lag, _ = lagrange(s, order, x, xq)
    e = (lag.T*wq) @ lag
    for what, f in (("mass", mp.mass_matrix), ("inverse mass", mp.inverse_mass_matrix)):
        if not good:
            raises(NotImplementedError, lambda f=f: quiet(f, b, x),
                   f"{what} matrix of a basis that is not orthonormal ({kinds})")
            continue
        m = arr(quiet(f, b, x), (n, n), f"{what} matrix")
        if what == "mass":
            close(m, e, TOL*k*k, "mass matrix", scale=np.max(np.abs(e)))
        else:
            close(m @ e, np.eye(n), TOL*k*k, "inverse mass matrix times mass matrix",
                  scale=1.0*n)

# }}}


# {{{ quadrature-based

@st.composite
def form_cases(draw):
    s = draw(st.sampled_from([*gen.SIMPLICES, *gen.TPS, "H1", "H4", "T:1,2,1,1"]))
    a = draw(gen.shape_and_order([s], max_dofs=30, max_order=5))
    b = draw(gen.shape_and_order([s], max_dofs=30, max_order=5))
    return {"shape": s, "test": a["order"], "trial": b["order"],
            "same": draw(st.booleans()),
            "tb": draw(st.sampled_from(["onb", "mono"])),
            "sb": draw(st.sampled_from(["onb", "mono"])),
            "tn": draw(node_spec()), "sn": draw(node_spec()),
            "tdiff": draw(st.sampled_from([None, None, 0, 1, 2])),
            "sdiff": draw(st.sampled_from([None, None, None, 0, 1])),
            "rel": draw(st.one_of(st.none(), related_spec())),
            "quad": draw(st.sampled_from(["exact", "space", "any"])),
            "seed": draw(st.integers(0, 999))}


def make_quad(kind, s, oa, ob, seed):
    """(library quadrature, exact for products?)"""
    import modepy as mp
    dims = gen.shape_dims(s)
    degs = [a + b for a, b in zip(gen.orders_of(s, oa), gen.orders_of(s, ob),
                                  strict=True)]
    if kind == "any":
        rng = np.random.default_rng(seed)
        nq = int(rng.integers(1, 15))
        return mp.Quadrature(rng.uniform(-1, 1, size=(sum(dims), nq)),
                             rng.uniform(-1, 1, size=nq)), False
    if kind == "space":
        return mp.quadrature_for_space(
            gen.build_space(s, degs if len(degs) > 1 else degs[0]),
            gen.build_shape(s)), True
    x, w = ref.tp_quad(dims, degs)
    return mp.Quadrature(x, w, exact_to=min(degs)), True


def run_form(case):
    import modepy as mp
    s = case["shape"]
    dims = gen.shape_dims(s)
    dim = sum(dims)
    ot, os_ = case["test"], case["trial"]
    tn, sn = case["tn"], case["sn"]
    tb, sb = case["tb"], case["sb"]
    if case["same"]:
        os_, sn, sb = ot, tn, tb
    bt, bs = build_basis(tb, s, ot), build_basis(sb, s, os_)
    xt, xs = node_set(tn, s, ot), node_set(sn, s, os_)
    if case["rel"] and case["rel"][0] in ("near", "one", "perm", "swap", "same"):
        # the same space, perhaps another basis; nodes like the others
        os_ = ot
        bs = build_basis(sb, s, os_)
        xs = related_nodes(case["rel"], xt, s)
    k = cond(s, ot, xt)*cond(s, os_, xs)
    if k > 1e7:
        return
    # monomials have their own conditioning
    k *= 30
    td = None if case["tdiff"] is None else case["tdiff"] % dim
    sd = None if case["sdiff"] is None else case["sdiff"] % dim
    q, exact = make_quad(case["quad"], s, ot, os_, case["seed"])
    tf = bt.functions if td is None else bt.derivatives(td)
    sf = bs.functions if sd is None else bs.derivatives(sd)
    nf, mf = bt.functions, bs.functions
    if (tb, ot) == (sb, os_) and case["seed"] % 3:
        # the very same objects for several arguments
        mf = nf
        sf = tf if sd == td else sf
        tf = nf if td is None else tf
        sf = nf if sd is None else sf
        if xs.shape == xt.shape and np.array_equal(xs, xt):
            xs = xt
    lt, gt = lagrange(s, ot, xt, np.asarray(q.nodes))
    ls, gs = lagrange(s, os_, xs, np.asarray(q.nodes))
    psi = lt if td is None else gt[td]
    phi = ls if sd is None else gs[sd]
    w = np.asarray(q.weights)
    e = (psi.T*w) @ phi
    nt, ns = xt.shape[1], xs.shape[1]
    kw = {}
    if not case["same"] or case["rel"] or case["seed"] % 2:
        kw["output_nodes"] = xt
    a = arr(mp.nodal_quadrature_bilinear_form_matrix(
        quadrature=q, test_functions=tf, trial_functions=sf,
        nodal_interp_functions_test=nf,
        nodal_interp_functions_trial=mf, input_nodes=xs, **kw),
        (nt, ns), "bilinear form matrix")
    sc = (1 + np.max(np.abs(psi)))*(1 + np.max(np.abs(phi)))*(1 + np.sum(np.abs(w)))
    close(a, e, TOL*k, "bilinear form matrix", scale=sc)
    if exact and td is None and sd is None:
        degs = [x + y for x, y in zip(gen.orders_of(s, ot), gen.orders_of(s, os_),
                                      strict=True)]
        xq, wq = ref.tp_quad(dims, degs)
        l1, l2 = lagrange(s, ot, xt, xq)[0], lagrange(s, os_, xs, xq)[0]
        close(a, (l1.T*wq) @ l2, TOL*k, "integrals of products of nodal functions",
              scale=sc)
    # test matrix: rows weigh point values at the quadrature nodes
    t = arr(mp.nodal_quadrature_test_matrix(
        quadrature=q, test_functions=tf, nodal_interp_functions=nf, nodes=xt),
        (nt, len(w)), "test matrix")
    close(t, psi.T*w, TOL*k, "test matrix", scale=sc)
    if td is None:
        nq = arr(quiet(mp.nodal_quad_mass_matrix, q, bt.functions, xt), (nt, len(w)))
        close(nq, t, TOL*k, "deprecated nodal_quad_mass_matrix", scale=sc)
    mq = arr(quiet(mp.matrices.modal_quad_mass_matrix, q, tf), (nt, len(w)))
    me = np.array([np.asarray(f(np.asarray(q.nodes)))*w for f in tf])
    close(mq, me, 1e-13, "deprecated modal_quad_mass_matrix", scale=sc)
    # a node map composed into the test functions
    mp_ = lambda r: 0.5*r - 0.25  # noqa: E731
    lt2, gt2 = lagrange(s, ot, xt, mp_(np.asarray(q.nodes)))
    psi2 = lt2 if td is None else gt2[td]
    sc2 = sc*(1 + np.max(np.abs(psi2)))
    a2 = arr(mp.nodal_quadrature_bilinear_form_matrix(
        q, tf, sf, nf, mf, xs, xt, test_function_node_map=mp_),
        (nt, ns))
    close(a2, (psi2.T*w) @ phi, TOL*k, "bilinear form with test_function_node_map",
          scale=sc2)
    t2 = arr(mp.nodal_quadrature_test_matrix(
        q, tf, nf, xt, test_function_node_map=mp_), (nt, len(w)))
    close(t2, psi2.T*w, TOL*k, "test matrix with test_function_node_map", scale=sc2)
    # rejected
    raises(ValueError, lambda: mp.nodal_quadrature_bilinear_form_matrix(
        q, tf, sf, bt.functions, bs.functions, xs, np.hstack([xt, xt[:, :1]])),
        "too many output nodes")
    raises(ValueError, lambda: mp.nodal_quadrature_bilinear_form_matrix(
        q, tf, sf, bt.functions, bs.functions, np.hstack([xs, xs[:, :1]]), xt),
        "too many input nodes")
    raises(ValueError, lambda: mp.nodal_quadrature_test_matrix(
        q, tf, bt.functions, np.hstack([xt, xt[:, :1]])), "too many nodes")


def sem_cases(tier):
    for s, orders in (("H2", [2, 2]), ("H2", [1, 4]), ("H2", [5, 2]), ("H3", [1, 2, 3]),
                      ("H3", [2, 2, 2]), ("H3", [3, 0, 1])):
        for kind in ("LG", "LGL"):
            yield {"shape": s, "orders": orders, "kind": kind}


def run_sem(case):
    """Spectral element mass matrix; quadrature nodes as nodes by default."""
    import modepy as mp
    s, orders = case["shape"], case["orders"]
    cls = (mp.LegendreGaussQuadrature if case["kind"] == "LG"
           else mp.LegendreGaussLobattoQuadrature)
    if case["kind"] == "LGL":
        orders = [max(o, 1) for o in orders]
    q = mp.TensorProductQuadrature([cls(o) for o in orders])
    d = arr(mp.spectral_diag_nodal_mass_matrix(q), (q.nodes.shape[1],), "diagonal")
    b = build_basis("onb", s, orders)
    close(d, q.weights, 1e-14, "diagonal is the weights")
    full = arr(mp.nodal_quadrature_bilinear_form_matrix(
        q, b.functions, b.functions, b.functions, b.functions, q.nodes))
    close(full, np.diag(d), 1e-11, "quadrature mass matrix at the quadrature nodes")
    t = arr(mp.nodal_quadrature_test_matrix(q, b.functions, b.functions))
    close(t, np.diag(d), 1e-11, "test matrix at the quadrature nodes")
    if case["kind"] == "LG":
        close(mp.mass_matrix(b, q.nodes), np.diag(d), 1e-11, "exact mass matrix")
    q2 = mp.XiaoGimbutasSimplexQuadrature(2, 2)
    raises(ValueError, lambda: mp.spectral_diag_nodal_mass_matrix(q2), "simplex rule")
    q3 = mp.TensorProductQuadrature([q2, mp.LegendreGaussQuadrature(2)])
    raises(ValueError, lambda: mp.spectral_diag_nodal_mass_matrix(q3),
           "product with a rule that is not 1-D")

# }}}


# {{{ faces

@st.composite
def face_cases(draw):
    s = draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3"]))
    top = {"S1": 6, "S2": 5, "S3": 3, "H2": 4, "H3": 2}[s]
    return {"shape": s, "vol": draw(st.integers(0, top)), "trial": draw(st.integers(0, 3)),
            "face": draw(st.integers(0, 5)), "vn": draw(node_spec()),
            "fn": draw(node_spec(["clustered", "equi", "perturbed"])),
            "basis": draw(st.sampled_from(["onb", "mono"])),
            "quad": draw(st.sampled_from(["exact", "any"])),
            "seed": draw(st.integers(0, 999))}


def run_face(case):
    import modepy as mp
    s, n, m = case["shape"], case["vol"], case["trial"]
    shape = gen.build_shape(s)
    faces = mp.faces_for_shape(shape)
    face = faces[case["face"] % len(faces)]
    fd = shape.dim - 1
    fs = f"S{fd}" if (s[0] == "S" or fd == 1) else f"H{fd}"
    if fd == 0:
        m = 0
    bv = build_basis(case["basis"], s, n)
    xv = node_set(case["vn"], s, n)
    sp = mp.space_for_shape(face, m)
    bf = mp.basis_for_space(sp, face) if fd else mp.orthonormal_basis_for_space(sp, face)
    xf = node_set(case["fn"], fs, m) if fd else np.zeros((0, 1))
    k = 30*cond(s, n, xv)*(cond(fs, m, xf) if fd else 1)
    if k > 1e7:
        return
    if case["quad"] == "exact":
        xq, wq = ref.tp_quad(gen.shape_dims(fs), [n*len(gen.shape_dims(s)) + m]*len(gen.shape_dims(fs)))
    else:
        rng = np.random.default_rng(case["seed"])
        nq = int(rng.integers(1, 8))
        xq, wq = rng.uniform(-1, 1, size=(fd, nq)), rng.uniform(-1, 1, size=nq)
    q = mp.Quadrature(xq, wq)
    # independent face map: affine through the listed vertices
    vv = ref.vertices(gen.shape_dims(s))[:, list(face.volume_vertex_indices)]
    mapped = vv[:, :1] + (vv[:, 1:fd + 1] - vv[:, :1]) @ ((1 + xq)/2) if fd \
        else np.repeat(vv, xq.shape[1], axis=1)
    lt, _ = lagrange(s, n, xv, mapped)
    if fd:
        phi, _ = lagrange(fs, m, xf, xq)
    else:
        phi = np.ones((xq.shape[1], 1))
    e = (lt.T*wq) @ phi
    sc = (1 + np.max(np.abs(lt)))*(1 + np.max(np.abs(phi)))*(1 + np.sum(np.abs(wq)))
    if fd:
        a = arr(mp.nodal_quadrature_bilinear_form_matrix(
            q, bv.functions, bf.functions, bv.functions, bf.functions, xf, xv,
            test_function_node_map=face.map_to_volume), e.shape, "face mass matrix")
        close(a, e, TOL*k, "face mass matrix", scale=sc)
    d = arr(quiet(mp.nodal_mass_matrix_for_face, face, q, bf.functions, bv.functions,
                  xv, xf), e.shape, "nodal_mass_matrix_for_face")
    close(d, e, TOL*k, "nodal_mass_matrix_for_face", scale=sc)
    mm = arr(quiet(mp.modal_mass_matrix_for_face, face, q, bf.functions, bv.functions),
             e.shape)
    fv = np.array([np.asarray(f(mapped)) for f in bv.functions])
    ff = np.array([np.broadcast_to(np.asarray(f(xq)), wq.shape) for f in bf.functions])
    close(mm, (fv*wq) @ ff.T, 1e-12, "modal_mass_matrix_for_face", shape=mm.shape,
          scale=1 + np.max(np.abs(fv))*np.max(np.abs(ff))*np.sum(np.abs(wq)))
    mq = arr(quiet(mp.modal_quad_mass_matrix_for_face, face, q, bv.functions), fv.shape)
    close(mq, fv*wq, 1e-12, "modal_quad_mass_matrix_for_face", scale=sc + np.max(np.abs(fv)))
    nq = arr(quiet(mp.nodal_quad_mass_matrix_for_face, face, q, bv.functions, xv),
             (lt.shape[1], len(wq)))
    close(nq, lt.T*wq, TOL*k, "nodal_quad_mass_matrix_for_face", scale=sc)
    t = arr(mp.nodal_quadrature_test_matrix(
        q, bv.functions, bv.functions, xv, test_function_node_map=face.map_to_volume),
        nq.shape)
    close(t, lt.T*wq, TOL*k, "test matrix on a face", scale=sc)
    extra = np.hstack([xv, xv[:, :1]])
    raises(ValueError, lambda: quiet(mp.nodal_quad_mass_matrix_for_face, face, q,
                                     bv.functions, extra), "too many volume nodes")
    if fd:
        ef = np.hstack([xf, xf[:, :1]])
        raises(ValueError, lambda: quiet(mp.nodal_mass_matrix_for_face, face, q,
                                         bf.functions, bv.functions, xv, ef),
               "too many face nodes")

# }}}


# {{{ types and layouts

@st.composite
def lay_cases(draw):
    return {"shape": draw(st.sampled_from(["S1", "S2", "S3", "H2", "H3", "T:1,2", "T:2,1"])),
            "order": draw(st.integers(1, 2)), "how": draw(layouts.how()),
            "what": draw(st.sampled_from(["mass", "forms", "quad", "faces"])),
            "basis": draw(st.sampled_from(["onb", "mono"])),
            "face": draw(st.integers(0, 5))}


def run_lay(case):
    """Node (and quadrature) arrays of any type and layout."""
    import modepy as mp
    from modepy.matrices import modal_quad_mass_matrix
    s, order, how, what = case["shape"], case["order"], case["how"], case["what"]
    b = build_basis("onb" if what == "mass" else case["basis"], s, order)
    f = b.functions
    x = node_set(["equi", 0], s, order)
    dims = gen.shape_dims(s)
    if what == "mass":
        layouts.same(lambda a: mp.mass_matrix(b, a), [x], how, "mass_matrix")
        layouts.same(lambda a: mp.inverse_mass_matrix(b, a), [x], how,
                     "inverse_mass_matrix")
        layouts.same(lambda a: quiet(mp.mass_matrix, list(f), a), [x], how,
                     "mass_matrix, functions")
        layouts.same(lambda a: quiet(mp.inverse_mass_matrix, f, a), [x], how,
                     "inverse_mass_matrix, functions")
        return
    xq, wq = ref.tp_quad(dims, [2*order]*len(dims))
    q = mp.Quadrature(xq, wq)
    if what == "forms":
        layouts.same(lambda a, c: mp.nodal_quadrature_bilinear_form_matrix(
            q, f, f, f, f, a, c), [x, x], how, "bilinear form", 1e-11)
        layouts.aliased(lambda a, c: mp.nodal_quadrature_bilinear_form_matrix(
            q, f, f, f, f, a, c), x, "bilinear form")
        layouts.same(lambda a: mp.nodal_quadrature_bilinear_form_matrix(
            q, f, b.derivatives(0), f, f, a), [x], how, "bilinear form", 1e-11)
        layouts.same(lambda a: mp.nodal_quadrature_test_matrix(q, f, f, a), [x], how,
                     "test matrix", 1e-11)
        layouts.same(lambda a: quiet(mp.nodal_quad_mass_matrix, q, f, a), [x], how,
                     "nodal_quad_mass_matrix", 1e-11)
        return
    if what == "quad":
        if layouts.typed(how):
            # a rule with integer nodes and weights
            xq = np.hstack([ref.vertices(dims), -np.ones((sum(dims), 1))])
            wq = np.arange(1.0, xq.shape[1] + 1)
        layouts.same(lambda a, c: mp.nodal_quadrature_bilinear_form_matrix(
            mp.Quadrature(a, c), f, f, f, f, x), [xq, wq], how, "form, quadrature", 1e-11)
        layouts.same(lambda a, c: mp.nodal_quadrature_test_matrix(
            mp.Quadrature(a, c), f, f, x), [xq, wq], how, "test matrix, quadrature", 1e-11)
        layouts.same(lambda a, c: quiet(modal_quad_mass_matrix,
                                        mp.Quadrature(a, c), f), [xq, wq], how,
                     "modal_quad_mass_matrix", 1e-11)
        return
    if s[0] == "T":
        return
    faces = mp.faces_for_shape(gen.build_shape(s))
    face = faces[case["face"] % len(faces)]
    fd = sum(dims) - 1
    if not fd:
        return
    fs = f"S{fd}" if (s[0] == "S" or fd == 1) else f"H{fd}"
    fdims = gen.shape_dims(fs)
    xf = node_set(["equi", 0], fs, order)
    ff = mp.basis_for_space(mp.space_for_shape(face, order), face).functions
    xq, wq = ref.tp_quad(fdims, [2*order*len(dims)]*len(fdims))
    if layouts.typed(how):
        layouts.same(lambda a, c: quiet(mp.nodal_mass_matrix_for_face,
                                        face, mp.Quadrature(xq, wq), ff, f, a, c),
                     [x, xf], how, "nodal_mass_matrix_for_face", 1e-11)
        xq, wq = ref.vertices(fdims), np.arange(1.0, ref.vertices(fdims).shape[1] + 1)
    layouts.same(lambda a, c, d, e: quiet(mp.nodal_mass_matrix_for_face,
                                          face, mp.Quadrature(d, e), ff, f, a, c),
                 [x, xf, xq, wq], how, "nodal_mass_matrix_for_face", 1e-11)
    layouts.same(lambda a, d, e: quiet(mp.nodal_quad_mass_matrix_for_face,
                                       face, mp.Quadrature(d, e), f, a),
                 [x, xq, wq], how, "nodal_quad_mass_matrix_for_face", 1e-11)
    layouts.same(lambda a, d, e: mp.nodal_quadrature_test_matrix(
        mp.Quadrature(d, e), f, f, a, test_function_node_map=face.map_to_volume),
        [x, xq, wq], how, "test matrix on a face", 1e-11)

# }}}


SUBS = [
    Sub("mass", run_mass, mass_cases(), quick=200, shards=3,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["order"]) > 1,
        rule="more than one node", classify=lambda c: [c["shape"]]),
    Sub("mixed", run_mixed, mixed_cases(), quick=100, shards=2,
        nontrivial=lambda c: len(set(c["kinds"])) > 1, rule="factors of different kinds",
        classify=lambda c: [c["shape"]]),
    Sub("forms", run_form, form_cases(), quick=250, shards=4,
        nontrivial=lambda c: gen.ndofs(c["shape"], c["test"]) > 1,
        rule="more than one test function",
        classify=lambda c: [c["shape"], c["quad"],
                            "equal" if c["same"] else "different spaces"]),
    Sub("layouts", run_lay, lay_cases(), quick=150, shards=2,
        classify=lambda c: [layouts.label(c["how"]), c["what"]], rule="every case"),
    Sub("spectral", run_sem, cases=sem_cases, rule="every listed product rule"),
    Sub("faces", run_face, face_cases(), quick=200, shards=2,
        nontrivial=lambda c: c["shape"] != "S1" and c["vol"] > 0,
        rule="at least 2-D, order at least 1", classify=lambda c: [c["shape"]]),
]
