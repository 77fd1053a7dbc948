#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, claimed=True,
         tech=None):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None},
        "_note": note, "_claimed": claimed, "_tech": tech})


M, Q = "modepy/", "modepy/quadrature/"
T_DIFF = "property-based testing (Hypothesis), reference-model differential"
T_INV = "property-based testing (Hypothesis), analytic oracle and invariants"
T_ENUM = "property-based testing: complete enumeration of finite tables plus random cases"
T_STATE = "stateful property-based testing over call histories"

prop("C01", "Jacobi polynomials are the orthonormal family",
     "For every admissible (alpha, beta), degree and abscissa, the 1-D Jacobi evaluator"
     " returns the value of the degree-n polynomial orthonormal under the weight"
     " (1-x)^alpha (1+x)^beta; the gradient evaluator returns its derivative and the"
     " scaled evaluator its conventionally normalised version. Array input is evaluated"
     " pointwise, whatever its shape.",
     ["inputs"], "all alpha, beta > -1 (including alpha+beta = -1 and 0), all degrees,"
     " all points of the interval and nearby, all array shapes",
     "Tests look at three or four parameter pairs and compare the result with itself"
     " through quadrature; wrong recurrence coefficients only show for particular"
     " alpha/beta/n combinations.",
     [M+"modes.py"], [("three-term recurrence", "modepy/modes.py:jacobi"),
                      ("derivative through shifted parameters",
                       "modepy/modes.py:grad_jacobi"),
                      ("normalisation", "modepy/modes.py:scaled_jacobi")],
     ["modepy.jacobi", "modepy.grad_jacobi", "modepy.scaled_jacobi"],
     "differential against a 60-digit hypergeometric evaluation (mpmath)")

prop("C02", "Default and orthonormal bases are orthonormal and span the space",
     "For every supported shape and polynomial space, the orthonormal basis has exactly"
     " as many functions as the space has dimensions, its Gram matrix under the exact"
     " L2 inner product of the shape is the identity, and its span is the declared"
     " space. Mode identifiers are distinct, match the function they label, and product"
     " bases are the products of their factors' functions.",
     ["inputs", "configurations"], "all shapes (simplices, hypercubes, prisms and other"
     " products), all orders including one order per factor, all evaluation points,"
     " including vertices where the collapsed coordinates are singular",
     "Tests use a few orders, equal across factors, generic nodes, and the library's own"
     " quadrature as the oracle.",
     [M+"modes.py", M+"spaces.py"],
     [("PKDO functions", "modepy/modes.py:pkdo_2d,pkdo_3d"),
      ("product of functions", "modepy/modes.py:_TensorProductBasisFunction"),
      ("dispatch", "modepy/modes.py:orthonormal_basis_for_space")],
     ["Basis.functions", "Basis.mode_ids", "Basis.orthonormality_weight"],
     "differential against homogeneous recurrences and scipy Gauss-Jacobi cubature")

prop("C03", "Basis gradients are the derivatives of the basis functions",
     "For every basis the library hands out, the gradient callables and the per-axis"
     " derivative callables return the exact partial derivatives of the corresponding"
     " basis function at every point of the reference element, in axis order, shaped"
     " like the input.",
     ["inputs", "configurations"], "all shapes, orders, bases (orthonormal and"
     " monomial, product with different factors), all points",
     "Tests compare with finite differences of coarse tolerance at random interior"
     " points for a handful of orders; degenerate points and mixed products are"
     " never reached.",
     [M+"modes.py"], [("analytic gradients", "modepy/modes.py:grad_pkdo_2d,grad_pkdo_3d"),
                      ("product rule", "modepy/modes.py:_TensorProductGradientBasisFunction")],
     ["Basis.gradients", "Basis.derivatives"],
     "differential against complex-step derivatives of the reference basis")

prop("C04", "Symbolic and numeric evaluation of basis functions agree",
     "Evaluating the symbolic expression obtained from a basis function or its gradient"
     " at any point gives the value that the function itself returns at that point.",
     ["inputs", "configurations"], "all symbolicizable functions, orders, points",
     "Tests symbolicize a few low orders at one random point set.",
     [M+"modes.py"], [("symbolic evaluation", "modepy/modes.py:symbolicize_function")],
     ["modepy.symbolicize_function"],
     "differential between the expression and the callable")

prop("C05", "Monomial bases enumerate and evaluate the declared monomials",
     "The monomial basis of a space contains each monomial of the space exactly once,"
     " labelled by its exponents, and its functions and gradients have exactly the"
     " values of those monomials and their partial derivatives, also where coordinates"
     " are zero. The scaled-monomial helper evaluates, differentiates and integrates"
     " (over the simplex and over [0,1]^d) the monomial it represents, with its factor.",
     ["inputs", "configurations"], "all dimensions, orders, exponents, factors, points",
     "Tests evaluate few monomials away from zero, and never with a factor other than 1.",
     [M+"modes.py", M+"tools.py"],
     [("monomial evaluation", "modepy/modes.py:monomial,grad_monomial"),
      ("helper", "modepy/tools.py:Monomial")],
     ["modepy.monomial_basis_for_space", "modepy.tools.Monomial"],
     "exact recomputation by repeated multiplication; rational closed-form integrals")

prop("C06", "1-D quadrature rules integrate what they claim to",
     "Every 1-D Gauss(-Lobatto), Chebyshev, Gegenbauer, Clenshaw-Curtis and Fejer rule"
     " has the documented number of distinct nodes in the interval and integrates"
     " every polynomial up to its declared exactness under its weight function, and"
     " no rule declares less than that number of points guarantees. Interchangeable"
     " back ends agree, and the dimension-axis option only changes the node shape.",
     ["inputs", "configurations"], "all orders, all alpha, beta > -1, all rule kinds,"
     " both back ends",
     "Tests fix a handful of (alpha, beta, N) and integrands.",
     [Q+"jacobi_gauss.py", Q+"clenshaw_curtis.py"],
     [("Golub-Welsch", "modepy/quadrature/jacobi_gauss.py"),
      ("FFT weights", "modepy/quadrature/clenshaw_curtis.py")],
     ["Quadrature.nodes", "Quadrature.weights", "Quadrature.exact_to"],
     "analytic moments of the Jacobi weight in an orthogonal basis")

prop("C07", "Simplex cubature rules are exact to their declared degree",
     "Every simplex cubature rule that the library offers, at every order and in every"
     " dimension it offers it, integrates every polynomial up to its declared degree"
     " exactly and is at least as exact as requested; rules documented to be positive"
     " and interior are. Nodes and weights have consistent, finite shapes.",
     ["configurations", "inputs"], "all tabulated rules, all dimensions, all polynomials"
     " of the declared degree",
     "Tests sample orders and random monomials; a single wrong digit in one of tens of"
     " thousands of table entries, or a mis-declared degree, goes unnoticed.",
     [Q+"xiao_gimbutas.py", Q+"xg_quad_data.py", Q+"vioreanu_rokhlin.py",
      Q+"vr_quad_data_tri.py", Q+"vr_quad_data_tet.py", Q+"jaskowiec_sukumar.py",
      Q+"jaskowiec_sukumar_tet_data.py", Q+"grundmann_moeller.py"],
     [("tables", "modepy/quadrature/*_data*.py"),
      ("combinatorial construction", "modepy/quadrature/grundmann_moeller.py")],
     ["XiaoGimbutasSimplexQuadrature", "VioreanuRokhlinSimplexQuadrature",
      "JaskowiecSukumarQuadrature", "GrundmannMoellerSimplexQuadrature"],
     "complete enumeration of the tables against exact moments of an orthonormal"
     " reference basis")

prop("C08", "Hypercube and tensor-product rules are exact to their declared degree",
     "Every tabulated quadrilateral and hexahedron rule and every tensor product of"
     " rules integrates all polynomials of its declared degree over the product domain"
     " exactly; the declared exactness of a product is what all factors guarantee."
     " Product nodes and weights are the products of the factors', in a consistent order.",
     ["configurations", "inputs"], "all tabulated orders and dimensions, all products of"
     " up to four rules of different kinds, sizes and dimensions",
     "Tests use equal factors and a few orders, where axis mix-ups cancel.",
     [Q+"__init__.py", Q+"witherden_vincent.py", Q+"witherden_vincent_quad_data.py"],
     [("product construction", "modepy/quadrature/__init__.py:TensorProductQuadrature")],
     ["TensorProductQuadrature", "WitherdenVincentQuadrature"],
     "enumeration of the tables; generated factor lists against a reference product")

prop("C09", "quadrature_for_space integrates the whole space on its shape",
     "Whenever a quadrature rule is obtained for a space and shape, it integrates every"
     " function of that space over that shape exactly, its nodes lie in the shape's"
     " coordinate space, and combinations that are not supported fail with a documented"
     " exception instead of returning an inexact rule.",
     ["inputs", "configurations"], "all shapes, orders, per-factor orders",
     "Tests use a few shapes at equal orders; fall-back between rule families depends on"
     " the order.",
     [Q+"__init__.py"], [("dispatch", "modepy/quadrature/__init__.py:quadrature_for_space")],
     ["modepy.quadrature_for_space"],
     "exact integrals of a complete orthonormal reference basis")

prop("C10", "Kronrod extensions keep the Gauss rule and raise its degree",
     "For every order, the Gauss-Kronrod rule contains the nodes of the Gauss rule it"
     " extends, has positive weights and interior distinct symmetric nodes, and is exact"
     " to the degree it declares.",
     ["inputs", "configurations"], "all orders", "Tests compare a few orders with stored"
     " tables.",
     [Q+"kronrod.py"], [("Laurie/Calvetti construction", "modepy/quadrature/kronrod.py")],
     ["modepy.quadrature.kronrod"], "analytic Legendre moments; scipy Gauss nodes")

prop("C11", "Adaptive quadrature converges to the integral within its tolerance",
     "For every interval that the adaptive integrator accepts (finite, half-infinite,"
     " infinite, reversed, with break points) and every real or complex integrand that"
     " is smooth between its break points and resolved by the rule, a reported success"
     " means that the returned value is the true integral up to the reported error and"
     " the requested tolerance. It terminates within its"
     " configured budget, and a failure to converge is reported.",
     ["inputs"], "all intervals and orientations, integrand families, tolerances,"
     " break points",
     "Tests integrate a few smooth functions over fixed intervals.",
     [Q+"kronrod.py"], [("interval queue and transforms", "modepy/quadrature/kronrod.py")],
     ["modepy.quadrature.kronrod.quadgk"],
     "closed-form antiderivatives of generated integrands; metamorphic relations")

prop("C12", "Transformed 1-D rules integrate over the mapped interval",
     "Mapping a 1-D rule through any of the offered interval maps (affine or conformal"
     " transplantation) yields the rule of the change of variables: nodes are the mapped"
     " nodes and weights the original weights times the map's derivative. The maps fix"
     " the end points, are increasing and odd, and integrals of analytic functions"
     " converge to the true value.",
     ["inputs", "configurations"], "all maps and their parameters, all rules and sizes,"
     " all target intervals",
     "Tests use default map parameters and one rule.",
     [Q+"transplanted.py", Q+"__init__.py"],
     [("conformal maps", "modepy/quadrature/transplanted.py"),
      ("affine map", "modepy/quadrature/__init__.py:Transformed1DQuadrature")],
     ["transplanted_1d_quadrature", "transplanted_legendre_gauss_quadrature",
      "Transformed1DQuadrature"],
     "complex-step derivative of the map and analytic integrals")

prop("C13", "Node sets are unisolvent, inside the element, symmetric and complete",
     "For every shape and order, each node generator returns as many distinct nodes of"
     " the closed reference element as the space has dimensions, ordered like the"
     " node tuples; interpolation in the space at those nodes is unique. Edge-clustered"
     " sets contain the vertices, carry the Gauss-Lobatto nodes on every edge, are"
     " mapped to themselves by every symmetry of the element (so that all faces of one"
     " kind carry the same nodes), and have the small Lebesgue constants of the"
     " published construction. Product sets are products of the factors' sets."
     " Random nodes lie in the element, cover it, and depend only on the generator.",
     ["inputs", "configurations"], "all shapes, orders, per-factor orders, all node"
     " families",
     "Tests check containment and a few orders; symmetry and face-conformity, on which"
     " element-to-element continuity rests, are only sampled.",
     [M+"nodes.py"], [("warp and blend", "modepy/nodes.py:warp_and_blend_nodes"),
                      ("edge clustered", "modepy/nodes.py:edge_clustered_nodes_for_space"),
                      ("tensor product", "modepy/nodes.py:tensor_product_nodes"),
                      ("index tuples", "modepy/nodes.py:node_tuples_for_space")],
     ["equispaced_nodes_for_space", "edge_clustered_nodes_for_space",
      "warp_and_blend_nodes", "equidistant_nodes", "tensor_product_nodes",
      "random_nodes_for_shape"],
     "geometric invariants; recomputation from node tuples; scipy Lobatto nodes")

prop("C14", "Resampling reproduces every function of the space",
     "A generalized Vandermonde matrix holds the value of function j at node i. The"
     " resampling matrix maps nodal values of any function in the span of the basis to"
     " its values at the new nodes, composes (via a third unisolvent set) to the same"
     " map, and in the least-squares case reproduces the best approximation; inputs that"
     " do not determine an interpolant are rejected.",
     ["inputs", "configurations"], "all shapes, orders, bases, old and new node sets of"
     " any number",
     "Tests resample on a couple of node pairs and bases.",
     [M+"matrices.py"], [("Vandermonde", "modepy/matrices.py:vandermonde"),
                         ("resampling", "modepy/matrices.py:resampling_matrix")],
     ["vandermonde", "multi_vandermonde", "resampling_matrix"],
     "random functions of the space evaluated independently")

prop("C15", "Differentiation matrices differentiate the interpolant",
     "For every basis and unisolvent node set, the differentiation matrices map nodal"
     " values of a function of the space to the nodal values of its exact partial"
     " derivatives, also between different node sets, and the axis permutation turns the"
     " first-axis matrix into that of every other axis on symmetric node sets.",
     ["inputs", "configurations"], "all shapes, orders, bases, node sets, axes",
     "Tests differentiate one trigonometric function to a coarse tolerance.",
     [M+"matrices.py"], [("differentiation", "modepy/matrices.py:differentiation_matrices"),
                         ("permutation", "modepy/matrices.py:diff_matrix_permutation")],
     ["differentiation_matrices", "diff_matrices", "diff_matrix_permutation"],
     "derivatives of reference polynomials")

prop("C16", "Mass and bilinear-form matrices equal the integrals they stand for",
     "Mass, inverse mass, test and bilinear-form matrices, on elements and on faces,"
     " applied to nodal values give the weighted integrals of the interpolants against"
     " the nodal basis functions, for every quadrature that is exact enough; the"
     " deprecated variants agree with their replacements.",
     ["inputs", "configurations"], "all shapes, orders, test/trial bases and node sets"
     " (equal or different), faces and quadratures",
     "Tests compare the variants with each other at equal test and trial spaces.",
     [M+"matrices.py"], [("bilinear form",
                          "modepy/matrices.py:nodal_quadrature_bilinear_form_matrix"),
                         ("mass", "modepy/matrices.py:mass_matrix"),
                         ("face variants", "modepy/matrices.py:*_for_face")],
     ["mass_matrix", "inverse_mass_matrix", "nodal_quadrature_test_matrix",
      "nodal_quadrature_bilinear_form_matrix", "nodal_quad_mass_matrix",
      "modal_mass_matrix_for_face", "nodal_mass_matrix_for_face",
      "spectral_diag_nodal_mass_matrix"],
     "independently integrated polynomials")

prop("C17", "Faces parametrize the element boundary with outward normals",
     "For every shape with faces, the face maps send the face's reference element"
     " affinely and bijectively onto the boundary, vertex by vertex as listed, together"
     " covering it exactly once; normals are outward, of unit length and orthogonal to"
     " the face. The divergence theorem holds exactly for every polynomial field.",
     ["inputs", "configurations"], "all simplices up to 3-D, hypercubes, polynomial"
     " vector fields",
     "Tests check one Gauss-theorem instance per shape.",
     [M+"shapes.py"], [("faces", "modepy/shapes.py:faces_for_shape"),
                       ("normals", "modepy/shapes.py:face_normal")],
     ["faces_for_shape", "face_normal", "unit_vertices_for_shape"],
     "divergence theorem with independently exact cubature; geometric invariants")

prop("C18", "Submeshes tessellate the element",
     "For every shape and node tuple set, the submesh cells use only existing nodes,"
     " have positive equal-measure volume on the equispaced lattice, do not overlap and"
     " together cover the element; the same connectivity is valid for any order of the"
     " given node tuples.",
     ["inputs", "configurations"], "all shapes, orders, permutations of the node tuples",
     "Tests count cells or plot for a few orders.",
     [M+"shapes.py"], [("subdivision", "modepy/shapes.py:submesh_for_shape")],
     ["submesh_for_shape"],
     "cell volumes and point location of random points")

prop("C19", "Coordinate maps are mutually inverse and send vertices to vertices",
     "Conversions between unit, barycentric and equilateral simplex coordinates are"
     " affine, consistent with each other and map vertices to the corresponding"
     " vertices; an affine map's inverse undoes it, and its jacobian is the volume factor.",
     ["inputs"], "all dimensions, all points inside and outside the element, all"
     " well-conditioned matrices",
     "Tests do a single round trip per dimension.",
     [M+"tools.py"], [("affine maps", "modepy/tools.py:AffineMap"),
                      ("tables", "modepy/tools.py:EQUILATERAL_TO_UNIT_MAP")],
     ["equilateral_to_unit", "barycentric_to_unit", "unit_to_barycentric",
      "barycentric_to_equilateral", "AffineMap"],
     "round trips, vertices, explicit matrices")

prop("C20", "Tensor-product reshaping exposes the axes and is invertible",
     "Reshaping a nodal or modal array for a product space puts the coefficient of"
     " the product index (i1,..,ik) at [i1,..,ik] along the replaced axis, keeps all"
     " other axes, and un-reshaping restores the original exactly; axis arguments count"
     " from either end and invalid ones are rejected.",
     ["inputs", "configurations"], "all product spaces, array ranks, axes, dtypes and"
     " memory layouts",
     "Tests use the last axis of one- or two-dimensional arrays.",
     [M+"tools.py"], [("reshape", "modepy/tools.py:reshape_array_for_tensor_product_space")],
     ["reshape_array_for_tensor_product_space",
      "unreshape_array_for_tensor_product_space"],
     "index-by-index reference model")

prop("C21", "Modal decay estimators recover the decay they model",
     "The estimator returns per element the exponent and constant of the least-squares"
     " power law in the mode degree, fitted to the skyline-filtered modal magnitudes"
     " regularised by the published optimal-decay baseline. It treats elements"
     " independently, is unaffected by signs and by ignored modes beyond their share of"
     " the norm, and the constant scales with the function while the exponent does not."
     " Skyline filtering never decreases a magnitude and gives the smallest"
     " non-increasing sequence in mode order above the (odd-even smoothed) input. The"
     " residual estimate is the norm of the extrapolated tail relative to the function.",
     ["inputs"], "all coefficient arrays, numbers of elements, orders, dimensions",
     "Tests try a few analytic functions with loose bounds.",
     [M+"modal_decay.py"], [("fit", "modepy/modal_decay.py:fit_modal_decay"),
                            ("skyline", "modepy/modal_decay.py:skyline_pessimize")],
     ["fit_modal_decay", "skyline_pessimize",
      "estimate_relative_expansion_residual"],
     "independent least squares; metamorphic relations")

prop("C22", "The interpolation-error estimator keeps exactly the top modes",
     "The interpolation error estimator matrix maps nodal values of any function of the"
     " space to exactly the modal coefficients of the requested number of highest"
     " orders, in mode order, where the order of a mode is its total degree on a"
     " simplex and the largest degree of its factors on a product; it vanishes on all"
     " functions of lower order. The deprecated simplex variant agrees.",
     ["inputs", "configurations"], "all shapes (also with one order per factor), orders, bases,"
     " numbers of top orders, node sets", "Tests check one order.",
     [M+"modal_decay.py"],
     [("estimator", "modepy/modal_decay.py:"
       "interp_error_coefficient_estimator_matrix"),
      ("mode orders", "modepy/modal_decay.py:degree_vector")],
     ["interp_error_coefficient_estimator_matrix", "degree_vector",
      "simplex_interp_error_coefficient_estimator_matrix"],
     "reference basis coefficients")

prop("C23", "Constructed quadratures satisfy the moment equations they are built from",
     "Given integrands and their exact integrals, the construction routines return"
     " weights or nodes for which the quadrature reproduces every given integral (or the"
     " least-squares/minimum-norm solution when there is none or many); the"
     " orthogonalised and guessed bases span what they are given, and evaluation and"
     " linear combination of integrands are linear.",
     ["inputs", "configurations"], "all integrand families, domains, node sets, numbers"
     " of nodes and moments",
     "Tests rebuild a couple of known rules.",
     [Q+"construction.py"], [("moment fitting", "modepy/quadrature/construction.py")],
     ["find_weights_undetermined_coefficients", "guess_nodes_vioreanu_rokhlin",
      "quad_gauss_newton", "adapt_2d_integrands_to_complex_arg", "linearly_combine",
      "orthogonalize_basis"],
     "residuals of the moment equations; reference least squares")

prop("C24", "Shapes, spaces, bases and rules behave like values",
     "Shapes, spaces, function objects and quadratures that are equal hash equally and"
     " are interchangeable in every operation; copying and pickling round-trip to an"
     " object that behaves identically. Nested products flatten, single factors and"
     " products of intervals are accepted, and dimensions add up.",
     ["inputs", "configurations"], "all shapes and spaces, nested to any depth, all"
     " copy and pickle protocols",
     "Tests pickle a few functions and never a product shape.",
     [M+"shapes.py", M+"spaces.py", M+"modes.py"],
     [("flattening constructors", "modepy/shapes.py:TensorProductShape.__new__"),
      ("flattening constructors", "modepy/spaces.py:TensorProductSpace.__new__")],
     ["Shape", "FunctionSpace", "Basis.functions", "Quadrature", "Face"],
     "round trips and behavioural comparison")

prop("C25", "The Lebesgue constant estimate is the maximum of the Lebesgue function",
     "The estimate returned for a unisolvent node set is at least one, equals the maximum"
     " of the sum of absolute nodal basis functions over a fine lattice of the element,"
     " and depends neither on the order of the nodes nor on the symmetry image used, nor on"
     " whether the function is drawn as well.",
     ["inputs", "configurations"], "all shapes, orders, node sets",
     "Tests only compare orders of magnitude for one family.",
     [M+"tools.py"], [("estimate", "modepy/tools.py:estimate_lebesgue_constant")],
     ["estimate_lebesgue_constant"],
     "recomputation with the reference basis; permutation and symmetry relations")

prop("C26", "Unsupported or invalid requests fail cleanly",
     "Asking for a rule, basis, node set, matrix or shape operation that does not exist"
     " raises the documented exception type rather than a wrong answer or an unrelated"
     " internal error; at the boundary of the supported range the last supported request"
     " still works.",
     ["inputs", "configurations"], "all out-of-range orders, dimensions, mismatched"
     " shapes/spaces, non-unisolvent inputs",
     "Tests rarely ask for what is not there.",
     ["modepy"], [("guards", "throughout")], ["every public function"],
     "enumerated and generated invalid requests against the documented exceptions")

prop("C27", "Calls are pure: no argument, table or result is shared or changed",
     "No public call modifies its arguments, and mutating an object that the library"
     " returned never changes the result of any later call. Hence the answer to a call"
     " does not depend on the history of calls made before it.",
     ["histories", "inputs"], "all sequences of public calls interleaved with in-place"
     " modification of earlier results",
     "Tests run each call once in a fixed order and never mutate results; module tables"
     " and memoised values are shared by the whole process.",
     ["modepy"], [("module tables", "modepy/quadrature/*_data*.py"),
                  ("memoised attributes", "modepy/modes.py, modepy/tools.py")],
     ["every public function"],
     "model: the first answer of a pristine process; random histories of calls and"
     " mutations")

prop("C28", "Concurrent and nested calls do not disturb each other",
     "Calls made at the same time from several threads, sharing shapes, spaces, bases,"
     " rules and argument arrays or not, each return what they return when made alone;"
     " and so do calls made from inside of a function that the library is evaluating"
     " (an integrand, basis function or map that itself uses the library), as well as"
     " the call that evaluates it.",
     ["schedules", "inputs"], "all interleavings of any calls at the granularity of"
     " Python lines and byte codes; all nestings of a call in the user functions of"
     " another",
     "Tests run in one thread, and pass plain functions; module-level work space, or a"
     " cache that is filled in two steps, works as long as calls follow one another.",
     ["modepy"], [("memoised values", "modepy/quadrature/kronrod.py:kronrod,"
                   " modepy/quadrature/transplanted.py, modepy/tools.py:AffineMap"),
                  ("calls into user functions", "modepy/matrices.py,"
                   " modepy/quadrature/__init__.py, modepy/quadrature/kronrod.py")],
     ["every public function"],
     "a tracing scheduler serialises the threads and switches between them at generated"
     " lines or byte codes; oracle: the answer of a pristine process to each single call")

prop("C29", "Operators on one element satisfy the identities of calculus",
     "For every element with its space and any unisolvent nodes, the operators that the"
     " library builds fit together: mass, differentiation, face and trace matrices"
     " satisfy the divergence theorem; differentiation commutes with resampling to finer"
     " spaces, with traces and with restriction to the cells of a submesh (chain rule),"
     " and obeys the product rule; weak forms assembled by quadrature are products of the"
     " exact operators; L2 projection drops exactly the modes that are not shared;"
     " operators on product elements are the Kronecker products of those of the factors,"
     " also when applied axis by axis to the reshaped vector; integrals over the cells"
     " of a submesh add up; and all of them follow a renumbering of nodes or functions.",
     ["inputs", "configurations"], "all shapes, orders (per factor too), unisolvent node"
     " sets, bases, pairs of nested spaces, submeshes, numberings",
     "Tests look at each operator separately, with one node set and equal orders; what"
     " users build (discontinuous Galerkin and spectral element methods) relies on"
     " identities between operators that come from different modules.",
     [M+"matrices.py", M+"shapes.py", M+"nodes.py", M+"modes.py", M+"tools.py",
      Q+"__init__.py"],
     [("volume operators", "modepy/matrices.py:mass_matrix,diff_matrices,"
       "resampling_matrix"),
      ("face operators", "modepy/matrices.py:nodal_mass_matrix_for_face,"
       " modepy/shapes.py:face_normal"),
      ("products", "modepy/modes.py:TensorProductBasis,"
       " modepy/nodes.py:tensor_product_nodes, modepy/tools.py:"
       "reshape_array_for_tensor_product_space"),
      ("submeshes", "modepy/shapes.py:submesh_for_shape, modepy/tools.py:AffineMap")],
     ["modepy.mass_matrix", "modepy.diff_matrices", "modepy.resampling_matrix",
      "modepy.nodal_mass_matrix_for_face", "modepy.nodal_quadrature_bilinear_form_matrix"],
     "metamorphic: identities between operators, none of them computed by the check")

prop("C30", "An abandoned call leaves nothing behind",
     "When a call ends early (because a function of the user that it evaluates raises an"
     " exception, because it is interrupted or runs out of memory anywhere inside of"
     " modepy, or because the request is invalid), the exception of the user's function"
     " reaches the caller unchanged, interrupts are not swallowed, arguments and the"
     " state of the process (floating point error handling, warning filters, random"
     " state) are as before the call, and every later call, with the same or other"
     " objects, gives what it gives in a pristine process.",
     ["crash_points", "fault_sequences", "histories"], "all lines of modepy at which a call can be abandoned, all"
     " calls of user functions that can raise, all histories of abandoned and completed"
     " calls",
     "Tests never interrupt a call; a memo or module-level state that is set in two"
     " steps, or restored without 'finally', works as long as every call completes.",
     ["modepy"], [("memoised values", "modepy/quadrature/kronrod.py:kronrod,"
                   " modepy/quadrature/transplanted.py, modepy/tools.py:AffineMap"),
                  ("process state", "modepy/modes.py:_rstoab,_rsttoabc"),
                  ("calls into user functions", "modepy/matrices.py,"
                   " modepy/quadrature/__init__.py, modepy/quadrature/kronrod.py")],
     ["every public function"],
     "fault injection at every reached line and into user functions; oracle: the answer"
     " of a pristine process to each call")

prop("C31", "Answers depend on what a shape or space is, not on how it was made",
     "A shape or space made in any way (directly, as a face or face of a face, as an"
     " instance of a user's subclass, as a hypercube or the equal product of segments, as"
     " a product of one, of nested or of derived factors, by copying or unpickling) has"
     " the same vertices, nodes, node tuples, bases, quadrature rules, submeshes, faces,"
     " face maps, normals and matrices as the plain one of the same kind, dimensions and"
     " orders.",
     ["inputs", "configurations"], "all shapes and spaces in all of these forms, all"
     " orders (per factor too), all questions that the public functions answer",
     "Tests make shapes and spaces directly and use faces for a few of the questions;"
     " dispatch on the type, and constructors that return other types, are where forms"
     " part.",
     [M+"shapes.py", M+"spaces.py", M+"nodes.py", M+"modes.py", Q+"__init__.py",
      M+"tools.py"],
     [("construction", "modepy/shapes.py:TensorProductShape,Hypercube,_HypercubeFace,"
       " modepy/spaces.py:TensorProductSpace,QN"),
      ("dispatch", "modepy/nodes.py, modepy/modes.py, modepy/quadrature/__init__.py:"
       " functions registered for shapes and spaces")],
     ["every function of shapes and spaces"],
     "metamorphic: the answers for the plain object")

TECH = {"C31": "property-based testing (Hypothesis), metamorphic relation over object forms",
        "C30": "property-based testing with generated fault injection over call"
               " histories",
        "C29": "property-based testing (Hypothesis), metamorphic relations between"
               " operators",
        "C28": "property-based testing over generated thread schedules and nestings",
        "C07": T_ENUM, "C08": T_ENUM, "C26": T_ENUM, "C27": T_STATE,
        **{c: T_INV for c in ["C06", "C09", "C10", "C11", "C12", "C13", "C17", "C18",
                              "C19", "C21", "C25"]}}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    have = {p["id"] for p in P
            if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))}
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH.get(p["id"], T_DIFF),
            "level": "exploration",
            "level_note": "Generated-input search; oracle: " + p["_note"]
            + ". Assurance is limited to the cases generated (counts in the evidence"
              " file); trusts numpy/scipy/mpmath, Hypothesis and the reference oracles"
              " in vlib/ref.py.",
        } for p in P if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"}
                           for p in P if p["id"] not in have],
        "notes": "No hooks in /repo: every property is observable through the public"
                 " API. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
