"""Replays histories of calls (spec/History.tla).  A call is a record
[f, el, n, s]; its reference value is observed in a process in which nothing else
has been called."""
import multiprocessing as mpr, pickle, threading, zlib
import warnings as wn
from drv import *
from drv import _guard
import elem
import modepy as mp
import modepy.modes as mm, modepy.nodes as mn, modepy.tools as mt, modepy.modal_decay as md, modepy.matrices as mx
import modepy.quadrature as mq, modepy.quadrature.construction as ct, modepy.quadrature.kronrod as kr
import modepy.quadrature.transplanted as tp, modepy.quadrature.jacobi_gauss as jg

# {{{ arguments

TL = threading.local()


def ppts(d, n=6):
    k = np.arange(d*n, dtype=float).reshape(d, n)
    return -0.9 + 1.1*np.mod(k*0.37, 1.0)/max(d, 1)


def lay(x):
    """another memory layout of the same values"""
    if not getattr(TL, "alt", False):
        return x
    return np.asfortranarray(x) if x.ndim > 1 and min(x.shape) > 1 else np.repeat(x, 2, axis=-1)[..., ::2]


def kept(kind, mk, refill=None):
    """the objects a caller keeps and passes again: spaces, shapes, bases and, rewritten for
    every call, arrays of points"""
    p = getattr(TL, "pool", None)
    if p is None:
        return mk()
    if kind not in p:
        p[kind] = mk()
    elif refill is not None:
        p[kind][...] = refill
    return p[kind]


def pts(d, n=None):
    """points passed as arguments: the same number of others in the variant "alt" """
    n = n or (47 if getattr(TL, "big", False) else 6)
    x = ppts(d, n)*(0.75 if getattr(TL, "alt", False) else 1.0)
    return kept(("pts", d, n, getattr(TL, "alt", False)), lambda: lay(x.copy()), x)


def shape(c):
    sh = elem.shape(c["el"])
    return kept(repr(sh), lambda: sh)


def space(c):
    sp = elem.space(c["el"])
    return kept(repr(sp), lambda: sp)


def dim(c):
    return shape(c).dim


def basis(c):
    kind = {"mono": mp.monomial_basis_for_space, "any": mp.basis_for_space}.get(c["s"], mp.orthonormal_basis_for_space)
    return kept(("basis", kind.__name__, repr(space(c)), repr(shape(c))), lambda: kind(space(c), shape(c)))


def nodes(c):
    x = (0.9375 if c["s"] == "alt" else 1.0)*np.array(mp.edge_clustered_nodes_for_space(space(c), shape(c)), dtype=float)
    return kept(("nodes", repr(space(c)), repr(shape(c)), c["s"] == "alt"), lambda: lay(x.copy()), x)


def bigrule(c):
    e = dict(c["el"])
    e["fs"] = [[d, 2*n] for d, n in e["fs"]]
    return mp.quadrature_for_space(elem.space(e), elem.shape(e))


def face(c):
    fs = mp.faces_for_shape(shape(c))
    f = fs[c["n"] % len(fs)]
    o = 2*space(c).order
    return f, mp.quadrature_for_space(mp.space_for_shape(f, o), f)


class Boom(Exception):
    pass


class Bomb:
    """an integrand that fails after k evaluations"""

    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        self.k -= 1
        if self.k < 0:
            raise Boom("integrand failed")
        return np.cos(3*x) if not hasattr(x, "ndim") or x.ndim < 2 else np.cos(3*x[0])

# }}}

# {{{ the calls: family -> (call -> (function, arguments))

F = {}


def fam(name):
    def deco(g):
        F[name] = g
        return g
    return deco


KW = {"fda": {"force_dim_axis": True}, "scipy": {"backend": "scipy"}, "builtin": {"backend": "builtin"}}


def kw(c):
    return KW.get(c["s"], {})


for nm, cls in {"lg": mp.LegendreGaussQuadrature, "lgl": mp.LegendreGaussLobattoQuadrature, "cc": mp.ClenshawCurtisQuadrature}.items():
    F[nm] = lambda c, cls=cls: (lambda n: cls(n, **kw(c)), [c["n"]])
F["fejer"] = lambda c: (lambda n, k: mp.FejerQuadrature(n, k, force_dim_axis=True), [c["n"], 2 if c["s"] == "2" else 1])
F["cheb"] = lambda c: (lambda n, k: mp.ChebyshevGaussQuadrature(n, k), [c["n"], 2 if c["s"] == "2" else 1])
F["gg"] = lambda c: (lambda a, n: mp.GaussGegenbauerQuadrature(a, n, **kw(c)), [0.75, c["n"]])
F["jgq"] = lambda c: (lambda a, b, n: mp.JacobiGaussQuadrature(a, b, n, **kw(c)), [1.5, 0.25, c["n"]])
F["jgl"] = lambda c: (lambda a, b, n: mp.JacobiGaussLobattoQuadrature(a, b, n, **kw(c)), [1, 0, c["n"]])
F["jgn"] = lambda c: (jg.jacobi_gauss_nodes if hasattr(jg, "jacobi_gauss_nodes") else jg.jacobi_gauss_lobatto_nodes, [0, 0, c["n"]])
F["kronrod"] = lambda c: (kr.kronrod, [c["n"]])
F["kgauss"] = lambda c: (kr.gauss, [c["n"]])


def _mkron(n):
    q = kr.make_kronrod_quadrature(n)
    return [np.asarray(q(lambda x: np.exp(x))), q]


F["mkron"] = lambda c: (lambda n: np.array(kr.make_kronrod_quadrature(n)(np.exp)), [c["n"]])
F["quadgk"] = lambda c: ({"": lambda n: kr.quadgk(np.exp, -1, 1, order=n), "inf": lambda n: kr.quadgk(lambda x: np.exp(-x*x), -np.inf, np.inf, order=n),
                          "semi": lambda n: kr.quadgk(lambda x: np.exp(-x), 0, np.inf, order=n),
                          "vec": lambda n: kr.quadgk(lambda x: np.sqrt(abs(x)), -1, 0.3, 1, order=n)}[c["s"]], [c["n"]])
F["xg"] = lambda c: (mp.XiaoGimbutasSimplexQuadrature, [c["n"], dim(c)])
F["vr"] = lambda c: (mp.VioreanuRokhlinSimplexQuadrature, [c["n"], dim(c)])
F["wv"] = lambda c: (mp.WitherdenVincentQuadrature, [c["n"], dim(c)])
F["js"] = lambda c: (mp.JaskowiecSukumarQuadrature, [c["n"], dim(c)])
F["gm"] = lambda c: (mp.GrundmannMoellerSimplexQuadrature, [c["n"], dim(c)])
F["lgtp"] = lambda c: (mp.LegendreGaussTensorProductQuadrature, [c["n"], dim(c)])
F["lgltp"] = lambda c: (mp.LegendreGaussLobattoTensorProductQuadrature, [c["n"], dim(c)])
F["tpq"] = lambda c: (mp.TensorProductQuadrature, [[mp.LegendreGaussQuadrature(c["n"], force_dim_axis=True), mp.XiaoGimbutasSimplexQuadrature(3, 2)]])
F["zq"] = lambda c: (mp.ZeroDimensionalQuadrature, [])
F["qspace"] = lambda c: (mp.quadrature_for_space, [space(c), shape(c)])
F["qcall"] = lambda c: (lambda q, m: q(lambda x: np.vstack([np.cos(x[:1]), m @ x])), [mp.quadrature_for_space(space(c), shape(c)), np.ones((2, dim(c)))])
F["t1d"] = lambda c: (mq.Transformed1DQuadrature, [mp.LegendreGaussQuadrature(c["n"], force_dim_axis=c["s"] == "fda"), -0.5, 2.0])
MAPS = {"identity": tp.map_identity, "sausage": lambda s: tp.map_sausage(s, 5), "kte": lambda s: tp.map_kosloff_tal_ezer(s, rho=1.3), "strip": lambda s: tp.map_strip(s, rho=1.3),
        "scale": lambda s: (2*s, 2.0), "shift": lambda s: (s + 1, np.ones_like(s)), "cube": lambda s: (s**3, 3*s**2)}
F["trans"] = lambda c: (tp.transplanted_1d_quadrature, [mp.LegendreGaussQuadrature(c["n"], force_dim_axis=True), MAPS[c["s"]]])
F["tlg"] = lambda c: (lambda n: tp.transplanted_legendre_gauss_quadrature(n, MAPS[c["s"]], force_dim_axis=True), [c["n"]])
F["map"] = lambda c: (MAPS[c["s"]], [np.linspace(-0.95, 0.95, c["n"])])
# nodes
F["wab"] = lambda c: (mp.warp_and_blend_nodes, [dim(c), c["n"]])
F["wabt"] = lambda c: (lambda d, n, t: mp.warp_and_blend_nodes(d, n, t), [dim(c), c["n"], list(mp.node_tuples_for_space(mp.PN(dim(c), c["n"])))])
F["equi"] = lambda c: (mp.equidistant_nodes, [dim(c), c["n"]])
F["espace"] = lambda c: (mp.equispaced_nodes_for_space, [space(c), shape(c)])
F["edge"] = lambda c: (mp.edge_clustered_nodes_for_space, [space(c), shape(c)])
F["lgn"] = lambda c: (mp.legendre_gauss_tensor_product_nodes, [dim(c), c["n"]])
F["lgln"] = lambda c: (mp.legendre_gauss_lobatto_tensor_product_nodes, [dim(c), c["n"]])
F["tpn"] = lambda c: {"": (mp.tensor_product_nodes, [[pts(1, 3), pts(2, 4), pts(1, 2)]]), "one": (mp.tensor_product_nodes, [[pts(2, 4)]]),
                      "dims": (mp.tensor_product_nodes, [c["n"], np.linspace(-1, 1, 3)])}[c["s"]]
F["rand"] = lambda c: (lambda sh, n: mp.random_nodes_for_shape(sh, n, np.random.default_rng(5)), [shape(c), c["n"]])
F["tuples"] = lambda c: (mp.node_tuples_for_space, [space(c)])
F["warp"] = lambda c: (mn.warp_factor, [c["n"], np.linspace(-1, 1, 7)])
# shapes and spaces
F["verts"] = lambda c: (mp.unit_vertices_for_shape, [shape(c)])
F["faces"] = lambda c: (mp.faces_for_shape, [shape(c)])
F["normal"] = lambda c: (lambda f: mp.face_normal(f, c["s"] != "raw"), [face(c)[0]])
F["facemap"] = lambda c: (lambda f, x: f.map_to_volume(x), [face(c)[0], pts(dim(c) - 1)])
F["submesh"] = lambda c: (mp.submesh_for_shape, [shape(c), list(mp.node_tuples_for_space(space(c)))])
F["shape"] = lambda c: (lambda: shape(c), [])
F["space"] = lambda c: (lambda: space(c), [])
F["sfs"] = lambda c: (mp.space_for_shape, [shape(c), c["n"]])
# modes
F["jac"] = lambda c: (mp.jacobi, [0.5, 1, c["n"], pts(1)[0]])
F["gjac"] = lambda c: (mp.grad_jacobi, [0, 1, c["n"], pts(1)[0]])
F["sjac"] = lambda c: (mp.scaled_jacobi, [1, 0, c["n"], pts(1)[0]])
F["basis"] = lambda c: (lambda: basis(c), [])
F["bfun"] = lambda c: (lambda x: basis(c).functions[c["n"] % space(c).space_dim](x), [pts(dim(c))])
F["bgrad"] = lambda c: (lambda x: basis(c).gradients[c["n"] % space(c).space_dim](x), [pts(dim(c))])
F["bder"] = lambda c: (lambda x: basis(c).derivatives(dim(c) - 1)[c["n"] % space(c).space_dim](x), [pts(dim(c))])
F["sym"] = lambda c: (mp.symbolicize_function, [basis(c).functions[c["n"] % space(c).space_dim], dim(c)])
F["pkdo"] = lambda c: ((mm.pkdo_2d if dim(c) == 2 else mm.pkdo_3d), [(1, 2, 1)[:dim(c)], pts(dim(c))])
F["gpkdo"] = lambda c: ((mm.grad_pkdo_2d if dim(c) == 2 else mm.grad_pkdo_3d), [(1, 2, 1)[:dim(c)], pts(dim(c))])
F["monomial"] = lambda c: (mm.monomial, [(1, 2, 0)[:dim(c)], pts(dim(c))])
F["gmonomial"] = lambda c: (mm.grad_monomial, [(1, 2, 0)[:dim(c)], pts(dim(c))])
F["tpb"] = lambda c: (lambda bs, ds: mp.TensorProductBasis(bs, ds), [[mp.orthonormal_basis_for_space(mp.PN(1, 2), mp.Simplex(1)), mp.monomial_basis_for_space(mp.PN(2, 1), mp.Simplex(2))], [1, 2]])


# matrices
def fl(c, k="functions"):
    return list(getattr(basis(c), k))


F["vdm"] = lambda c: (mp.vandermonde, [fl(c), pts(dim(c))])
F["mvdm"] = lambda c: (mp.multi_vandermonde, [fl(c, "gradients"), pts(dim(c))])
F["res"] = lambda c: (mp.resampling_matrix, [fl(c), pts(dim(c)), nodes(c)])
F["resls"] = lambda c: (lambda b, x, y: mp.resampling_matrix(b, x, y, least_squares_ok=True), [fl(c), pts(dim(c)), np.hstack([nodes(c), pts(dim(c), 5)])])
F["diff"] = lambda c: (mp.differentiation_matrices, [fl(c), fl(c, "gradients"), nodes(c)])
F["diff2"] = lambda c: (mp.differentiation_matrices, [fl(c), fl(c, "gradients"), pts(dim(c), space(c).space_dim), nodes(c)])
F["diffm"] = lambda c: (mp.diff_matrices, [basis(c), nodes(c)])
F["perm"] = lambda c: (mp.diff_matrix_permutation, [list(mp.node_tuples_for_space(space(c))), c["n"] % dim(c)])
F["mass"] = lambda c: (mp.mass_matrix, [basis(c), nodes(c)])
F["imass"] = lambda c: (mp.inverse_mass_matrix, [basis(c), nodes(c)])
F["massf"] = lambda c: (mp.mass_matrix, [fl(c), nodes(c)])
F["test"] = lambda c: (mp.nodal_quadrature_test_matrix, [bigrule(c), fl(c), fl(c), nodes(c)])
F["bilin"] = lambda c: (mp.nodal_quadrature_bilinear_form_matrix, [bigrule(c), fl(c), fl(c), fl(c), fl(c), nodes(c), nodes(c)])
F["diag"] = lambda c: (mp.spectral_diag_nodal_mass_matrix, [mp.LegendreGaussTensorProductQuadrature(c["n"], 2)])
F["qmass"] = lambda c: (mx.modal_quad_mass_matrix, [bigrule(c), fl(c)])
F["nqmass"] = lambda c: (mp.nodal_quad_mass_matrix, [bigrule(c), fl(c), nodes(c)])
F["fmass"] = lambda c: (mp.modal_mass_matrix_for_face, [*face(c), facefl(c), fl(c)])
F["nfmass"] = lambda c: (mp.nodal_mass_matrix_for_face, [*face(c), facefl(c), fl(c), nodes(c), facenodes(c)])
F["fqmass"] = lambda c: (mp.modal_quad_mass_matrix_for_face, [*face(c), fl(c)])
F["nfqmass"] = lambda c: (mp.nodal_quad_mass_matrix_for_face, [*face(c), fl(c), nodes(c)])


def facefl(c):
    f, _ = face(c)
    return list(mp.orthonormal_basis_for_space(mp.space_for_shape(f, space(c).order), f).functions)


def facenodes(c):
    f, _ = face(c)
    return np.array(mp.edge_clustered_nodes_for_space(mp.space_for_shape(f, space(c).order), f))


# modal decay
def coeffs(c):
    n = space(c).space_dim
    return lay(np.array([[(e + 2 if c["s"] == "alt" else 1)*np.sin(1.0 + 3*k*(e + 1))/(1 + k)**2 for k in range(n)] for e in range(4)]))


F["degvec"] = lambda c: (md.degree_vector, [basis(c)])
F["estmat"] = lambda c: (md.interp_error_coefficient_estimator_matrix, [nodes(c), 1, basis(c)])
F["fit"] = lambda c: (md.fit_modal_decay, [coeffs(c), dim(c), space(c).order, c["n"] % 2])
F["eres"] = lambda c: (md.estimate_relative_expansion_residual, [coeffs(c), dim(c), space(c).order])
F["skyline"] = lambda c: (md.skyline_pessimize, [np.abs(coeffs(c))])
F["mnv"] = lambda c: (md.make_mode_number_vector, [tuple(mp.node_tuples_for_space(space(c))), 1])
F["baseline"] = lambda c: (md.create_decay_baseline, [np.arange(1, 6), 2])
F["fitmat"] = lambda c: (md.get_decay_fit_matrix, [np.arange(1, 6), 1, np.linspace(1, 2, 5)])
# tools
AM = np.array([[2.0, 1.0], [0.5, -1.0]])
F["aff"] = lambda c: (lambda a, b, x: mt.AffineMap(a, b)(x), [AM.copy(), np.array([1.0, 3.0]), pts(2)])
F["affinv"] = lambda c: (lambda a, b: (lambda g: [g.a, g.b, mt.AffineMap(a, b).jacobian])(mt.AffineMap(a, b).inverse), [AM.copy(), np.array([1.0, 3.0])])
F["affobj"] = lambda c: (mt.AffineMap, [AM.tolist(), [1, 3]])
F["u2b"] = lambda c: (mt.unit_to_barycentric, [pts(dim(c))])
F["b2u"] = lambda c: (mt.barycentric_to_unit, [pts(dim(c) + 1)])
F["b2e"] = lambda c: (mt.barycentric_to_equilateral, [pts(dim(c) + 1)])
F["e2u"] = lambda c: (mt.equilateral_to_unit, [pts(dim(c))])
F["mono"] = lambda c: (lambda e, x: mt.Monomial(e, 2)(x), [[1, 2, 0][:dim(c)], pts(dim(c))])
F["monoint"] = lambda c: (lambda e: (lambda m: [m.simplex_integral(), m.hypercube_integral(), m.diff(0)(pts(dim(c)))])(mt.Monomial(e, 2.5)), [[1, 2, 0][:dim(c)]])
F["leb"] = lambda c: (mt.estimate_lebesgue_constant, [space(c).order, nodes(c), shape(c)])
F["resh"] = lambda c: (mt.reshape_array_for_tensor_product_space, [space(c), np.arange(2.0*space(c).space_dim).reshape(2, -1)])
F["unresh"] = lambda c: (mt.unreshape_array_for_tensor_product_space, [space(c), np.array(mt.reshape_array_for_tensor_product_space(space(c), np.arange(2.0*space(c).space_dim).reshape(2, -1)))])
# construction
F["lin"] = lambda c: (lambda co, fs: ct.linearly_combine(co, fs)(pts(dim(c))), [np.linspace(-1, 1, space(c).space_dim), fl(c)])
F["linn"] = lambda c: (lambda co, fs: ct.linearly_combine(co[:2], [ct.linearly_combine(co, fs), ct.linearly_combine(co**2, fs)])(pts(dim(c))), [np.linspace(-1, 1, space(c).space_dim), fl(c)])
F["orth"] = lambda c: (lambda q, fs: [f(pts(dim(c))) for f in ct.orthogonalize_basis(q, fs)], [bigrule(c), list(mp.monomial_basis_for_space(space(c), shape(c)).functions)])
F["guess"] = lambda c: (lambda q, fs: np.sort_complex(ct.guess_nodes_vioreanu_rokhlin(lambda f: q(lambda x: f(x[0] + 1j*x[1])), ct.adapt_2d_integrands_to_complex_arg(fs))),
                        [mp.XiaoGimbutasSimplexQuadrature(12, 2), list(mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2)).functions)])
F["wts"] = lambda c: (ct.find_weights_undetermined_coefficients, [fl(c), nodes(c), np.linspace(1, 2, space(c).space_dim)])


def rj(c):
    b = basis(c)
    x = nodes(c)
    return [x, np.ones(x.shape[1])/3, list(b.functions), [list(b.derivatives(k)) for k in range(dim(c))], np.linspace(1, 2, space(c).space_dim)]


F["rj"] = lambda c: (lambda *a: (lambda r: [r.residual, r.dresid_dweights, r.dresid_dnodes])(ct.quad_residual_and_jacobian(*a)), rj(c))
F["gn"] = lambda c: (lambda *a: list(ct.quad_gauss_newton_increment(ct.quad_residual_and_jacobian(*a))), rj(c))

# calls that fail
F["x-xg"] = lambda c: (mp.XiaoGimbutasSimplexQuadrature, [99, 2])
F["x-vr"] = lambda c: (mp.VioreanuRokhlinSimplexQuadrature, [50, 3])
F["x-wv"] = lambda c: (mp.WitherdenVincentQuadrature, [99, 3])
F["x-js"] = lambda c: (mp.JaskowiecSukumarQuadrature, [4, 2])
F["x-kron"] = lambda c: (kr.kronrod, [0])
F["x-space"] = lambda c: (mp.orthonormal_basis_for_space, [mp.PN(3, 2), mp.Simplex(2)])
F["x-face"] = lambda c: (mp.faces_for_shape, [mp.Simplex(4)])
F["x-vdm"] = lambda c: (mp.vandermonde, [[lambda x: x[0], Bomb(0)], pts(2)])
F["x-quadgk"] = lambda c: (lambda f: kr.quadgk(f, -1, 1), [Bomb(c["n"])])
F["x-mass"] = lambda c: (mp.mass_matrix, [mp.monomial_basis_for_space(mp.PN(2, 2), mp.Simplex(2)), pts(2)])
F["x-res"] = lambda c: (mp.resampling_matrix, [fl(c), pts(dim(c)), pts(dim(c), 3)])
F["x-orth"] = lambda c: (lambda q, fs: ct.orthogonalize_basis(q, fs), [bigrule(c), [lambda x: x[0], Bomb(1)]])
F["x-resh"] = lambda c: (mt.reshape_array_for_tensor_product_space, [mp.QN(2, 2), np.ones((2, 7))])
F["x-leb"] = lambda c: (mt.estimate_lebesgue_constant, [2, pts(2), mp.Simplex(3)])
F["x-tpq"] = lambda c: (mp.TensorProductQuadrature, [[mp.LegendreGaussQuadrature(2, force_dim_axis=True), 7]])
F["x-sub"] = lambda c: (mp.submesh_for_shape, [mp.Simplex(4), [(0, 0, 0, 0)]])
F["x-aff"] = lambda c: (lambda: mt.AffineMap([[1, 1], [1, 1]], [0, 0]).inverse, [])
F["x-qcall"] = lambda c: (lambda q, f: q(f), [mp.XiaoGimbutasSimplexQuadrature(3, 2), Bomb(0)])
F["x-jg"] = lambda c: (lambda: mp.JacobiGaussQuadrature(0, 0, 3, backend="nonsense"), [])
F["x-trans"] = lambda c: (tp.transplanted_1d_quadrature, [mp.XiaoGimbutasSimplexQuadrature(3, 2), MAPS["identity"]])

# }}}

# {{{ observing values, overwriting arrays

def obs(v, depth=0):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("obj", v.shape, [str(x) for x in v.ravel()])
        return ("arr", v.dtype.str, v.shape, v.copy())
    if v is None or isinstance(v, (bool, str, int)):
        return ("val", v)
    if isinstance(v, (float, complex, np.generic)):
        return ("arr", "", (), np.asarray(v))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, [obs(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(str(k), obs(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, mq.Quadrature):
        ex = None
        try:
            ex = str(v.exact_to)
        except AttributeError:
            ex = "undeclared"
        return ("quad", type(v).__name__, ex, obs(v.nodes), obs(v.weights),
                [obs(q) for q in v.quadratures] if isinstance(v, mq.TensorProductQuadrature) else [])
    if isinstance(v, mp.Basis):
        d = v._dim if isinstance(v._dim, int) else v._dim()
        x = ppts(d, 4)
        ow = None
        try:
            ow = float(v.orthonormality_weight() if callable(v.orthonormality_weight) else v.orthonormality_weight)
        except mp.BasisNotOrthonormal:
            ow = "no"
        return ("basis", obs(ow), obs(tuple(v.mode_ids)), [obs(f(x)) for f in v.functions], [obs(g(x)) for g in v.gradients])
    if isinstance(v, mt.AffineMap):
        return ("affine", obs(v.a), obs(v.b), obs(v(ppts(len(v.b), 3))))
    if isinstance(v, mp.Face):
        return ("face", repr(v.volume_shape), v.face_index, tuple(v.volume_vertex_indices), v.dim, obs(v.map_to_volume(ppts(v.dim, 3))))
    if isinstance(v, mp.Shape):
        return ("shape", repr(v), v.dim, v.nvertices, v.nfaces)
    if isinstance(v, mp.FunctionSpace):
        return ("space", repr(v), v.order if not isinstance(v, mp.TensorProductSpace) or isinstance(v, mp.QN) else 0, v.spatial_dim, v.space_dim)
    return ("other", str(v))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            s = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0)))
            return bool(np.allclose(a, b, rtol=1e-11, atol=1e-12*s, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def arrays(v):
    """the arrays and lists a caller holds through v"""
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, list):
        return [y for x in v for y in arrays(x)] + [v]
    if isinstance(v, tuple):
        return [y for x in v for y in arrays(x)]
    if isinstance(v, dict):
        return [y for x in v.values() for y in arrays(x)] + [v]
    if isinstance(v, mq.Quadrature):
        r = [v.nodes, v.weights]
        if isinstance(v, mq.TensorProductQuadrature):
            r += [y for q in v.quadratures for y in arrays(q)]
        return r
    if isinstance(v, mt.AffineMap):
        return [v.a, v.b]
    if isinstance(v, mp.Basis):            # the arrays it hands out
        x = ppts(v._dim if isinstance(v._dim, int) else v._dim(), 4)
        return [y for f in v.functions for y in arrays(f(x.copy()))] + [y for g in v.gradients for y in arrays(g(x.copy()))]
    if isinstance(v, mp.Face):
        return arrays(v.map_to_volume(ppts(v.dim, 3))) + arrays(mp.unit_vertices_for_shape(v.volume_shape)) + arrays(mp.face_normal(v))
    if isinstance(v, mp.Shape):
        return arrays(mp.unit_vertices_for_shape(v))
    return []


def overwrite(v):
    done = False
    for a in arrays(v):
        if isinstance(a, np.ndarray):
            if a.flags.writeable and a.size:
                a[...] = True if a.dtype == bool else 77
                done = True
        else:
            a.clear()
            done = True
    return done

# }}}

LAST = threading.local()


def perform(c):
    """-> outcome observation, value, arguments, were the arguments left alone"""
    TL.alt = c["s"] == "alt"
    TL.big = c["s"] == "big"
    fn, args = F[c["f"]](c)
    before = [obs(a) for a in args if not callable(a) and not isinstance(a, dict)]
    with wn.catch_warnings():
        wn.simplefilter("ignore")
        cls, v, exc = call(fn, *args) if threading.current_thread() is threading.main_thread() else plain(fn, *args)
    after = [obs(a) for a in args if not callable(a) and not isinstance(a, dict)]
    if cls == "exc":
        LAST.tb = v
    o = ("exc", exc[0]) if cls == "exc" else (cls, obs(v) if cls == "ok" else None)
    return o, (v if cls == "ok" else None), args, same(before, after)


def plain(fn, *args):
    try:
        return "ok", fn(*args), []
    except Exception as e:                       # noqa: BLE001
        return "exc", traceback.format_exc(), [c.__name__ for c in type(e).__mro__]


def key(c):
    return json.dumps(c, sort_keys=True)


REFS = {}


def reference(c):
    try:
        return pickle.dumps(perform(c)[0])
    except BaseException:                        # noqa: BLE001
        return pickle.dumps(("driver", traceback.format_exc()))


def ref(c):
    r = REFS[key(c)]
    if isinstance(r, bytes):
        r = REFS[key(c)] = pickle.loads(r)
    return r


def threads(j):
    obsv = [None]*len(j["hist"])
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    k = j["threads"]
    bar = threading.Barrier(k)

    def work(t):
        bar.wait()
        for i in range(t, len(j["hist"]), k):
            c = j["calls"][j["hist"][i]["arg"] - 1]
            o, v, args, kept = perform(c)
            obsv[i] = {"same": same(o, ref(c)), "kept": kept}
            if not obsv[i]["same"]:
                obsv[i]["got"] = [c["f"], str(o)[:300], str(ref(c))[:300], getattr(LAST, "tb", "")[-900:] if o[0] == "exc" else ""]
            if t % 2:
                overwrite(v)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    return [o or {"same": False, "kept": False} for o in obsv]


def history(j):
    handles = []           # (call, value, args)
    TL.pool = {} if j["share"] else None
    out = []
    for st in j["hist"]:
        op, arg = st["op"], st["arg"]
        r = {"same": True, "kept": True}
        if op == "call":
            c = j["calls"][arg - 1]
            o, v, args, kept = perform(c)
            handles.append((c, v, args, o[0]))
            r = {"same": same(o, ref(c)), "kept": kept}
        else:
            c, v, args, cls = handles[arg - 1]
            if op == "write":
                overwrite(v)
            elif op == "args":
                overwrite([a for a in args if not isinstance(a, (mp.Face, mp.Shape, mp.Basis, mp.FunctionSpace))])
            elif op == "read":
                if cls == "ok":
                    try:
                        o = ("ok", obs(v))
                    except Exception as e:       # noqa: BLE001
                        o = ("exc", type(e).__name__)
                    r = {"same": same(o, ref(c)), "kept": True}
        out.append(r)
    return out


def job(j):
    e = {"id": "-".join([j["fam"], *(c["f"] for c in j["calls"][:4]), str(zlib.crc32(json.dumps(j).encode()))]), "kind": j["fam"], "job": j}
    o = threads(j) if j["threads"] else history(j)
    return [e | {"cls": "ok", "exc": [], "obs": o, "refok": [ref(c)[0] for c in j["calls"]]}]


if __name__ == "__main__":
    plan = [json.loads(l) for l in open(sys.argv[1]) if l.strip()]
    # (data modules are loaded once; nothing is called before the histories)
    import importlib
    for m in ("scipy.special", "scipy.linalg", "pymbolic", "modepy.quadrature.xg_quad_data", "modepy.quadrature.vr_quad_data_tri",
              "modepy.quadrature.vr_quad_data_tet", "modepy.quadrature.witherden_vincent_quad_data", "modepy.quadrature.jaskowiec_sukumar_tet_data"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    calls = {key(c): c for j in plan for c in j["calls"]}
    with mpr.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for k, r in zip(calls, pool.map(reference, calls.values(), chunksize=1)):
            REFS[k] = r
    for k in REFS:
        r = pickle.loads(REFS[k])
        if r[0] == "driver":
            print(k, r[1])
            sys.exit(3)
    with mpr.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(_guard, [(job, j) for j in plan], chunksize=1)
    with open(sys.argv[2], "w") as f:
        for r in res:
            if isinstance(r, dict):
                print(r["job"], r["__driver_error__"])
                sys.exit(3)
            for e in r:
                f.write(json.dumps(e) + "\n")
    print(len(plan), "events")
