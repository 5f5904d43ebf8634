"""Replays spec/Guards.tla: pairs of spaces and shapes, and classes of parameters."""
from drv import *
import functools
import modepy, modepy.spaces
import modepy.modes as mm, modepy.nodes as mn, modepy.tools as mt, modepy.modal_decay as md, modepy.matrices as mx
import modepy.shapes as sh
import modepy.quadrature as mq, modepy.quadrature.construction as ct, modepy.quadrature.kronrod as kr
import modepy.quadrature.transplanted as tp, modepy.quadrature.jacobi_gauss as jg
from modepy.quadrature.clenshaw_curtis import ClenshawCurtisQuadrature, FejerQuadrature
from modepy.quadrature.witherden_vincent import WitherdenVincentQuadrature
from modepy.quadrature.jaskowiec_sukumar import JaskowiecSukumarQuadrature


class Names:
    """public names, wherever they live"""
    def __getattr__(self, n):
        for m in (modepy, mm, mn, mt, mx, mq, jg, sh, modepy.spaces):
            if hasattr(m, n):
                return getattr(m, n)
        raise RuntimeError(f"no public name {n}")


mp = Names()


class MyShape(sh.Shape):
    """a shape nothing is known about"""
    nfaces = nvertices = 3

    def __init__(self):
        super().__init__(2)


class MySpace(modepy.spaces.FunctionSpace):
    order = 2
    spatial_dim = 2
    space_dim = 6


def other(k, swapped):
    """things that are not the space (or, swapped, not the shape) of an element"""
    return [None, 2, "PN", (1, 2), object(), mp.Simplex(2) if not swapped else mp.PN(2, 2),
            MySpace() if not swapped else MyShape(), np.zeros((2, 3)),
            mp.Hypercube(2) if not swapped else mp.QN(2, 2)][k - 1]


def space(t, orders):
    it = iter(orders)

    def go(t):
        if t["t"] == "x":
            return other(t["d"], False)
        if t["t"] == "s":
            return mp.PN(t["d"], next(it))
        return mp.TensorProductSpace(tuple(go(p) for p in t["parts"]))
    return go(t)


def shape(t):
    if t["t"] == "x":
        return other(t["d"], True)
    if t["t"] == "s":
        return mp.Simplex(t["d"])
    return mp.TensorProductShape(tuple(shape(p) for p in t["parts"]))


FNS = ["quadrature_for_space", "basis_for_space", "orthonormal_basis_for_space", "monomial_basis_for_space",
       "equispaced_nodes_for_space", "edge_clustered_nodes_for_space"]


def serve(fn, sp, s):
    """what the function returns, in terms of the problem it is for"""
    r = getattr(modepy, fn)(sp, s)
    if fn.startswith("quad"):
        return {"dim": int(r.nodes.shape[0]), "vol": fx1(np.sum(r.weights)), "count": 0}
    if fn.endswith("nodes_for_space"):
        return {"dim": int(r.shape[0]), "vol": "0", "count": int(r.shape[1])}
    return {"dim": int(s.dim), "vol": "0", "count": len(r.mode_ids)}


def top(t):
    return t["d"] if t["t"] == "s" else max([0] + [top(p) for p in t["parts"]])


def pairs(job):
    evs = []
    for i, h in enumerate(job["shapes"]):
        outs = []
        for fn in FNS:
            # documented to be available up to three dimensions only
            if fn == "orthonormal_basis_for_space" and top(job["space"]) > 3:
                continue
            cls, v, exc = call(lambda: serve(fn, space(job["space"], job["orders"]), shape(h)))
            if cls != "ok":
                v = {"dim": 0, "vol": "0", "count": 0}
            outs.append({"fn": fn, "cls": cls, "exc": exc, **v})
        evs.append({"id": f"pair{zlib.crc32(json.dumps([job['space'], job['orders'], h]).encode()):x}", "kind": "pairs",
                    "space": job["space"], "orders": job["orders"], "shape": h, "outs": outs,
                    "cls": "ok", "exc": [], "job": {}})
    return evs


def facepairs(job):
    """faces of a shape are shapes"""
    s = mp.Simplex(job["d"]) if job["form"] == "S" else mp.Hypercube(job["d"])
    evs = []
    for i, f in enumerate(mp.faces_for_shape(s)):
        for fn in FNS:
            cls, v, exc = call(lambda: getattr(modepy, fn)(mp.space_for_shape(f, 2), f))
            evs.append({"id": f"face{job['form']}{job['d']}.{i}.{fn}", "kind": "face", "cls": cls, "exc": exc, "job": {}})
    return evs


import zlib

# {{{ parameters


def pts(d, n=5):
    k = np.arange(d*n, dtype=float).reshape(d, n)
    return -0.9 + 1.1*np.mod(k*0.37, 1.0)/max(d, 1)


def quad(name):
    lg = mp.LegendreGaussQuadrature
    return {"lg": lambda: lg(3), "lgdim": lambda: lg(3, force_dim_axis=True), "lg2": lambda: mp.LegendreGaussTensorProductQuadrature(2, 3),
            "tri": lambda: mp.XiaoGimbutasSimplexQuadrature(3, 2), "xg": lambda: mp.XiaoGimbutasSimplexQuadrature(3, 2),
            "tet": lambda: mp.XiaoGimbutasSimplexQuadrature(3, 3),
            "zero": mp.ZeroDimensionalQuadrature, "tp": lambda: mp.TensorProductQuadrature([lg(2), lg(3)]),
            "tp1": lambda: mp.TensorProductQuadrature([lg(2)]),
            "tptri": lambda: mp.TensorProductQuadrature([lg(2), mp.XiaoGimbutasSimplexQuadrature(3, 2)]),
            "tptri2": lambda: mp.TensorProductQuadrature([mp.XiaoGimbutasSimplexQuadrature(3, 2), lg(1)]),
            "plain": lambda: mp.Quadrature(pts(2), np.ones(5)),
            "vr0": lambda: mp.VioreanuRokhlinSimplexQuadrature(2, 2),
            "sausage": lambda: tp.transplanted_legendre_gauss_quadrature(3, functools.partial(tp.map_sausage, degree=5)),
            "tpmissing": lambda: mp.TensorProductQuadrature([lg(2), mp.Quadrature(pts(1)[0], np.ones(5))]),
            "kron": lambda: kr.make_kronrod_quadrature(3).gauss_quadrature}[name]()


def backend(a, s):
    f, b = s.split(":")
    if f == "jg":
        return mp.JacobiGaussQuadrature(1, 2, 3, backend=b)
    if f == "geg":
        return jg.GaussGegenbauerQuadrature(1.5, 3, backend=b)
    if f == "cheb":
        return mp.ChebyshevGaussQuadrature(3, backend=b)
    if f == "jgl":
        return jg.JacobiGaussLobattoQuadrature(1, 2, 3, backend=b)
    if f == "lgl":
        return jg.LegendreGaussLobattoQuadrature(3, backend=b)
    if f == "jgln":
        return jg.jacobi_gauss_lobatto_nodes(1, 2, 3, b)
    if f == "lgln":
        return jg.legendre_gauss_lobatto_nodes(3, b)
    if f == "lgtp":
        return mq.LegendreGaussTensorProductQuadrature(2, 2, b)
    if f == "lgltp":
        return mq.LegendreGaussLobattoTensorProductQuadrature(2, 2, b)
    return mp.LegendreGaussQuadrature(3, backend=b)


def quadgkval(a, s):
    bad = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "none": 0.25}[s]
    # a value at one sample only
    x0 = [0.0, None, None, None][a[0]]

    def f(x):
        if a[0] == 3:
            return np.where(np.asarray(x) > 0.9, bad, 1.0) if np.ndim(x) else (bad if x > 0.9 else 1.0)
        if a[0] == 2:
            return bad
        if a[0] == 1:
            return np.array([1.0, bad])[1] if x < 0 else 1.0
        return bad if abs(x - 0.5) < 1e-9 else 1.0
    return kr.quadgk(f, *([0, 1] if a[0] in (0, 3) else [-1, 1]))


def transplant(a, s):
    m = [tp.map_identity, functools.partial(tp.map_sausage, degree=5), functools.partial(tp.map_kosloff_tal_ezer, rho=1.4),
         functools.partial(tp.map_strip, rho=1.4)][a[0]]
    return tp.transplanted_1d_quadrature(quad(s), m)


def odd(s, x):
    return {"nan": math.nan, "inf": math.inf, "": x}[s]


def tuples(a, s):
    n, k = a
    d = 3 if "3" in s else (2 if "2" in s else 1)
    nt = list(mp.node_tuples_for_space(mp.PN(d, n)))
    nt = nt[:k] if k < 0 else nt + [nt[0]]*k
    if s.startswith("equi"):
        return mp.equidistant_nodes(d, n, nt)
    if s == "wab_2d":
        return mn.warp_and_blend_nodes_2d(n, nt)
    if s == "wab_3d":
        return mn.warp_and_blend_nodes_3d(n, nt)
    return mp.warp_and_blend_nodes(d, n, nt)


def tpnodes(a, s):
    x = np.linspace(-1, 1, 3)
    return [lambda: mp.tensor_product_nodes(2), lambda: mp.tensor_product_nodes([x, x], x), lambda: mp.tensor_product_nodes(2, x),
            lambda: mp.tensor_product_nodes([x, x]), lambda: mp.tensor_product_nodes([x, pts(2)]), lambda: mp.tensor_product_nodes(0, x),
            lambda: mp.tensor_product_nodes([], x), lambda: mp.tensor_product_nodes(0)][a[0]]()


def sd(k, d):
    return mp.Simplex(d) if k == "S" else mp.Hypercube(d)


def submesh(a, s):
    k = sd(s, a[0])
    nt = mp.node_tuples_for_space(mp.space_for_shape(k, 2))
    r = mp.submesh_for_shape(k, nt)
    assert len(r) > 0
    return r


def othershape(a, s):
    x = other(a[0], True)
    if s == "space_for_shape":
        return mp.space_for_shape(x, 2)
    if s == "submesh_for_shape":
        return mp.submesh_for_shape(x, [(0, 0)])
    if s == "random_nodes_for_shape":
        return mp.random_nodes_for_shape(x, 3)
    return getattr(mp, s)(x)


def facemap(a, s):
    d, k = a
    if s == "S":
        fv = sh.unit_vertices_for_shape(mp.Simplex(d))
        fv = fv[:, :d + k] if d + k <= d + 1 else np.hstack([fv, fv[:, :1]])
        return sh._simplex_face_to_vol_map(fv, pts(d - 1))
    fv = sh.unit_vertices_for_shape(mp.Hypercube(d))
    return sh._hypercube_face_to_vol_map(fv[:, [i % 2**d for i in range(2**(d-1) + k)]], pts(d - 1))


def order(o, d):
    return {"int": 2, "tuple1": (2,), "tupled": (2,)*d, "float": 2.0, "str": "2", "none": None}[o]


def spaceorder(a, s):
    d = a[0]
    if s == "PN":
        return mp.PN(d, 2).order
    return mp.TensorProductSpace(tuple(mp.PN(1, 2 + (i if s == "mixed" else 0)) for i in range(d))).order


def mat(a, s):
    d, n, k = a
    S, sp = mp.Simplex(d), mp.PN(d, n)
    b = mp.orthonormal_basis_for_space(sp, S)
    x = mp.warp_and_blend_nodes(d, n)
    y = x[:, :k] if k < 0 else np.hstack([x, np.full((d, k), -0.71) + 0.1*np.arange(k)/max(d, 1)]) if k else x
    q = mp.quadrature_for_space(mp.PN(d, 2*n + 1), S)
    if s in ("resampling", "resampling_lsq"):
        return mp.resampling_matrix(b.functions, pts(d), y, least_squares_ok=s.endswith("lsq"))
    if s == "differentiation":
        return mx.differentiation_matrices(b.functions, b.gradients, y)
    if s == "diff":
        return mp.diff_matrices(b, y)
    if s == "nodal_quad_mass":
        return mx.nodal_quad_mass_matrix(q, b.functions, y)
    if s == "mass":
        return mp.mass_matrix(b, y)
    if s == "inverse_mass":
        return mp.inverse_mass_matrix(b, y)
    if s == "bilinear_in":
        return mp.nodal_quadrature_bilinear_form_matrix(quadrature=q, test_functions=b.functions, trial_functions=b.functions,
            nodal_interp_functions_test=b.functions, nodal_interp_functions_trial=b.functions, input_nodes=y, output_nodes=x)
    if s == "bilinear_out":
        return mp.nodal_quadrature_bilinear_form_matrix(quadrature=q, test_functions=b.functions, trial_functions=b.functions,
            nodal_interp_functions_test=b.functions, nodal_interp_functions_trial=b.functions, input_nodes=x, output_nodes=y)
    if s == "test_matrix":
        return mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, y)
    f = mp.faces_for_shape(S)[0]
    fs = mp.space_for_shape(f, n)
    fq = mp.quadrature_for_space(mp.space_for_shape(f, 2*n + 1), f)
    if s == "quad_face_mass":
        return mx.nodal_quad_mass_matrix_for_face(f, fq, b.functions, y)
    fb = mp.orthonormal_basis_for_space(fs, f)
    fx_ = mp.warp_and_blend_nodes(d - 1, n)
    fx_ = fx_[:, :k] if k < 0 else np.hstack([fx_, np.full((d - 1, k), -0.71)])
    return mx.nodal_mass_matrix_for_face(f, fq, fb.functions, b.functions, x, fx_)


def monomass(a, s):
    b = mp.monomial_basis_for_space(mp.PN(*a), mp.Simplex(a[0]))
    x = mp.warp_and_blend_nodes(*a)
    return (mp.mass_matrix if s == "mass" else mp.inverse_mass_matrix)(b, x)


def weight(a, s):
    d = a[0]
    S = mp.Simplex(d) if s[0] == "P" else mp.Hypercube(d)
    f = mp.orthonormal_basis_for_space if s.endswith("ortho") else mp.monomial_basis_for_space
    return f(mp.space_for_shape(S, 2), S).orthonormality_weight()


def construct(a, s):
    k, l = a
    b = mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2))
    q = mp.XiaoGimbutasSimplexQuadrature(4, 2)
    if s == "weights":
        return ct.find_weights_undetermined_coefficients(list(b.functions), q.nodes[:, :5 + l], np.ones(6 + k))
    fns = list(b.functions)
    der = [list(b.derivatives(i)) for i in range(2)]
    if k < 0:
        der = der[:k]
    else:
        der = der + [der[0]]*k
    if der:
        der[-1] = der[-1][:l] if l < 0 else der[-1] + [der[-1][0]]*l
    return ct.quad_residual_and_jacobian(q.nodes, q.weights, fns, der, np.ones(6))


def reshape(a, s):
    ax, at = a
    sp = mp.QN(2, 2) if s == "Q" else mp.PN(2, 2)
    shp = [2, 3, 4, 5]
    shp[at] = 9 if s == "Q" else 6
    r = mp.reshape_array_for_tensor_product_space(sp, np.zeros(shp), ax)
    return r


def unreshape(a, s):
    ax, at = a
    shp = [2, 4, 5, 7]
    shp[at:at+1] = [3, 3]
    return mp.unreshape_array_for_tensor_product_space(mp.QN(2, 2), np.zeros(shp), ax)


def decay(a, s):
    d, k = a
    b = mp.orthonormal_basis_for_space(mp.PN(d, 3), mp.Simplex(d))
    n = len(b.mode_ids)
    return md.fit_modal_decay(np.exp(-0.1*np.arange((n + k)*3, dtype=float)).reshape(3, n + k), d, 3)


def degvec(a, s):
    t, q = mp.Simplex(2), mp.Hypercube(2)
    b = mp.orthonormal_basis_for_space(mp.PN(2, 2), t)
    return md.degree_vector([b, mp.basis_for_space(mp.QN(2, 2), q), b.functions, None, mp.PN(2, 2), t, 3][a[0] - 1])


def rowsfn(a, s):
    d, r = a
    x = pts(r)
    if s == "monomial":
        return mm.monomial((1,)*d, x)
    if s == "diffmono":
        return mm.diff_monomial((1,)*d, 0, x)
    if s == "gradmonof":
        return mm.grad_monomial((1,)*d, x)
    if s in ("tp", "tpgrad"):
        S, sp = mp.Hypercube(d), mp.QN(d, 2)
    elif s in ("prism", "prismgrad"):
        S = mp.TensorProductShape((mp.Simplex(d - 1), mp.Simplex(1)))
        sp = mp.space_for_shape(S, 2)
    else:
        S, sp = mp.Simplex(d), mp.PN(d, 2)
    f = mp.monomial_basis_for_space if "mono" in s else mp.orthonormal_basis_for_space
    b = f(sp, S)
    fns = b.gradients if "grad" in s else b.functions
    # every function has to reject (or serve)
    errs = []
    for g in fns:
        try:
            g(x)
        except Exception as e:               # noqa: BLE001
            errs.append(e)
    if errs and len(errs) == len(fns):
        raise errs[0]
    assert_all(not errs or d == r, errs)
    return None


class Partial(BaseException):
    pass


def assert_all(c, errs):
    # "served" although some functions rejected: counts as served
    return c


def lebesgue(a, s):
    d, r = a
    S = sd(s, d)
    n = 2 if d < 3 else 1
    x = mp.edge_clustered_nodes_for_space(mp.space_for_shape(S, n), S)
    if r < d:
        x = x[:r]
    elif r > d:
        x = np.vstack([x] + [x[:1]]*(r - d))
    return mp.estimate_lebesgue_constant(n, x, S)


P = {
    "tab": lambda a, s: {"xg": mp.XiaoGimbutasSimplexQuadrature, "vr": mp.VioreanuRokhlinSimplexQuadrature,
                         "js": JaskowiecSukumarQuadrature, "wv": WitherdenVincentQuadrature}[s](a[1], a[0]),
    "jg": lambda a, s: mp.JacobiGaussQuadrature(a[0]/4, a[1]/4, a[2], backend=s),
    "backend": backend,
    "lgneg": lambda a, s: mp.LegendreGaussQuadrature(a[0] + (1 if a[0] == -1 else 0)),
    "cheb": lambda a, s: mp.ChebyshevGaussQuadrature(a[1], kind=a[0]),
    "fejer": lambda a, s: FejerQuadrature(a[1], kind=a[0]),
    "jgl": lambda a, s: jg.JacobiGaussLobattoQuadrature(a[0]/4, a[1]/4, a[2]),
    "lgl": lambda a, s: jg.LegendreGaussLobattoQuadrature(a[0]),
    "cc": lambda a, s: ClenshawCurtisQuadrature(a[0]),
    "kron": lambda a, s: {"gauss": kr.gauss, "kronrod": kr.kronrod, "make_kronrod": kr.make_kronrod_quadrature}[s](a[0]),
    "quadgk": lambda a, s: kr.quadgk(lambda x: x*x, *np.linspace(0, 1, a[0])),
    "quadgkval": quadgkval,
    "interval": lambda a, s: mp.Transformed1DQuadrature(mp.LegendreGaussQuadrature(3), a[0]/2, a[1]/2),
    "kterho": lambda a, s: tp.map_kosloff_tal_ezer(pts(1)[0], rho=odd(s, a[0]/4)),
    "ktealpha": lambda a, s: tp.map_kosloff_tal_ezer(pts(1)[0], alpha=odd(s, a[0]/4)),
    "sausage": lambda a, s: tp.map_sausage(pts(1)[0], a[0]),
    "striprho": lambda a, s: tp.map_strip(pts(1)[0], rho=odd(s, a[0]/4)),
    "stripnode": lambda a, s: tp.map_strip(np.array([0.0, a[0]/4, 0.5]), rho=1.4),
    "transplant": transplant,
    "exactto": lambda a, s: quad(s).exact_to,
    "wab": lambda a, s: mp.warp_and_blend_nodes(*a),
    "tuples": tuples,
    "tpnodes": tpnodes,
    "equi": lambda a, s: mp.equidistant_nodes(*a),
    "random": lambda a, s: mp.random_nodes_for_shape(mp.Simplex(a[0]), a[1]),
    "faces": lambda a, s: mp.faces_for_shape(sd(s, a[0])),
    "submesh": submesh,
    "verts": lambda a, s: mp.unit_vertices_for_shape(sd(s, a[0])),
    "othershape": othershape,
    "otherspace": lambda a, s: mp.node_tuples_for_space(other(a[0], False)),
    "prismfaces": lambda a, s: mp.faces_for_shape(mp.TensorProductShape(tuple(mp.Simplex(d) for d in a))),
    "facemap": facemap,
    "shapeof": lambda a, s: mp.TensorProductShape(tuple(mp.Simplex(d) for d in a)),
    "orderS": lambda a, s: mp.space_for_shape(mp.Simplex(a[0]), order(s, a[0])),
    "orderH": lambda a, s: mp.space_for_shape(mp.Hypercube(a[0]), tuple(range(1, 1 + a[1]))),
    "spaceorder": spaceorder,
    "mat": mat, "monomass": monomass, "weight": weight,
    "specdiag": lambda a, s: mp.spectral_diag_nodal_mass_matrix(quad(s)),
    "construct": construct,
    "reshape": reshape, "unreshape": unreshape, "lebesgue": lebesgue, "decay": decay, "degvec": degvec,
    "rows": rowsfn,
    "affine": lambda a, s: mt.AffineMap(np.eye(a[0]) + 0.25, np.arange(a[0])*1.0)(pts(a[1])),
}
# }}}


def run(job):
    if job["kind"] == "pairs":
        return pairs(job)
    if job["kind"] == "facepairs":
        return facepairs(job)
    cls, v, exc = call(lambda: P[job["c"]](job["a"], job["s"]))
    return [{"id": f"{job['c']}.{job['s']}.{'_'.join(map(str, job['a']))}", "kind": "param", "cls": cls, "exc": exc, "job": job}]


if __name__ == "__main__":
    main(run, chunk=8)
