from drv import *
import elem
import modepy as mp
import modepy.matrices as mm
from c12 import nodeset, bigger


def onb(el):
    return mp.orthonormal_basis_for_space(elem.space(el), elem.shape(el))


def funs(kind, el):
    sp, sh = elem.space(el), elem.shape(el)
    if kind == "mono":
        return mp.monomial_basis_for_space(sp, sh).functions
    b = mp.orthonormal_basis_for_space(sp, sh)
    if kind == "onb":
        return b.functions
    return b.derivatives(0 if kind == "d1" else sh.dim - 1)


def rule(el, total):
    big = dict(el, fs=[[d, total(n)] for d, n in el["fs"]])
    return mp.quadrature_for_space(elem.space(big), elem.shape(el))


def half(x):
    return x/2 - 0.1


def rot(x):
    return 0.25*x[::-1] - 0.75      # (inside of every element)


def const(x):
    return np.full(x.shape, -0.75)


MAPS = {"rot": rot, "const": const}


def user(el):
    """a user's rule: vertices, as integers; integer weights of both signs"""
    v = mp.unit_vertices_for_shape(elem.shape(el)).astype(int)
    x = np.concatenate([v[:, ::-1], v[:, :2]], axis=1)
    return mp.Quadrature(x, np.array([(3*i) % 7 - 2 for i in range(x.shape[1])]))


def interp(j, el):
    return funs("mono", el) if j["var"] == "mono" else onb(el).functions


def mass(j, e):
    el = j["el"]
    b = onb(el)
    x = nodeset(el, j["oset"])
    M, W = mp.mass_matrix(b, x), mp.inverse_mass_matrix(b, x)
    MD, WD = mp.mass_matrix(b.functions, x), mp.inverse_mass_matrix(b.functions, x)
    return {"finite": finite(M, W, MD, WD), "X": rows(x), "M": rows(M), "W": rows(W), "MD": rows(MD), "WD": rows(WD)}


def bil(j, e):
    el, el2 = j["el"], bigger(j["el"], j["inc"])
    q = user(el) if j["var"] == "user" else rule(el, lambda n: 2*n + j["inc"] + 1)
    f, g = funs(j["test"], el), funs(j["trial"], el2)
    fi, gi = interp(j, el), interp(j, el2)
    if j["inc"] == 0:       # the very same objects, as a user would pass them
        gi = fi
        if j["test"] == j["trial"]:
            g = f
        elif j["test"] == ("mono" if j["var"] == "mono" else "onb"):
            f = fi
        elif j["trial"] == ("mono" if j["var"] == "mono" else "onb"):
            g = gi
    if j["var"] == "list":
        f, g, fi, gi = list(f), list(g), list(fi), list(gi)
    xo, xi = nodeset(el, j["oset"]), nodeset(el2, j["iset"])
    nmap = half if j["fam"] == "bilmap" else MAPS.get(j["var"])
    A = mp.nodal_quadrature_bilinear_form_matrix(q, f, g, fi, gi, xi, xo, nmap)
    A0 = A
    if j["oset"] == j["iset"] and j["inc"] == 0:
        A0 = mp.nodal_quadrature_bilinear_form_matrix(
            quadrature=q, test_functions=f, trial_functions=g, nodal_interp_functions_test=fi,
            nodal_interp_functions_trial=gi, input_nodes=xi, test_function_node_map=nmap)
    return {"finite": finite(A, A0), "A": rows(A), "A0": rows(A0), "Xo": rows(xo), "Xi": rows(xi), "Xq": rows(q.nodes),
            "wq": fx(q.weights), "nq": len(q.weights)}


def test(j, e):
    el = j["el"]
    q = user(el) if j["var"] == "user" else rule(el, lambda n: 2*n + 1)
    f, fi = funs(j["test"], el), interp(j, el)
    if j["var"] == "list":
        f, fi = list(f), list(fi)
    xo = nodeset(el, j["oset"])
    nmap = half if j["fam"] == "testmap" else MAPS.get(j["var"])
    A = mp.nodal_quadrature_test_matrix(q, f, fi, xo, nmap)
    r = {"A": rows(A), "Xo": rows(xo), "Xq": rows(q.nodes), "wq": fx(q.weights), "nq": len(q.weights),
         "self": False, "A0": [], "finite": finite(A), "modal": [], "dep": []}
    if j["fam"] == "test" and not nmap:
        r["modal"] = rows(mm.modal_quad_mass_matrix(q, f))
        if j["test"] == "onb":
            r["dep"] = rows(mp.nodal_quad_mass_matrix(q, f, xo))
            q0 = rule(el, lambda n: max(0, 2*n - 1))
            if q0.nodes.shape[1] == len(f):
                r |= {"self": True, "A0": rows(mp.nodal_quadrature_test_matrix(q0, f, fi)),
                      "dep0": rows(mp.nodal_quad_mass_matrix(q0, f)), "X0": rows(q0.nodes), "w0": fx(q0.weights)}
    return r


def face(j, e):
    el = j["el"]
    fc = mp.faces_for_shape(elem.shape(el))[j["face"]]
    fsp = mp.space_for_shape(fc, el["fs"][0][1] + j["inc"])
    tri = mp.orthonormal_basis_for_space(fsp, fc).functions
    fq = mp.quadrature_for_space(mp.space_for_shape(fc, 2*el["fs"][0][1] + 1 + j["inc"]), fc)
    f, fi = funs(j["test"], el), onb(el).functions
    xo = nodeset(el, j["oset"])
    xi = np.asarray(mp.edge_clustered_nodes_for_space(fsp, fc))
    A = mp.nodal_quadrature_bilinear_form_matrix(fq, f, tri, fi, tri, xi, xo, fc.map_to_volume)
    T = mp.nodal_quadrature_test_matrix(fq, f, fi, xo, fc.map_to_volume)
    modal = mp.modal_mass_matrix_for_face(fc, fq, tri, f)
    mq = mp.modal_quad_mass_matrix_for_face(fc, fq, f)
    nodal = nq_ = np.zeros((0, 0))
    if j["test"] == "onb":
        nodal = mp.nodal_mass_matrix_for_face(fc, fq, tri, f, xo, xi)
        nq_ = mp.nodal_quad_mass_matrix_for_face(fc, fq, f, xo)
    return {"finite": finite(A, T, modal, mq, nodal, nq_), "A": rows(A), "test": rows(T), "modal": rows(modal), "mq": rows(mq),
            "nodal": rows(nodal), "nq_": rows(nq_), "Xo": rows(xo), "Xi": rows(xi), "Xq": rows(fq.nodes),
            "wq": fx(fq.weights), "nq": len(fq.weights), "vidx": [int(i) for i in fc.volume_vertex_indices]}


def spec(j, e):
    fs = j["el"]["fs"]
    if len(fs) == 1:
        q = mp.TensorProductQuadrature([mp.LegendreGaussQuadrature(fs[0][1], force_dim_axis=True)])
    elif len({n for _, n in fs}) == 1:
        q = mp.LegendreGaussTensorProductQuadrature(fs[0][1], len(fs))
    else:
        q = mp.TensorProductQuadrature([mp.LegendreGaussQuadrature(n, force_dim_axis=True) for _, n in fs])
    v = mp.spectral_diag_nodal_mass_matrix(q)
    return {"finite": finite(v), "diag": fx(v), "X": rows(q.nodes)}


def err(j, e):
    el, w = j["el"], j["test"]
    sp, sh = elem.space(el), elem.shape(el)
    mono = mp.monomial_basis_for_space(sp, sh)
    f = onb(el).functions
    A, O = nodeset(el, "A"), nodeset(el, "O")
    q = rule(el, lambda n: 2*n + 2)
    if w == "massmono":
        mp.mass_matrix(mono, A)
    elif w == "imassmono":
        mp.inverse_mass_matrix(mono, A)
    elif w == "masstp":
        o1 = mp.orthonormal_basis_for_space(mp.PN(1, 1), mp.Simplex(1))
        m1 = mp.monomial_basis_for_space(mp.PN(1, 1), mp.Simplex(1))
        mp.mass_matrix(mp.TensorProductBasis((o1, m1), (1, 1)), nodeset({"form": "Q", "fs": [[1, 1], [1, 1]]}, "A"))
    elif w == "test":
        mp.nodal_quadrature_test_matrix(q, f, f, O)
    elif w == "bilin":
        mp.nodal_quadrature_bilinear_form_matrix(q, f, f, f, f, O, A)
    elif w == "bilout":
        mp.nodal_quadrature_bilinear_form_matrix(q, f, f, f, f, A, O)
    elif w == "specnontp":
        mp.spectral_diag_nodal_mass_matrix(mp.LegendreGaussQuadrature(3, force_dim_axis=True))
    elif w == "specnon1d":
        mp.spectral_diag_nodal_mass_matrix(mp.TensorProductQuadrature(
            [mp.XiaoGimbutasSimplexQuadrature(2, 2), mp.LegendreGaussQuadrature(3, force_dim_axis=True)]))
    elif w == "nqm":
        mp.nodal_quad_mass_matrix(q, f, O)
    else:
        fc = mp.faces_for_shape(sh)[0]
        fsp = mp.space_for_shape(fc, 1)
        tri = mp.orthonormal_basis_for_space(fsp, fc).functions
        fq = mp.quadrature_for_space(mp.space_for_shape(fc, 3), fc)
        if w == "nqmf":
            mp.nodal_quad_mass_matrix_for_face(fc, fq, f, O)
        else:
            fn = np.asarray(mp.edge_clustered_nodes_for_space(mp.space_for_shape(fc, 2), fc))
            if fc.dim == 0:
                fn = np.zeros((0, 2))
            mp.nodal_mass_matrix_for_face(fc, fq, tri, f, A, fn)
    return {}


def job(j):
    e = {"id": "-".join(str(x) for x in (j["fam"], elem.eid(j["el"]), j["test"], j["trial"], j["oset"], j["iset"], j["inc"], j["face"], j["var"])),
         "kind": j["fam"], "job": j}
    cls, v, exc = call(globals()[j["fam"].replace("map", "")], j, e)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
