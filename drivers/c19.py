import warnings as wn
from drv import *
import elem, basis
import modepy as mp
import modepy.quadrature.construction as ct
from c12 import nodeset


def cv(a, n=None):
    a = np.asarray(a, dtype=complex)
    return [fx(a.real.ravel()), fx(a.imag.ravel())]


# {{{ linear combinations

LEAVES = [lambda x: x, lambda x: x*x - 0.5, lambda x: np.ones_like(x), lambda x: 1j*x**3, lambda x: np.cos(x), lambda x: (x > 0).astype(int)]


def build(t, real, made):
    if t["leaf"]:
        return LEAVES[t["leaf"] - 1]
    c = np.array([a["re"]/4 + (1j*a["im"]/4 if a["im"] else 0) for a in t["c"]])
    if all(a["im"] == 0 and a["re"] % 4 == 0 for a in t["c"]):
        c = c.astype(int)
    fs = [build(s, real, made) for s in t["t"]]
    r = ct.linearly_combine(c, fs)
    made.append((fs, list(fs)))
    return r


def lin(j):
    x = np.linspace(-1, 1, 9) if j["n"] % 2 else np.linspace(-1, 1, 9).reshape(3, 3)
    made = []
    with wn.catch_warnings():
        wn.simplefilter("ignore")
        f = build(j["tree"], j["s"] == "real", made)
    v = f(x)
    ids = [LEAVES.index(g) + 1 if g in LEAVES else 0 for g in f.functions]
    return {"F": [cv(g(x)) for g in LEAVES], "v": cv(v), "shape": np.shape(v) == x.shape and all(a == b for a, b in made),
            "functions": ids}

# }}}


def rule(el, k0, k1):
    e = dict(el)
    e["fs"] = [[d, k0*n + k1] for d, n in el["fs"]]
    return mp.quadrature_for_space(elem.space(e), elem.shape(e))


def orth(j):
    el = j["el"]
    q = rule(el, 2, 0)
    fs = list(basis.get(j).functions)
    n = len(fs)
    m = np.array(j["coefs"], dtype=float)
    if j["s"] == "complex":
        m = m + 1j*np.flip(m, axis=1)*0.5
        m = m + 3*np.eye(n)
    if j["s"] in ("plain", "monomials"):
        b = fs
    elif j["s"] == "nested":
        b = [ct.linearly_combine(m[i], fs) for i in range(n)]
        b = [ct.linearly_combine(np.array([2.0 if i == k else 0.25 for k in range(n)]), b) for i in range(n)]
    else:
        b = [ct.linearly_combine(m[i], fs) for i in range(n)]
    o = ct.orthogonalize_basis(q, b)
    y = nodeset(el, "B")
    return {"w": fx(q.weights), "q": [cv(f(q.nodes)) for f in o], "b": [cv(f(q.nodes)) for f in b],
            "qy": [cv(f(y)) for f in o], "by": [cv(f(y)) for f in b]}


def vr(j):
    el = j["el"]
    q = rule(el, 2, 1)
    b = list(basis.get(j).functions)
    n = len(b)
    d = q.nodes.shape[0]
    if d == 2:
        f = ct.adapt_2d_integrands_to_complex_arg(b)
        z = q.nodes[0] + 1j*q.nodes[1]
    else:
        f = [lambda x, g=g: g(np.asarray(x)[np.newaxis]) for g in b]
        z = q.nodes[0]
    rng = np.random.RandomState(SEED)
    if j["s"] != "onb":
        m = rng.rand(n, n)
        if j["s"] == "unitary":
            m = m + 1j*rng.rand(n, n)
        u, _ = np.linalg.qr(m)
        f = [ct.linearly_combine(u[i], f) for i in range(n)]
    r = ct.guess_nodes_vioreanu_rokhlin(lambda g: g(z) @ q.weights, f)
    return {"w": fx(q.weights), "X": rows(q.nodes), "z": cv(r)}


def flat(fs):
    return [lambda x, f=f: f(np.asarray(x)[np.newaxis]) for f in fs]


def refs(j):
    return np.array(j["coefs"][0], dtype=float)/8*scales(j)


def scales(j):
    """the factors of badly scaled integrands (powers of two)"""
    if len(j["coefs"]) < 2:
        return np.ones(len(j["coefs"][0]))
    return 2.0**np.array(j["coefs"][1])


def scaled(j, fs):
    return [lambda x, f=f, s=s: s*f(x) for f, s in zip(fs, scales(j))] if len(j["coefs"]) > 1 else fs


def wts(j):
    el = j["el"]
    x = nodeset(el, {"square": "A", "over": "U", "under": "O"}[j["s"]])
    if j["p"] == 2:
        x = 0.9*x - 0.05
    fs = scaled(j, list(basis.get(j).functions))
    xx, ff = x, fs
    if j["p"] == 3 and x.shape[0] == 1:
        xx, ff = x[0], flat(fs)
    with wn.catch_warnings(record=True) as ws:
        wn.simplefilter("always")
        w = ct.find_weights_undetermined_coefficients(ff, xx, refs(j))
    return {"X": rows(x), "w": fx(w), "warned": any("nderdetermined" in str(v.message) for v in ws)}


def resid(j):
    el = j["el"]
    b = basis.get(j)
    fs = scaled(j, list(b.functions))
    rng = np.random.RandomState(SEED + j["n"])
    d = elem.shape(el).dim
    # inside of the element
    x = (1 + rng.uniform(-1, 1, (d, j["n"])))/max([1] + [f[0] for f in el["fs"]]) - 1
    w = rng.uniform(-1, 1, j["n"])
    ders = [scaled(j, list(b.derivatives(k))) for k in range(d)]
    keep = x.copy(), w.copy(), refs(j)
    if d == 1 and j["n"] % 2:
        r = ct.quad_residual_and_jacobian(x[0], w, flat(fs), [flat(z) for z in ders], refs(j))
    else:
        r = ct.quad_residual_and_jacobian(x, w, fs, ders, refs(j))
    return x, w, r


def res(j):
    x, w, r = resid(j)
    v = {"X": rows(x), "w": fx(w), "r": fx(r.residual), "Jw": rows(r.dresid_dweights), "Jx": rows(r.dresid_dnodes)}
    if j["fam"] == "gn":
        dw, dx = ct.quad_gauss_newton_increment(r)
        v |= {"dw": fx(dw), "dx": rows(dx), "shape": list(dx.shape)}
    return v


def iterate(j):
    el = j["el"]
    b = basis.get(j)
    fs = list(b.functions)
    q = rule(el, 1, 0)
    ref = np.array([q(f) for f in fs])
    d = elem.shape(el).dim
    rng = np.random.RandomState(SEED)
    if j["n"]:
        x = mp.LegendreGaussQuadrature(j["n"]-1, force_dim_axis=True).nodes*0.97 + 0.004
    else:
        x = nodeset(el, "B") + 0.03*rng.uniform(-1, 1, nodeset(el, "B").shape)
    w = ct.find_weights_undetermined_coefficients(fs, x, ref)
    w = w*(1 + 0.05*rng.uniform(-1, 1, w.shape))
    ders = [list(b.derivatives(k)) for k in range(d)]
    for _ in range(12):
        r = ct.quad_residual_and_jacobian(x, w, fs, ders, ref)
        dw, dx = ct.quad_gauss_newton_increment(r)
        x, w = x + dx, w + dw
    return {"X": rows(x), "w": fx(w)}


def err(j):
    el = j["el"]
    b = mp.orthonormal_basis_for_space(elem.space(el), elem.shape(el))
    fs = list(b.functions)
    n = len(fs)
    d = elem.shape(el).dim
    x = nodeset(el, "A")
    ders = [list(b.derivatives(k)) for k in range(d)]
    w = np.ones(x.shape[1])
    s = j["s"]
    if s == "refs-":
        ct.find_weights_undetermined_coefficients(fs, x, np.ones(n-1))
    elif s == "refs+":
        ct.find_weights_undetermined_coefficients(fs, x, np.ones(n+1))
    elif s == "axes-":
        ct.quad_residual_and_jacobian(x, w, fs, ders[:-1], np.ones(n))
    elif s == "axes+":
        ct.quad_residual_and_jacobian(x, w, fs, [*ders, ders[0]], np.ones(n))
    elif s == "derivs":
        ct.quad_residual_and_jacobian(x, w, fs, [*ders[:-1], ders[-1][:-1]], np.ones(n))
    elif s == "coefs":
        ct.LinearCombinationIntegrand(np.ones(n+1), fs)
    elif s == "dependent":
        z = ct.LinearCombinationIntegrand(np.array([0.0]), [fs[0]])
        ct.orthogonalize_basis(rule(el, 2, 0), [z, *fs])


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], elem.eid(j["el"]), j["kind"], j["s"], j["n"], j["p"]))), "kind": j["fam"], "job": j}
    fam = {"lin": lin, "orth": orth, "vr": vr, "wts": wts, "res": res, "gn": res, "iter": iterate, "err": err}
    cls, v, exc = call(fam[j["fam"]], j)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | (v or {}) | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
