from drv import *
import modepy as mp
import qrules
from modepy.quadrature.kronrod import kronrod, gauss, make_kronrod_quadrature


def pair(j):
    r = kronrod(j["n"])
    first = [np.array(a) for a in r]
    for a in r:                    # a caller scribbling over what it was given
        try:
            a[...] = 7
        except ValueError:
            pass
    again = all(np.array_equal(a, b) for a, b in zip(first, kronrod(j["n"])))
    return {"x": fx(first[0]), "w": fx(first[1]), "gw": fx(first[2]), "again": again}


def gss(j):
    x, w = gauss(j["n"])
    return {"x": fx(x), "w": fx(w)}


def srt(x, *ws):
    x = np.asarray(x).reshape(-1)
    p = np.argsort(x, kind="stable")
    return [fx(x[p])] + [fx(np.asarray(w)[p]) for w in ws]


def quad(j):
    q = make_kronrod_quadrature(j["n"])
    g = q.gauss_quadrature
    gx, gw, wg = srt(g.nodes, g.weights, q.weights_at_gauss_nodes)
    x, w = srt(q.nodes, q.weights)
    return {"x": x, "w": w, "gx": gx, "gw": gw, "wg": wg, "exact_to": q.exact_to,
            "gexact_to": g.exact_to, "dim": q.dim, "gdim": g.dim}


def rule(j):
    r, n = j["rule"], j["n"]
    if r == "kron":
        return make_kronrod_quadrature(n)
    if r == "gauss":
        return make_kronrod_quadrature(n).gauss_quadrature
    if r == "lg":
        return mp.LegendreGaussQuadrature(n)
    if r == "cc":
        return mp.ClenshawCurtisQuadrature(n)
    if r == "fejer1":
        return mp.FejerQuadrature(n, kind=1)
    if r == "cheb":
        return mp.ChebyshevGaussQuadrature(n)
    if r == "zero":
        return mp.ZeroDimensionalQuadrature()
    if r == "xg2":
        return mp.XiaoGimbutasSimplexQuadrature(n, 2)
    if r == "gm3":
        return mp.GrundmannMoellerSimplexQuadrature(n, 3)
    if r == "lgtp2":
        return mp.LegendreGaussTensorProductQuadrature(n, 2)
    if r == "vr3":
        return mp.VioreanuRokhlinSimplexQuadrature(n, 3)
    if r == "wv2":
        return mp.WitherdenVincentQuadrature(n, 2)
    raise ValueError(r)


def integral(j):
    q = rule(j)
    calls = []

    def f(x):
        x = np.asarray(x)
        t = x if x.ndim == 1 else (x[0] if x.shape[0] else np.zeros(x.shape[1]))
        cs = [np.polynomial.polynomial.polyval(t, np.array(c, dtype=float)) for c in j["coefs"]]
        v = np.array(cs).reshape(*j["shp"], t.size)
        if j["typ"] == "complex":
            v = v + 1j*np.flip(v, axis=-1)
        if j["typ"] == "int":
            v = np.round(v).astype(np.int64)
        calls.append(v)
        return v
    res = np.asarray(q(f))
    if j["rule"] == "kron":
        x = np.concatenate([q.gauss_quadrature.nodes, q.nodes])
        w = np.concatenate([q.weights_at_gauss_nodes, q.weights])
        calls.clear()
        a, b = f(q.gauss_quadrature.nodes), f(q.nodes)
        F = np.concatenate([a, b], axis=-1)
    else:
        w = q.weights
        calls.clear()
        F = f(q.nodes)
    m = len(j["coefs"])
    F = np.asarray(F).reshape(m, -1)
    return {"w": fx(w), "F": rows(F.real.astype(float)), "G": rows(F.imag.astype(float)), "shape": list(res.shape),
            "re": fx(np.real(res).astype(float)), "im": fx(np.imag(res).astype(float))}


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], j["n"], j["rule"], j["shp"], j["typ"]))).replace(" ", ""), "kind": j["fam"], "job": j}
    cls, v, exc = call({"pair": pair, "gauss": gss, "quad": quad, "int": integral}[j["fam"]], j)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
