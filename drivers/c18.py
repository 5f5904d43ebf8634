from functools import partial
from drv import *
import modepy as mp
import modepy.quadrature.transplanted as tp
from modepy.quadrature.jacobi_gauss import LegendreGaussLobattoQuadrature


def dy(p):
    return {-1: p[0]*np.inf, -2: np.nan}[p[1]] if p[1] < 0 else p[0]/2**p[1]


def mapfn(m):
    k = m["m"]
    if k == "affine":
        return lambda s: (m["p"][0]/8*s + m["p"][1]/8, m["p"][0]/8)
    if k == "cubic":
        c = m["p"][0]/8
        return lambda s: (s*(c + (1-c)*s**2), c + 3*(1-c)*s**2)
    if k == "identity":
        return tp.map_identity
    if k == "sausage":
        return partial(tp.map_sausage, degree=m["p"][0])
    v = dy(m["p"])
    if k == "strip":
        # (the default)
        return partial(tp.map_strip, rho=v)
    if k == "kte-alpha":
        # rho is documented to be ignored then
        return partial(tp.map_kosloff_tal_ezer, alpha=v, **({"rho": 0.5} if m["p"][0] % 4 == 3 else {}))
    return partial(tp.map_kosloff_tal_ezer, rho=v)


def points(j):
    strip = j["m"]["m"] == "strip"
    p = j["par"]
    a = np.arange(-16, 17)/16
    fine = np.concatenate([[-1+2.0**-k for k in (10, 20, 30)], a[1:-1], [1-2.0**-k for k in (30, 20, 10)], [2.0**-40, -2.0**-30, 1/3, 0.7]])
    if p == "ends" or p == "strided":
        s = np.sort(fine) if strip else np.sort(np.concatenate([[-1.0], fine, [1.0]]))
        if p == "strided":
            b = np.full((2*len(s),), 9.0)
            b[::2] = s
            s = b[::2]
        return s
    if p in ("ints", "int32"):
        return np.array([0] if strip else [-1, 0, 1], dtype=p if p != "ints" else int)
    if p == "zerod":
        return np.array(0.625)
    s = a[1:-1] if strip else a
    if p == "f32":
        return s.astype(np.float32)
    if p == "empty":
        return s[:0]
    if p == "row":
        return s.reshape(1, -1)
    if p == "column":
        return np.asfortranarray(np.stack([s, -s, s*0.5], axis=1))
    if p == "single":
        return s[3:4]
    if p == "reversed":
        return s[::-1]
    return s


def domap(j):
    s = points(j)
    f = mapfn(j["m"])
    ok = []

    def run(s):
        keep = s.copy()
        g, d = f(s)
        g0, d0 = np.array(g), np.array(d)
        ok.append((bool(np.array_equal(s, keep)), g.shape == s.shape and d.shape == s.shape,
                   not (np.shares_memory(g, s) or np.shares_memory(d, s) or (g.size and np.shares_memory(g, d)))))
        return [keep, g0, d0]
    keep, g0, d0 = many(run, s, (4097, 65537, 1025, 10001)) if j["par"] == "many" else run(s)
    arg, shape, fresh = map(all, zip(*ok))
    return {"s": fx(keep), "g": fx(g0), "d": fx(d0), "shape": bool(shape), "arg": bool(arg), "fresh": bool(fresh)}


def base(j):
    b, n, ax = j["base"], j["n"], j["par"] == "axis"
    if b == "lg":
        return mp.LegendreGaussQuadrature(n, force_dim_axis=ax)
    if b == "lgs":
        return mp.LegendreGaussQuadrature(n, backend="scipy", force_dim_axis=ax)
    if b == "fejer1":
        return mp.FejerQuadrature(n+1, kind=1, force_dim_axis=ax)
    if b == "fejer2":
        return mp.FejerQuadrature(n+2, kind=2, force_dim_axis=ax)
    if b == "cc":
        return mp.ClenshawCurtisQuadrature(n+1, force_dim_axis=ax)
    if b == "lgl":
        return LegendreGaussLobattoQuadrature(n+1, force_dim_axis=ax)
    if b == "jg":
        return mp.JacobiGaussQuadrature(0.5, 2, n, force_dim_axis=ax)
    if b == "cheb1":
        return mp.ChebyshevGaussQuadrature(n, kind=1, force_dim_axis=ax)
    if b == "kron":
        from modepy.quadrature.kronrod import make_kronrod_quadrature
        q = make_kronrod_quadrature(n).gauss_quadrature
        return mp.Quadrature(q.nodes[np.newaxis], q.weights, exact_to=q.exact_to) if ax else q
    if b == "trans":
        return tp.transplanted_1d_quadrature(mp.LegendreGaussQuadrature(n, force_dim_axis=ax), partial(tp.map_sausage, degree=3))
    if b == "ints":
        x = np.array([-1, 1] if n == 2 else [-1, 0, 1])
        return mp.Quadrature(x[np.newaxis] if ax else x, np.array([1, 1] if n == 2 else [1, 4, 1]), exact_to=1)
    if b == "2d":
        return mp.LegendreGaussTensorProductQuadrature(n, 2)
    if b == "3d":
        return mp.WitherdenVincentQuadrature(n, 3)
    if b == "simplex":
        return mp.XiaoGimbutasSimplexQuadrature(n, 2)
    if b == "zero":
        return mp.ZeroDimensionalQuadrature()
    raise ValueError(b)


def exact(q):
    try:
        v = q.exact_to
    except AttributeError:
        return -1
    return -1 if v is None else (10**6 if v == float("inf") else int(v))


def rule(j):
    if j["fam"] == "tlg":
        kw = {"backend": "scipy"} if j["base"] else {}
        b = mp.LegendreGaussQuadrature(j["n"], force_dim_axis=j["par"] == "axis", **kw)
        q = mp.transplanted_legendre_gauss_quadrature(j["n"], mapfn(j["m"]), force_dim_axis=j["par"] == "axis", **kw)
        s, w = np.array(b.nodes), np.array(b.weights)
        same = True
    else:
        b = base(j)
        s, w = np.array(b.nodes), np.array(b.weights)
        q = tp.transplanted_1d_quadrature(b, mapfn(j["m"]))
        same = bool(np.array_equal(s, b.nodes) and np.array_equal(w, b.weights))
    return {"s": fx(s), "bw": fx(w), "x": fx(q.nodes), "w": fx(q.weights), "base": same,
            "shape": q.nodes.shape == s.shape and q.weights.shape == w.shape and isinstance(q, mp.Quadrature) and q.dim == 1,
            "exact": exact(q), "bexact": exact(b)}


def bad(j):
    b = base(j)
    q = tp.transplanted_1d_quadrature(b, mapfn(j["m"]))
    return {"shape": list(q.nodes.shape)}


def job(j):
    m = j["m"]
    e = {"id": "-".join(map(str, (j["fam"], m["m"], m["p"][0], m["p"][1], j["base"], j["n"], j["par"]))), "kind": j["fam"], "job": j}
    cls, v, exc = call({"map": domap, "rule": rule, "tlg": rule, "bad": bad}[j["fam"]], j)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
