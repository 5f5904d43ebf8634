"""Construct the quadrature rule a job names (see spec/Quad.tla)."""
import numpy as np
import modepy as mp
from modepy.quadrature import isinf
from modepy.quadrature.jacobi_gauss import JacobiGaussLobattoQuadrature, LegendreGaussLobattoQuadrature

INF = 1000000


def num(a, b, N):
    """a/b; integers as int for every other order"""
    return a // b if a % b == 0 and N % 2 else a / b


def make(j, fda=True):
    f, d, N, p = j["fam"], j["d"], j["N"], j["par"]
    # documented defaults are left out
    kw = {"force_dim_axis": True} if fda else {}
    kd = {} if p == [1] else {"kind": p[0] if p else 0}
    if f in ("jg", "jgs"):
        return mp.JacobiGaussQuadrature(num(p[0], p[2], N), num(p[1], p[2], N), N, backend="scipy" if f == "jgs" else None, **kw)
    if f in ("lg", "lgs"):
        cls = mp.GaussLegendreQuadrature if N % 7 == 3 else mp.LegendreGaussQuadrature   # alias
        return cls(N, backend="scipy" if f == "lgs" else None, **kw)
    if f in ("cheb", "chebs"):
        return mp.ChebyshevGaussQuadrature(N, **kd, backend="scipy" if f == "chebs" else None, **kw)
    if f in ("geg", "gegs"):
        return mp.GaussGegenbauerQuadrature(num(p[0], p[1], N), N, backend="scipy" if f == "gegs" else None, **kw)
    if f == "jgl":
        return JacobiGaussLobattoQuadrature(num(p[0], p[2], N), num(p[1], p[2], N), N, **kw)
    if f == "lgl":
        return LegendreGaussLobattoQuadrature(N, **kw)
    if f == "cc":
        return mp.ClenshawCurtisQuadrature(N, **kw)
    if f == "fejer":
        return mp.FejerQuadrature(N, **kd, **kw)
    if f in ("kron", "krong"):
        from modepy.quadrature.kronrod import make_kronrod_quadrature
        q = make_kronrod_quadrature(N)
        return q if f == "kron" else q.gauss_quadrature
    if f == "xg":
        return mp.XiaoGimbutasSimplexQuadrature(N, d)
    if f == "vr":
        return mp.VioreanuRokhlinSimplexQuadrature(N, d)
    if f == "js":
        return mp.JaskowiecSukumarQuadrature(N, d)
    if f == "wv":
        return mp.WitherdenVincentQuadrature(N, d)
    if f == "gm":
        return mp.GrundmannMoellerSimplexQuadrature(N, d)
    if f == "zero":
        return mp.ZeroDimensionalQuadrature()
    if f == "lgtp":
        return mp.LegendreGaussTensorProductQuadrature(N, d)
    if f == "lgltp":
        return mp.quadrature.LegendreGaussLobattoTensorProductQuadrature(N, d)
    if f == "prod":
        qs = [make(x) for x in p]   # any iterable
        return mp.TensorProductQuadrature((q for q in qs) if len(qs) % 2 else qs)
    if f == "tr":
        return mp.quadrature.Transformed1DQuadrature(make(p[2]), p[0]/8, p[1]/8)
    raise ValueError(f)


def dims(j):
    """dimensions of the simplex factors of the domain"""
    f, d = j["fam"], j["d"]
    if f in ("xg", "vr", "js", "gm"):
        return [d] if d else []
    if f in ("wv", "lgtp", "lgltp"):
        return [1] * d
    if f == "zero":
        return []
    if f == "prod":
        return sum([dims(x) for x in j["par"]], [])
    return [1]


def weight(j):
    f, p = j["fam"], j["par"]
    if f in ("jg", "jgs", "jgl"):
        return list(p)
    if f in ("cheb", "chebs"):
        return [-1, -1, 2] if p[0] == 1 else [1, 1, 2]
    if f in ("geg", "gegs"):
        return [p[0], p[0], p[1]]
    return None


def exact_to(q):
    try:
        e = q.exact_to
    except AttributeError:
        return -1
    return INF if isinf(e) else int(e)


def jid(j):
    p = j["par"]
    ps = ".".join(jid(x) if isinstance(x, dict) else str(x) for x in p)
    return f"{j['fam']}-d{j['d']}-N{j['N']}" + (f"({ps})" if ps else "")
