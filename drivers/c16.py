from drv import *
from modepy.quadrature.kronrod import quadgk


class Oops(Exception):
    pass


# straight contours z = p + q t of the complex plane: f(z(t)) is what is integrated,
# so the integral is q times that over t, its error estimate |q| times
LINES = {"cI": (0j, 1j), "cneg": (0.5 - 1j, -2 + 0j), "cIneg": (1 + 0.25j, -0.5j)}


class TooMany(Exception):
    pass


def lim(p, typ, integral):
    if p[1] == -2:
        return float("nan")
    v = p[0]*np.inf if p[1] == -1 else p[0]/2**p[1]
    if p[1] == -1:
        return {"np64": np.float64, "f32": np.float32}.get(typ, float)(v)
    if typ == "int" and p[1] == 0:
        return int(v)
    if typ == "npint" and p[1] == 0:
        return np.int64(v)
    if typ == "np64":
        return np.float64(v)
    if typ == "f32":
        return np.float32(v)
    return v


def integrand(name, c16):
    c = c16/16
    cnt = [0]

    def late():
        cnt[0] += 1
        return cnt[0] > 40
    with_ = {
        "poly": lambda x: x**c16, "kink": lambda x: abs(x-c), "sqrt": lambda x: np.sqrt(abs(x-c)),
        "step": lambda x: np.where(x > c, 1.0, -0.5)[()], "osc": lambda x: np.sin(c16*x), "cexp": lambda x: np.exp(1j*c16*x),
        "odd": lambda x: np.sign(x)*np.sqrt(abs(x)) + 2.0**-8*np.ones_like(x)[()],
        "steep": lambda x: np.where(x < 0, 1000*np.sqrt(abs(x)), -666.0)[()],
        "peak": lambda x: 1/(1e-2 + (x-c)**2), "zero": lambda x: 0.0*x, "pint": lambda x: 3 if np.ndim(x) == 0 else np.full(np.shape(x), 3),
        "exp": lambda x: np.exp(x), "ckink": lambda x: abs(x-c) + 1j*x**2 - 2j*np.sqrt(abs(x)),
        "gauss": lambda x: np.exp(-x*x), "lorentz": lambda x: 1/(1+x*x), "expabs": lambda x: np.exp(-abs(x)),
        "shift": lambda x: np.exp(-(x-c)**2)*(1+x), "cgauss": lambda x: np.exp(-x*x + 1j*c*x), "alg": lambda x: (1+x)/(1+x*x)**c16,
        "noise": lambda x: np.sin(1e5*(c+x)*(c+x)),
        "nan": lambda x: np.where(x > c, np.nan, 1.0)[()], "nanr": lambda x: np.where(x == 0, np.nan, x)[()], "inff": lambda x: np.where(x > c, np.inf, 1.0)[()],
        "cnan": lambda x: x + 1j*np.where(x > c, np.nan, 1.0)[()], "pole": lambda x: np.divide(1.0, x*x),
        "raise": lambda x: (_ for _ in ()).throw(Oops("no")),
        "later": lambda x: (_ for _ in ()).throw(Oops("no")) if late() else abs(x-0.3),
        "latenan": lambda x: np.nan if late() else abs(x-0.3),
    }
    return with_[name]


def run(j):
    p, q = LINES.get(j["typ"], (0, 1))
    f0 = integrand(j["f"], j["c"])
    xs, vs = [], []

    def f(x):
        if q != 1:
            t = (np.asarray(x) - p)/q
            if np.abs(t.imag).max(initial=0) > 1e-12*(1 + np.abs(t).max(initial=0)):
                raise ValueError("off the contour")
            x = t.real[()]
        with np.errstate(all="ignore"):
            v = f0(x)
        a = np.asarray(x, dtype=float).ravel()
        b = np.asarray(v, dtype=complex).ravel()
        xs.extend(a.tolist())
        vs.extend(b.tolist())
        if len(xs) > 30000:
            raise TooMany("runs away")
        return v
    pts = [lim(p, j["typ"], True) for p in j["pts"]]
    if q != 1:
        pts, real = [complex(p + q*t) for t in pts], pts
    else:
        real = pts
    kw = {}
    if j["n"]:
        kw["order"] = j["n"]
    elif j["fam"] == "bad":
        kw["order"] = 0
    if j["at"]:
        kw["abstol"] = {-1: 0.0, -2: -1.0}.get(j["at"], abs(q)*2.0**-j["at"])
    if j["rt"]:
        kw["reltol"] = 0.0 if j["rt"] == -1 else 2.0**-j["rt"]
    if j["mx"]:
        kw["maxevals"] = j["mx"]
    i, err = quadgk(f, *pts, **kw)
    n = j["n"] or 7
    m = 2*n + 1
    m0 = len(pts) - 1
    xs, vs = np.array(xs), np.array(vs)

    def sort(lo, hi):
        p = np.argsort(xs[lo:hi], kind="stable")
        xs[lo:hi], vs[lo:hi] = xs[lo:hi][p], vs[lo:hi][p]
    mono = all(a <= b for a, b in zip(real, real[1:])) or all(a >= b for a, b in zip(real, real[1:]))
    if mono:
        sort(0, m0*m)
    for k in range(m0*m, len(xs), 2*m):
        sort(k, k+2*m)
    chunks = []
    for k in range(0, len(xs) - m + 1, m):
        sort(k, k+m)
        v = vs[k:k+m]
        chunks.append({"x": fx(xs[k:k+m]), "re": fx(v.real), "im": "" if not v.imag.any() else fx(v.imag)})
    i, err = complex(i)/q, err/abs(q)
    return {"chunks": chunks, "left": len(xs) % m, "re": fx1(i.real), "im": fx1(i.imag), "E": fx1(err), "nseg": len(chunks)}


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], j["f"], j["c"], j["pts"], j["n"], j["at"], j["rt"], j["mx"], j["typ"]))).replace(" ", ""), "kind": j["fam"], "job": j}
    cls, v, exc = call(run, j)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
