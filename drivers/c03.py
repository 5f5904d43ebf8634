import operator
import zlib
from drv import *
import qrules
import modepy as mp
from modepy.quadrature import Quadrature, TensorProductQuadrature, Transformed1DQuadrature, inf, isinf

ONED = ("jg", "jgs", "lg", "lgs", "cheb", "chebs", "geg", "gegs", "jgl", "lgl", "cc", "fejer")


def witnesses(j, x):
    d = x.shape[0]
    first = -x[0] if j["fam"] == "wv" else 1 - (x + 1).sum(axis=0)
    ims = [np.vstack([first, x[1:]])]
    for k in range(d - 1):
        p = list(range(d))
        p[k], p[k+1] = k + 1, k
        ims.append(x[p])
    return [np.abs(im[:, :, None] - x[:, None, :]).max(axis=0).argmin(axis=1).tolist() for im in ims]


def rule(j, e):
    cls, q, exc = call(qrules.make, j)
    e["cls"] = cls
    if cls != "ok":
        return e | {"exc": exc}
    x, w = np.asarray(q.nodes), np.asarray(q.weights)
    dims = qrules.dims(j)
    if x.ndim == 1 and dims == [1]:
        x = x.reshape(1, -1)
    if j["fam"] == "kron":
        x = np.concatenate([x, np.asarray(q.gauss_quadrature.nodes).reshape(1, -1)], axis=1)
        w = np.concatenate([w, q.weights_at_gauss_nodes])
    ok = x.ndim == 2 and w.ndim == 1 and x.shape == (sum(dims), len(w)) and isreal(x) and isreal(w)
    fin = bool(ok and finite(x, w))
    wt = qrules.weight(j)
    if fin and j["fam"] == "tr":
        l, r = j["par"][0]/8, j["par"][1]/8
        x, w = (x - l) / (r - l) * 2 - 1, w / (r - l) * 2
    forms = True
    if j["fam"] in ONED:
        q1 = qrules.make(j, fda=False)
        forms = (q.nodes.shape == (1, len(w)) and q1.nodes.shape == (len(w),) and q1.dim == 1
                 and np.array_equal(q1.nodes, q.nodes[0]) and np.array_equal(q.weights, q1.weights))
    return e | {"shapeok": bool(ok), "finite": fin, "dims": dims, "forms": bool(forms),
                "dim": 1 if j["fam"] == "kron" else int(q.dim),
                "dom": "jacobi" if wt else "product", "wt": wt or [0, 0, 1],
                "wit": witnesses(j, x) if fin and len(x) and j["fam"] not in ("xg", "gm", "prod", "tr", "lgtp", "lgltp") else [],
                "X": rows(x) if fin else [], "w": fx(w) if fin else ""}


def build(t):
    if t[0] == "b":
        r = t[1]
        key = str(r)
        if key in build.shared:     # the same object in several places
            return build.shared[key]
        x = np.array(r["x"], dtype=float).reshape(len(r["w"]), r["d"]).T.copy()
        if r["d"] == 1 and len(r["w"]) % 2:
            x = x[0]
        q = Quadrature(x, np.array(r["w"], dtype=float),
                       exact_to=None if r["ex"] == -1 else inf if r["ex"] == qrules.INF else r["ex"])
        if build.share:
            build.shared[key] = q
        return q
    kids = [build(s) for s in t[1]]
    q = TensorProductQuadrature(kids)
    build.ok = build.ok and len(q.quadratures) == len(kids) and all(a is b for a, b in zip(q.quadratures, kids))
    return q


def ints(a):
    return [[int(v) for v in r] for r in a]


def comp(t, e):
    build.ok, build.shared, build.share = True, {}, zlib.crc32(str(t).encode()) % 2 == 0
    cls, q, exc = call(build, t)
    e["cls"] = cls
    if cls != "ok":
        return e | {"exc": exc}
    return e | {"dim": int(q.dim), "x": ints(q.nodes.T) if q.nodes.ndim == 2 else [],
                "w": [int(v) for v in q.weights],
                "ex": qrules.exact_to(q), "quads": bool(build.ok)}


def evaluate(j, c, e):
    salt, lead, dt = c
    fda = not (j["fam"] in ONED and salt % 2)
    q = qrules.make(j, fda=fda)
    n = len(q.weights)
    rng = np.random.RandomState(salt + 100*n + SEED)
    v = rng.randint(-2000, 2000, size=(*lead, n)) / 16
    if dt == "complex":
        v = v + 1j * rng.randint(-2000, 2000, size=(*lead, n)) / 16
    elif dt == "int":
        v = np.round(v).astype(int)
    elif dt == "float32":
        v = v.astype(np.float32)
    got = []

    def f(x):
        got.append(np.array(x))
        return v.copy()
    cls, r, exc = call(q, f)
    e["cls"] = cls
    if cls != "ok":
        return e | {"exc": exc}
    r = np.asarray(r)
    ok = r.shape == tuple(lead) and finite(r) and (dt == "complex" or r.dtype.kind == "f")
    v2 = v.reshape(-1, n)
    rr = r.ravel() if ok else np.zeros(len(v2))
    return e | {"passed": len(got) == 1 and got[0].shape == q.nodes.shape and bool(np.array_equal(got[0], q.nodes)),
                "shapeok": bool(ok), "w": fx(q.weights), "re": rows(v2.real), "im": rows(v2.imag),
                "rre": fx(rr.real), "rim": fx(rr.imag)}


def transformed(j, t, e):
    fda = t[0] % 2 == 0
    b = qrules.make(j, fda=fda)
    den = t[2] if len(t) == 3 else 8
    a, c = (t[0], t[1]) if den == 1 else (t[0]/den, np.float64(t[1]/den))
    cls, q, exc = call(Transformed1DQuadrature, b, a, c)
    e["cls"] = cls
    if cls != "ok":
        return e | {"exc": exc}
    return e | {"x": fx(q.nodes), "w": fx(q.weights), "bx": fx(b.nodes), "bw": fx(b.weights),
                "ex": qrules.exact_to(q), "bex": qrules.exact_to(b),
                "l": fx1(float(a)), "r": fx1(float(c)), "limits": bool(q.left == a and q.right == c),
                "shapeok": q.nodes.shape == b.nodes.shape and q.weights.shape == b.weights.shape}


def infinity(e):
    num = {qrules.INF: inf, **{k: k for k in (-3, 0, 1, 5, 999999)}}
    ops = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq,
           "!=": operator.ne}
    cmp, nm = [], []
    back = lambda v: qrules.INF if v is inf else int(v)    # noqa: E731
    for a, x in num.items():
        cmp.append(["isinf", a, a, str(isinf(x))])
        for b, y in num.items():
            for wrap in (lambda v: v, lambda v: v if v is inf else np.int64(v),
                         lambda v: v if v is inf else float(v)):
                for o, f in ops.items():
                    cmp.append([o, a, b, str(bool(f(wrap(x), wrap(y))))])
            for nme, f in (("min", min), ("max", max)):
                nm.append([nme, a, b, back(f(x, y))])
        if a == qrules.INF:
            nm.append(["+", a, 4, back(inf + 4)])
            nm.append(["+", a, 0, back(inf + 0)])
    return e | {"cls": "ok", "cmp": cmp, "num": nm}


def job(p):
    k, j, x = p["kind"], p["rule"], p["x"]
    jid = qrules.jid(j)
    e = {"kind": k, "job": p}
    if k == "rule":
        return [rule(j, e | {"id": jid})]
    if k == "comp":
        def name(t):
            return f"{t[1]['d']}n{len(t[1]['w'])}e{t[1]['ex']}" if t[0] == "b" else "(" + "*".join(map(name, t[1])) + ")"
        return [comp(x, e | {"id": name(x)})]
    if k == "none":
        cls, q, exc = call(qrules.make, j)
        return [e | {"id": "none-" + jid, "cls": cls, "exc": exc}]
    if k == "call":
        return [evaluate(j, x, e | {"id": f"call-{jid}-{x[1]}-{x[2]}"})]
    if k == "tr":
        return [transformed(j, x, e | {"id": f"tr-{jid}-{'.'.join(map(str, x))}"})]
    return [infinity(e | {"id": "inf"})]


main(job)
