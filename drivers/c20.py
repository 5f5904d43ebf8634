import zlib
from drv import *
import elem
from elem import eid
import matplotlib
matplotlib.use("Agg")
import modepy as mp
import modepy.tools as mt


def affine(j):
    d, den = j["d"], j["den"]
    A = np.array(j["A"], dtype=float)/den
    b = np.array(j["b"], dtype=float)/den
    if j["s"] in ("list", "tuple"):
        ints = den == 1
        aa = [[int(x) if ints else float(x) for x in r] for r in A]
        bb = [int(x) if ints else float(x) for x in b]
        if j["s"] == "tuple":
            aa, bb = tuple(map(tuple, aa)), tuple(bb)
    elif j["s"] == "float32":
        aa, bb = A.astype(np.float32), b.astype(np.float32)
    elif j["s"] == "fortran":
        aa, bb = np.asfortranarray(A), b[::1].copy()
    else:
        aa, bb = A.copy(), b.copy()
    X = np.array(j["x"], dtype=float).reshape(d, -1)/den
    n = X.shape[1]
    if j["s"] == "intx" or j["s"] == "manyint":
        X = X.astype(np.int64)
    X0 = X.copy()
    f = mt.AffineMap(aa, bb)
    y = f(X)
    if j["fam"] == "singular":
        _, _, iexc = call(lambda: f.inverse)
        return {"y": rows(y), "detzero": bool(f.jacobian == 0), "iexc": iexc}
    g = f.inverse
    iy = g(X)
    det = float(f.jacobian)
    one = np.zeros(X.shape)
    for k in range(n):
        one[:, k] = f(X[:, k])
    ii = g.inverse
    again = (np.array_equal(f(X), y) and float(f.jacobian) == det and np.array_equal(f.inverse.a, g.a)
             and np.array_equal(f.inverse.b, g.b) and np.array_equal(f.inverse(X), iy))
    argsok = bool(np.array_equal(X, X0) and np.array_equal(np.array(aa, dtype=float), A) and np.array_equal(np.array(bb, dtype=float), b))
    back, forth = g(y), f(iy)
    if j["s"] in ("many", "manyint") and n:
        y, iy, back, forth = many(lambda X: [f(X), g(X), g(f(X)), f(g(X))], X, (4097, 1025, 65537, 10001))
    return {"a": rows(f.a), "b": fx(f.b), "y": rows(y), "y1": rows(one), "det": fx1(det), "ia": rows(g.a), "ib": fx(g.b),
            "iy": rows(iy), "back": rows(back), "forth": rows(forth), "iia": rows(ii.a), "iib": fx(ii.b),
            "idet": fx1(float(g.jacobian)), "again": bool(again),
            "args": argsok}


def conv(j):
    d = j["d"]
    X = np.array(j["x"], dtype=float).reshape(d, -1)/16
    n = X.shape[1]
    many = j["s"] == "many" and n > 0
    if many:
        X = tiled(X, 4097 if d % 2 else 1025)
    X0 = X.copy()

    def rws(z):
        return rows(picked(z, n, X.shape[1])) if many else rows(z)
    B = np.vstack([1 - np.sum((X + 1)/2, axis=0), (X + 1)/2])
    B0 = B.copy()
    u2b = mt.unit_to_barycentric(X)
    b2u = mt.barycentric_to_unit(B)
    r = {"bary": rws(u2b), "unit": rws(b2u), "rt": rws(mt.barycentric_to_unit(u2b))}
    if d <= 3:
        ev = mt.EQUILATERAL_VERTICES[d]
        m = mt.EQUILATERAL_TO_UNIT_MAP[d]
        r |= {"equi": rws(mt.barycentric_to_equilateral(B)), "eunit": rws(mt.equilateral_to_unit(X)),
              "ert": rws(mt.equilateral_to_unit(mt.barycentric_to_equilateral(u2b))),
              "everts": rows(ev), "euverts": rows(mt.equilateral_to_unit(ev.T)), "emap": rws(m(X))}
    return r | {"args": bool(np.array_equal(X, X0) and np.array_equal(B, B0))}


def mono(j):
    d, den = j["d"], j["den"]
    c = j["A"][0][0]
    e = tuple(j["e"])
    m = mt.Monomial(list(e) if j["n"] % 2 else e, c if den == 1 else c/den)
    f = m
    for i in j["w"]:
        f = f.diff(i - 1)
    X = np.array(j["x"], dtype=float).reshape(d, 6)/den
    n = 6
    if j["s"] == "vec":
        v = np.array([np.asarray(f(X[:, k])) for k in range(n)], dtype=float)
        shape = v.shape == (n,)
    elif j["s"] == "grid":
        v = np.asarray(f(X.reshape(d, 2, 3)), dtype=float)
        shape = v.shape == (2, 3) or d == 0
    else:
        v = np.asarray(f(X), dtype=float)
        shape = v.shape == (n,) or d == 0
    if d == 0:
        v = np.broadcast_to(v.ravel()[:1], (n,))
        shape = True
    return {"v": fx(v), "shape": bool(shape), "c": fx1(f.factor), "e": [int(x) for x in f.exponents],
            "simplex": fx1(f.simplex_integral()), "cube": fx1(f.hypercube_integral()),
            "same": tuple(m.exponents) == e and m.factor == (c if den == 1 else c/den)}


def nodes(el, s):
    sp, sh = elem.space(el), elem.shape(el)
    n = max([x[1] for x in el["fs"]], default=0)
    x = np.asarray(mp.equispaced_nodes_for_space(sp, sh) if s != "A" or n == 0 or sh.dim > 3
                   else mp.edge_clustered_nodes_for_space(sp, sh), dtype=float)
    if s == "B":
        x = 0.75*x - 0.0625
    if s == "R":
        rng = np.random.default_rng(SEED)
        x = (0.84*x - 0.11 + 0.05*rng.uniform(-1, 1, x.shape)/max(n, 1))[:, rng.permutation(x.shape[1])]
    return x


def order(el):
    return max([x[1] for x in el["fs"]], default=2)


def lebesgue(j):
    el = j["el"]
    sh = elem.shape(el)
    x = nodes(el, j["s"])
    x0 = x.copy()
    if j["w"]:
        import io, contextlib
        from matplotlib import pyplot as plt
        with contextlib.redirect_stdout(io.StringIO()):
            v = mt.estimate_lebesgue_constant(order(el), x, sh, visualize=True)
        plt.close("all")
    else:
        v = mt.estimate_lebesgue_constant(order(el), x, sh)
    return {"x": rows(x) if len(x) else [], "v": fx1(v), "args": bool(np.array_equal(x, x0))}


def leberr(j):
    el = j["el"]
    x = nodes(el, "E")
    x = np.vstack([x, x[:1] if len(x) else np.zeros((1, x.shape[1]))]) if j["s"] == "dim+" else x[:-1]
    if j["s"] == "dim-" and elem.shape(el).dim == 0:
        raise ValueError("nothing to drop")
    return {"v": fx1(mt.estimate_lebesgue_constant(order(el), x, elem.shape(el)))}


def plot(j):
    import matplotlib.tri as tri
    from matplotlib import pyplot as plt
    d, n, r = j["d"], j["n"], j["w"][0]
    x = np.asarray(mp.warp_and_blend_nodes(d, n))
    v = x[0]**n + (x[1]/2 if d == 2 else 0)
    plt.close("all")
    got = {}
    if d == 2:
        from mpl_toolkits.mplot3d import Axes3D
        orig = Axes3D.plot_trisurf

        def rec(self, *args, **kw):
            t = args[0]
            got.update(x=[t.x, t.y], tri=np.asarray(t.triangles).tolist(), v=args[1])
            return orig(self, *args, **kw)
        Axes3D.plot_trisurf = rec
    try:
        mt.plot_element_values(n, x, v, resample_n=r or None, show_nodes=bool(r % 2))
        if d == 1:
            line = plt.gcf().axes[0].lines[0]
            got = {"x": [line.get_xdata()], "v": line.get_ydata(), "tri": []}
    finally:
        if d == 2:
            Axes3D.plot_trisurf = orig
        plt.close("all")
    return {"x": rows(np.array(got["x"])), "v": fx(got["v"]), "tri": got["tri"]}


FAM = {"affine": affine, "singular": affine, "conv": conv, "mono": mono, "lebesgue": lebesgue, "leberr": leberr, "plot": plot}


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], eid(j["el"]), j["d"], j["s"], j["n"], zlib.crc32(json.dumps(j).encode())))), "kind": j["fam"], "job": j}
    cls, v, exc = call(FAM[j["fam"]], j)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
