from drv import *
import elem, basis
import modepy as mp


def bigger(el, k):
    el = dict(el)
    el["fs"] = [[d, max(0, n + k)] for d, n in el["fs"]]
    return el


def nodeset(el, s):
    sh = elem.shape(el)
    if s == "A":
        return np.asarray(mp.edge_clustered_nodes_for_space(elem.space(el), sh))
    if s == "B":
        return 0.9*np.asarray(mp.equispaced_nodes_for_space(elem.space(el), sh)) - 0.05
    if s == "O":        # more nodes than functions
        return np.asarray(mp.edge_clustered_nodes_for_space(elem.space(bigger(el, 1)), sh))
    if s == "U":        # fewer
        x = nodeset(el, "A")
        m = x.shape[1]
        return x[:, :: 2].copy() if m > 1 else x
    if s == "I":        # the vertices, as integers
        v = mp.unit_vertices_for_shape(sh)
        assert np.all(v == np.round(v))
        return v.astype(int)
    if s == "F":        # other memory layouts
        return np.asfortranarray(nodeset(el, "A"))
    if s == "S":
        x = np.full((elem.shape(el).dim + 1, 3*nodeset(el, "B").shape[1]), 7.0)
        x[1:, ::3] = nodeset(el, "B")
        return x[1:, ::3]
    if s == "N":        # one node, no nodes
        return nodeset(el, "B")[:, :1]
    if s == "E":
        return nodeset(el, "B")[:, :0]
    if s == "T":        # a lot of nodes
        return tiled(nodeset(el, "B"), 4097 if len(el["fs"]) % 2 else 1025)
    raise ValueError(s)


def mats(ms):
    return [rows(m) for m in ms]


class Scaled:
    """the functions of a basis times powers of two"""

    def __init__(self, b, s):
        self.b, self.s = b, s
        self.functions = tuple(lambda x, h=h, c=c: c*h(x) for h, c in zip(b.functions, s))
        self.gradients = tuple(lambda x, h=h, c=c: tuple(c*y for y in tup(h(x))) for h, c in zip(b.gradients, s))

    def derivatives(self, k):
        return tuple(lambda x, h=h, c=c: c*h(x) for h, c in zip(self.b.derivatives(k), self.s))


def tup(v):
    return v if isinstance(v, tuple) else (v,)


def mat(j, e):
    el = j["el"]
    b = basis.get(j)
    if j["scl"]:
        s = 2.0**np.array(j["scl"])
        b = Scaled(b, s)
    else:
        s = np.ones(len(b.functions))
    f, g = b.functions, b.gradients
    xf = nodeset(el, j["from"])
    xt = xf if j["to"] == j["from"] else nodeset(el, j["to"])    # the same object
    n, nf, nt = len(f), xf.shape[1], xt.shape[1]
    d = xf.shape[0]
    r = {"nf": nf, "nt": nt, "Xf": rows(xf), "Xt": [] if j["to"] == "T" else rows(xt)}
    Vf, Vt = mp.vandermonde(f, xf), mp.vandermonde(f, xt)
    G = mp.multi_vandermonde(g, xt)
    istup = isinstance(G, tuple)
    GD = [mp.vandermonde(b.derivatives(k), xt) for k in range(d)]
    # functions that occur more than once
    dup = [*range(n), *range(0, n, 2)][::-1] if n <= 16 and nt <= 32 else []
    VD = mp.vandermonde([f[i] for i in dup], xt) if dup else np.zeros((0, 0))
    GDup = mp.multi_vandermonde([g[i] for i in dup], xt) if dup else ()
    R = mp.resampling_matrix(f, xt, xf, least_squares_ok=nf != n)
    D, DB, DS = [], [], []
    if nf == n:
        D = mp.differentiation_matrices(f, g, xt, from_nodes=xf)
        DB = mp.diff_matrices(b, xt, xf) if not j["scl"] else D
        DS = mp.differentiation_matrices(f, g, xf)
        assert all(isinstance(z, tuple) for z in (D, DB, DS))
    Q = np.zeros((0, nf))
    if nf > n:
        q, _ = np.linalg.qr(Vf, mode="complete")
        Q = q[:, n:].T
    if j["to"] == "T":
        m = nodeset(el, "B").shape[1]
        Vt, R, G, GD, D, DB = *(picked(z, m, nt, 0) for z in (Vt, R)), *([picked(y, m, nt, 0) for y in z] for z in (G, GD, D, DB))
        if j["scl"]:
            DB = D
        xt, r["Xt"], r["nt"] = xt[:, :m], rows(xt[:, :m]), m
    r["finite"] = finite(Vf, Vt, *G, *GD, R, *D, *DB, *DS) and istup
    Vf, Vt, G, GD = Vf/s, Vt/s, [z/s for z in G], [z/s for z in GD]
    if dup:
        VD, GDup = VD/s[dup], [z/s[dup] for z in GDup]
    r |= {"dup": [i + 1 for i in dup], "VD": rows(VD), "GDup": mats(GDup)}
    r |= {"Vf": rows(Vf), "Vt": rows(Vt), "R": rows(R), "Q": rows(Q), "G": mats(G), "GD": mats(GD),
          "D": mats(D), "DB": mats(DB), "DS": mats(DS)} if r["finite"] else {}
    return [e | r]


def perm(j, e):
    el = j["el"]
    b = basis.get(j)
    tt = mp.node_tuples_for_space(elem.space(el))
    x = nodeset(el, j["from"])
    d = x.shape[0]
    perms = []
    for k in range(d):
        cls, p, exc = call(mp.diff_matrix_permutation, tt, k)
        perms.append([int(i) for i in p] if cls == "ok" else [])
    square = j["from"] == "A"
    D = mp.diff_matrices(b, x) if square else []
    return [e | {"tuples": [list(map(int, t)) for t in tt], "perms": perms, "D": mats(D), "square": square}]


def err(j, e):
    el = j["el"]
    b = basis.get(j)
    f, g = b.functions, b.gradients
    O, A = nodeset(el, "O"), nodeset(el, "A")
    w = j["to"]
    if w == "R":
        mp.resampling_matrix(f, A, O)
    elif w == "D":
        mp.differentiation_matrices(f, g, A, from_nodes=O)
    elif w == "multi0":
        mp.multi_vandermonde([], A)
    elif w == "van0":
        v = mp.vandermonde([], A)
        return [e | {"good": v.shape == (A.shape[1], 0)}]
    elif w == "permbad":
        mp.diff_matrix_permutation([(0, 0), (1, 0)], 1)
    elif w == "mixed":
        fs = [lambda x: np.ones(x.shape[1], dtype=np.int64), lambda x: x[0]/3, lambda x: x[0] + 1j*x[-1]]
        v = mp.vandermonde(fs, O)
        good = v.shape == (O.shape[1], 3) and all(np.array_equal(v[:, i], fs[i](O)) for i in range(3))
        return [e | {"good": bool(good)}]
    elif w == "mixedgrad":
        gs = [lambda x: tuple(np.zeros(x.shape[1], dtype=np.int64) for _ in x), lambda x: tuple(c/3 for c in x)]
        v = mp.multi_vandermonde(gs, O)
        good = len(v) == O.shape[0] and all(np.array_equal(v[k][:, i], gs[i](O)[k]) for i in range(2) for k in range(len(v)))
        return [e | {"good": bool(good)}]
    return [e]


def hist(j, e):
    el = j["el"]
    b = basis.get(j)
    f, g = b.functions, b.gradients
    n = len(f)
    tt = mp.node_tuples_for_space(elem.space(el))
    X = {s: nodeset(el, s) for s in "ABO"}
    res = []
    for i, h in enumerate(j["hists"]):
        u = sum(c[0]/c[1]*np.prod([X[j["from"]][k]**t[k] for k in range(len(t))], axis=0)
                for c, t in zip(j["coefs"], tt))
        s = j["from"]
        for l, t in h:
            if l == 0:
                u = mp.resampling_matrix(f, X[t], X[s], least_squares_ok=X[s].shape[1] != n) @ u
            else:
                u = mp.differentiation_matrices(f, g, X[t], from_nodes=X[s])[l - 1] @ u
            s = t
        res.append(e | {"id": e["id"] + f"-{i}-{len(h)}", "hist": h, "X": rows(X[s]), "u": fx(u), "n": X[s].shape[1],
                        "job": {k: v for k, v in j.items() if k != "hists"}})
    return res


def job(j):
    e = {"id": f"{j['fam']}-{elem.eid(j['el'])}-{j['kind']}-{j['from']}-{j['to']}{'-scaled' + str(j['scl'][0]) + ',' + str(j['scl'][-1]) if j['scl'] else ''}", "kind": j["fam"], "job": j}
    cls, v, exc = call({"mat": mat, "perm": perm, "err": err, "hist": hist}[j["fam"]], j, e)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [x | {"cls": "ok", "exc": []} for x in v]


if __name__ == "__main__":
    main(job)
