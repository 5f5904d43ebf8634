import random
from drv import *
import elem
import modepy as mp


class Scripted(np.random.Generator):
    """a generator whose uniform numbers follow a script of points inside and
    outside of the simplices"""

    def __init__(self, bits, dims):
        super().__init__(np.random.PCG64(SEED))
        self.bits, self.k, self.accepted, self.m = bits, 0, {}, np.random.RandomState(SEED + 7)

    def point(self, d):
        bit = self.bits[self.k % len(self.bits)]
        self.k += 1
        b = self.m.uniform(0.05, 1, d + 1)
        b /= b.sum()
        x = 2*b[1:] - 1
        if not bit and d > 1:
            x = -x + 0.01          # on the other side of the slanted face
            x = np.clip(x, -1, 1)
            if x.sum() < 2 - d:
                x = np.ones(d)*0.9
        else:
            self.accepted.setdefault(d, []).append(x)
        return x

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None or low != -1 or high != 1:
            return super().uniform(low, high, size)
        if isinstance(size, (int, np.integer)):
            return self.point(int(size))
        d, m = size
        return np.array([self.point(d) for _ in range(m)]).reshape(m, d).T.copy()


def random_nodes(j, e):
    sh, n = elem.shape(j["el"]), j["n"]
    dims = [f[0] for f in j["el"]["fs"]]
    d = sum(dims)
    drawn = True
    np.random.seed(5)
    before = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    orig, used = np.random.default_rng, []
    np.random.default_rng = lambda *a: (used.append(1), orig(*a))[1]
    try:
        if j["fam"] == "stream":
            g = Scripted(j["stream"], dims)
            x = mp.random_nodes_for_shape(sh, n, rng=g)
            y = mp.random_nodes_for_shape(sh, n, rng=Scripted(j["stream"], dims))
            s = 0
            for k in dims:
                if k and g.k and x.shape == (d, n):
                    acc = np.array(g.accepted.get(k, np.zeros((0, k))))
                    drawn = drawn and len(acc) >= n and all(
                        np.abs(acc - x[s:s+k, i]).max(axis=1).min() < 1e-12 for i in range(n))
                s += k
        else:
            gens = [np.random.PCG64, np.random.MT19937, np.random.Philox, np.random.SFC64]
            bg = gens[n % 4]
            x = mp.random_nodes_for_shape(sh, n, rng=np.random.Generator(bg(SEED)))
            y = mp.random_nodes_for_shape(sh, n, rng=np.random.Generator(bg(SEED)))
        pure = not used
        z = mp.random_nodes_for_shape(sh, n)
    finally:
        np.random.default_rng = orig
    st = np.random.get_state()
    pure = pure and (st[1].tobytes(), st[2]) == before
    ok = x.shape == (d, n) and z.shape == (d, n)
    xz = np.concatenate([x, z], axis=1) if ok else x
    fin = finite(xz)
    distinct = bool(len(np.unique(xz)) == xz.size)
    if n > 1000 and ok and fin:       # the outermost ones
        keep, s = set(range(0, 2*n, n//10)), 0
        for k in dims:
            for row in [*xz[s:s+k], *([xz[s:s+k].sum(axis=0)] if k else [])]:
                o = np.argsort(row)
                keep |= {int(i) for i in (*o[:3], *o[-3:])}
            s += k
        xz = xz[:, sorted(keep)]
    return e | {"shapeok": ok, "finite": fin, "X": rows(xz) if fin and ok else [], "pure": bool(pure),
                "repro": bool(np.array_equal(x, y)) and x.flags.writeable,
                "distinct": distinct, "drawn": bool(drawn)}


def lob1(n, gauss):
    if gauss:
        return fx(np.sort(np.ravel(mp.legendre_gauss_tensor_product_nodes(1, n))))
    return fx(np.ravel(mp.edge_clustered_nodes_for_space(mp.PN(1, n), mp.Simplex(1))))


def nodes(j, e):
    el, fam = j["el"], j["fam"]
    fs = el["fs"]
    d = sum(f[0] for f in fs)
    sp, sh = elem.space(el), elem.shape(el)
    std = [tuple(map(int, t)) for t in mp.node_tuples_for_space(sp)]
    tt = list(std)
    if j["listing"] == 1:
        tt.reverse()
    elif j["listing"] > 1:
        random.Random(SEED*100 + j["listing"]).shuffle(tt)
    arg = tt if j["listing"] else None
    N = fs[0][1] if fs else 0
    x = {"equi": lambda: mp.equispaced_nodes_for_space(sp, sh),
         "clus": lambda: mp.edge_clustered_nodes_for_space(sp, sh),
         "equidist": lambda: mp.equidistant_nodes(d, N, arg),
         "wb": lambda: mp.warp_and_blend_nodes(d, N, arg),
         "lgt": lambda: mp.legendre_gauss_tensor_product_nodes(d, N),
         "lglt": lambda: mp.legendre_gauss_lobatto_tensor_product_nodes(d, N)}[fam]()
    x = np.asarray(x)
    n = sp.space_dim
    pos = {t: i for i, t in enumerate(std)}
    ok = x.shape == (d, n) and isreal(x) and x.dtype == np.float64
    fin = ok and finite(x)
    uni = bool(fin and j["uni"] and all(f[0] <= 3 for f in fs) and d > 0)
    W = []
    if uni:
        W = rows(np.linalg.inv(mp.vandermonde(mp.orthonormal_basis_for_space(sp, sh).functions, x)))
    need = {f[1] for f in fs}
    return e | {"shapeok": bool(ok), "finite": bool(fin), "X": rows(x) if fin else [],
                "perm": [pos[t] for t in tt], "uni": uni, "W": W,
                "lob": [lob1(k, fam == "lgt") if k in need and (k > 0 or fam == "lgt") else "" for k in range(max(need, default=0) + 1)]}


def product(j, e):
    sets, same = j["sets"], j["fam"] == "tpi"

    def val(k, l, i, t):
        v = 8*((7*k + 3*l + 5*i) % 17 - 8) + ((k + 2*l + 3*i) % 8 if t[0] == "f" else 0)
        return v/8 if t[0] == "f" else v//8
    arrs = []
    for k, (d, n, t, flat) in enumerate(sets, 1):
        a = np.array([[val(1 if same else k, l, i, t) for i in range(1, n+1)] for l in range(1, d+1)], dtype=t).reshape(d, n)
        arrs.append(a[0] if flat else a)
    orig = [a.copy() for a in arrs]
    if same and not arrs:
        x = mp.tensor_product_nodes(0, np.array([0.5]))
    elif same:
        x = mp.tensor_product_nodes(len(arrs), arrs[0])
    else:
        x = mp.tensor_product_nodes(arrs)
    x = np.asarray(x)
    pure = all(np.array_equal(a, b) for a, b in zip(orig, arrs)) and not any(np.shares_memory(x, a) for a in arrs)
    return e | {"X": [[int(t) if t == int(t) else 2**30 for t in np.asarray(r, dtype=float)*8] for r in x] if finite(x) else [],
                "shape": list(x.shape), "pure": bool(pure)}


def job(j):
    e = {"id": f"{j['fam']}-{elem.eid(j['el'])}-l{j['listing']}-n{j['n']}-{''.join(map(str, j['stream']))}",
         "kind": j["fam"], "job": j}
    if "sets" in j:
        e["id"] += "-" + "x".join(f"{d}.{n}{t}" for d, n, t, f in j["sets"])
    cls, v, exc = call(product if "sets" in j else random_nodes if j["fam"] in ("random", "stream") else nodes, j, e)
    return [(v if cls == "ok" else e | {"exc": exc, "msg": v}) | {"cls": cls}]


main(job)
