from drv import *
import elem
import modepy as mp
from modepy.tools import (reshape_array_for_tensor_product_space as resh,
                          unreshape_array_for_tensor_product_space as unresh)


class Wrap:
    """something that only has a shape and can be reshaped"""

    def __init__(self, a):
        self._a = a

    @property
    def shape(self):
        return self._a.shape

    def reshape(self, shape, *, order="C"):
        return Wrap(self._a.reshape(shape, order=order))


def make(shape, mem, ty):
    """-> array with distinct values and the table value -> tag"""
    n = int(np.prod(shape))
    dt = {"wrap": "float64", "bigint": "int64"}.get(ty, ty)
    tags = np.arange(n)
    if dt == "object":
        vals = np.empty(n, dtype=object)
        vals[:] = [("dof", i) for i in range(n)]
    elif dt == "bool":
        vals = tags % 3 == 0
    elif dt == "complex128":
        vals = tags + 1j*(n - tags)
    elif ty in ("bigint", "longdouble"):   # not double precision numbers
        vals = np.array([2**60 + 1 + int(t) for t in tags], dtype=np.int64).astype(dt)
    else:
        vals = (tags*3 - 7).astype(dt)
    a = vals.reshape(shape)
    if mem == "F":
        a = np.array(a, order="F")
    elif shape == ():
        pass
    elif mem == "strided":
        b = np.zeros([2*s + 1 for s in shape], dtype=a.dtype)[tuple(slice(1, 2*s + 1, 2) for s in shape)]
        b[...] = a
        a = b
    elif mem == "reversed":
        b = np.zeros(shape, dtype=a.dtype)[tuple(slice(None, None, -1) for s in shape)]
        b[...] = a
        a = b
    elif mem == "transposed":
        perm = list(np.random.RandomState(len(shape)).permutation(len(shape)))
        b = np.zeros([shape[p] for p in perm], dtype=a.dtype).transpose(np.argsort(perm))
        assert b.shape == a.shape
        b[...] = a
        a = b
    elif mem == "readonly":
        a = a.copy()
        a.flags.writeable = False
    else:
        a = a.copy()
    return a


def tags_of(x, ty, n, src):
    """tags of the entries of x, in row-major order"""
    x = np.ascontiguousarray(x)
    flat = x.ravel()
    if ty == "object":
        return [t[1] for t in flat]
    if ty == "bool":        # cannot be told apart: compare with the reshaped tags instead
        return None
    if ty == "complex128":
        return [int(v.real) if v.imag == n - v.real else -1 for v in flat]
    if ty in ("bigint", "longdouble"):
        return [int(v) - 2**60 - 1 for v in flat]
    return [int((v + 7)//3) for v in flat]


def tag(j, e):
    el, ty = j["el"], j["type"]
    sp = elem.space(el)
    istp = isinstance(sp, mp.TensorProductSpace)
    shape = tuple(j["before"]) + (sp.space_dim,) + tuple(j["after"])
    a = make(shape, j["mem"], ty)
    n = a.size
    keep = a.copy()
    axis = len(j["before"])
    if j["neg"]:
        axis -= len(shape)
    kw = {} if axis == -1 else {"axis": axis}
    arg = Wrap(a) if ty == "wrap" else a
    r = resh(sp, arg, **kw)
    u = unresh(sp, r, **kw)
    # the other way round
    nk = len(sp.bases) if istp else 1
    rs = tuple(j["before"]) + tuple(b.space_dim for b in sp.bases) + tuple(j["after"]) if istp else shape
    c = make(rs, j["mem"], "float64")
    i1 = unresh(sp, c, **kw)
    i2 = resh(sp, i1, **kw)
    if ty == "wrap":
        r, u = r._a, u._a
    t, ut = tags_of(r, ty, n, a), tags_of(u, ty, n, a)
    if ty == "bool":
        b = np.arange(n).reshape(shape)
        t = [int(x) for x in np.asarray(resh(sp, b, **kw)).ravel()]
        ut = [int(x) for x in np.asarray(unresh(sp, resh(sp, b, **kw), **kw)).ravel()]
        if [bool(x) for x in np.ravel(r)] != [x % 3 == 0 for x in t]:
            t = []
    same = a.dtype == keep.dtype and bool(np.array_equal(a, keep))
    return {"istp": istp, "rshape": list(r.shape), "tags": t, "ushape": list(u.shape), "utags": ut,
            "ishape": list(i2.shape), "itags": tags_of(i2, "float64", i2.size, c),
            "type": r.dtype == a.dtype and u.dtype == a.dtype and type(r) is np.ndarray, "argument": same,
            "view": True}


def tuples(j, e):
    el = j["el"]
    sp, sh = elem.space(el), elem.shape(el)
    istp = isinstance(sp, mp.TensorProductSpace)
    tt = [tuple(map(int, t)) for t in mp.node_tuples_for_space(sp)]
    b = mp.basis_for_space(sp, sh)
    o = np.empty(len(tt), dtype=object)
    o[:] = [list(t) for t in tt]
    x = np.asarray(mp.equispaced_nodes_for_space(sp, sh))
    ids = {(format(float(v), ".12g")): None for v in x.ravel()}
    num = {k: i for i, k in enumerate(ids)}
    coord = [[num[format(float(v), ".12g")] for v in np.ascontiguousarray(resh(sp, c)).ravel()] for c in x]
    r = resh(sp, o)
    return {"istp": istp, "tuples": [list(t) for t in tt], "ids": [elem.tla(m) for m in b.mode_ids],
            "listed": [list(t) for t in np.ascontiguousarray(r).ravel()], "coord": coord}


def err(j, e):
    sp, w = elem.space(j["el"]), j["type"]
    n = sp.space_dim
    dims = tuple(b.space_dim for b in sp.bases)
    if w == "short":
        resh(sp, np.zeros((2, max(n - 1, 0) if n > 0 else 1, 3)), axis=1)
    elif w == "long":
        resh(sp, np.zeros((2, 2*n, 3)), axis=1)
    elif w == "axis+":
        resh(sp, np.zeros((2, n, 3)), axis=3)
    elif w == "axis-":
        resh(sp, np.zeros((2, n, 3)), axis=-4)
    elif w == "axismid":
        resh(sp, np.zeros((n + 1, n, n + 1)), axis=0)
    elif w == "scalar":
        resh(sp, np.zeros(()), axis=0)
    elif w == "unshort":
        unresh(sp, np.zeros((2, *dims[:-1], dims[-1] + 1, 3) if dims else (2, 0, 3)), axis=1 if dims else 7)
    elif w == "unperm":
        d = dims[::-1]
        if d == dims:
            d = (*dims[:-1], dims[-1] + 2) if dims else ()
        unresh(sp, np.zeros((2, *d, 3)), axis=1 if dims else 9)
    elif w == "unaxis+":
        unresh(sp, np.zeros((2, *dims, 3)), axis=3)
    elif w == "unaxis-":
        unresh(sp, np.zeros((2, *dims, 3)), axis=-4)
    elif w == "unflat":
        unresh(sp, np.zeros((n,)), axis=0 if dims else 5)
    return {}


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], elem.eid(j["el"]), j["before"], j["after"], j["neg"], j["mem"], j["type"]))),
         "kind": j["fam"], "job": j, "valid": False}
    cls, v, exc = call({"tag": tag, "tuples": tuples, "err": err}[j["fam"]], j, e)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
