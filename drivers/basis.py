"""Evaluate bases at the points of a job, in the array form of its variant."""
import numpy as np
import modepy as mp
import elem
from drv import picked, tiled



class UserBasis(mp.Basis):
    """monomials, as a user might write them"""

    def __init__(self, d, n):
        self.d = d
        self.idx = mp.monomial_basis_for_space(mp.PN(d, n), mp.Simplex(d)).mode_ids

    def orthonormality_weight(self):
        raise mp.BasisNotOrthonormal

    @property
    def mode_ids(self):
        return tuple(i[0] for i in self.idx) if self.d == 1 else self.idx

    def value(self, idx, x):
        v = 1.0
        for t, k in zip(x, idx):
            for _ in range(k):
                v = v * t
        return v + 0*x[0]

    def gradient(self, idx, x):
        return tuple(
            (idx[k] * self.value([m - (i == k) for i, m in enumerate(idx)], x) if idx[k] else 0.0*x[0])
            for k in range(self.d))

    @property
    def functions(self):
        return tuple(lambda x, i=i: self.value(i, x) for i in self.idx)

    @property
    def gradients(self):
        return tuple(lambda x, i=i: self.gradient(i, x) for i in self.idx)


def composed(el):
    bs = []
    for (d, n), k in zip(el["fs"], el["ks"], strict=True):
        sp, sh = mp.PN(d, n), mp.Simplex(d)
        bs.append(mp.orthonormal_basis_for_space(sp, sh) if k == "onb" else
                  mp.monomial_basis_for_space(sp, sh) if k == "mono" else UserBasis(d, n))
    ds = [d for d, _ in el["fs"]]
    if el["form"] == "M":
        return mp.TensorProductBasis([bs[0], mp.TensorProductBasis(tuple(bs[1:]), tuple(ds[1:]))],
                                     dims_per_basis=(ds[0], sum(ds[1:])))
    if all(d == 1 for d in ds):
        return mp.TensorProductBasis(bs)
    return mp.TensorProductBasis(bs, ds)


def get(job):
    if "ks" in job["el"]:
        return composed(job["el"])
    f = {"onb": mp.orthonormal_basis_for_space, "mono": mp.monomial_basis_for_space,
         "any": mp.basis_for_space}[job["kind"]]
    return f(elem.space(job["el"]), elem.shape(job["el"]))


def variant(var, x):
    """-> the points, as the arrays to call with, and the points as (d, n)"""
    d, n = x.shape
    if var in ("nd", "near"):
        return [x], x
    if var == "big":        # high order: a few points
        x = x[:, :: max(1, n // 12)]
        return [x.copy()], x
    if var == "one":
        return [x[:, :1].copy()], x[:, :1]
    if var == "empty":
        return [x[:, :0].copy()], x[:, :0]
    if var == "pt":
        x = x[:, :: max(1, n // 24)]
        return [x[:, i].copy() for i in range(x.shape[1])], x
    if var == "3d":
        m = n // 3
        x = x[:, :3*m]
        return [x.reshape(d, 3, m).copy()], x
    if var == "fort":
        y = np.empty((2*n, d))[::2]
        y[:] = x.T
        return [y.T], x
    if var == "f32":
        y = x.astype(np.float32)
        # keep to points that single precision can tell from the vertices
        keep = np.all((np.abs(x) == 1) | (np.abs(np.abs(x) - 1) > 2.0**-12), axis=0)
        y = y[:, keep].copy()
        return [y], y.astype(np.float64)
    if var == "int":
        y = x[:, np.all(x == np.round(x), axis=0)]
        return [y.astype(np.int64)], y
    if var == "many":
        x = x[:, ::2]
        return Tiled([tiled(x, s) for s in (4097, 1025, 10001, 16385)], x.shape[1]), x
    raise ValueError(var)


class Tiled(list):
    """an array of the same n points over and over"""
    def __init__(self, xs, n):
        super().__init__(xs)
        self.n = n

    def pick(self, v):
        """of the values at each point: the one that differs most from the first"""
        return picked(v, self.n, None, idx=np.concatenate([np.arange(x.shape[-1]) % self.n for x in self]))


def evaluate(f, xs, ncomp=None):
    """-> (values flattened per component, shape ok)"""
    comps, ok = [], True
    for x in xs:
        v = f(x)
        if ncomp is None:
            v = (v,)
        elif not isinstance(v, tuple) or len(v) != ncomp:
            return [[] for _ in range(ncomp)], False
        for c in v:
            ok = ok and np.shape(c) == x.shape[1:] and np.asarray(c).dtype.kind in "fiu"
        comps.append([np.asarray(c).ravel() for c in v])
    if not comps:
        return [np.zeros(0)] * (ncomp or 1), ok
    out = [np.concatenate([c[k] for c in comps]) for k in range(len(comps[0]))]
    if isinstance(xs, Tiled) and ok:
        out = [xs.pick(v) for v in out]
    return out, ok
