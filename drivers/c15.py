from drv import *
import elem, basis
import modepy as mp
import modepy.modal_decay as md
from c12 import nodeset


def close(a, b):
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-13, equal_nan=True))


def fit(j, e):
    c = np.array([[num*2.0**-k for num, k in row] for row in j["coefs"]]).reshape(len(j["coefs"]), elem.space(j["el"]).space_dim)
    ne, nm = c.shape
    if j["mem"] == "F":
        c = np.array(c, order="F")
    elif j["mem"] == "strided":
        b = np.full((2*ne, nm*3), 77.0)
        b[::2, ::3] = c
        c = b[::2, ::3]
    elif j["mem"] == "int":
        c = np.round(c*2).astype(np.int64)
    if j["mem"] == "many":
        c = tiled(c, 4097 if j["n"] % 2 else 1025, 0)
    keep = c.copy()
    kw = {} if j["ign"] == 1 else {"ignored_modes": j["ign"]}
    ex, co = md.fit_modal_decay(c, j["d"], j["n"], **kw)
    res = md.estimate_relative_expansion_residual(c, j["d"], j["n"], **kw)
    p = np.random.RandomState(SEED).permutation(len(c))
    ex2, co2 = md.fit_modal_decay(c[p], j["d"], j["n"], **kw)
    res2 = md.estimate_relative_expansion_residual(c[p], j["d"], j["n"], **kw)
    s = np.where(np.random.RandomState(SEED+1).rand(*c.shape) < 0.5, 1, -1)
    ex3, co3 = md.fit_modal_decay(c*s, j["d"], j["n"], **kw)
    res3 = md.estimate_relative_expansion_residual(c*s, j["d"], j["n"], **kw)
    shapes = all(x.shape == (len(c),) for x in (ex, co, res)) and finite(ex, co)
    perm = close(ex[p], ex2) and close(co[p], co2) and close(res[p], res2)
    signs = close(ex, ex3) and close(co, co3) and close(res, res3)
    argument = bool(np.array_equal(c, keep))
    if j["mem"] == "many" and shapes:
        keep, ex, co, res = keep[:ne], *(picked(z, ne, len(c)) for z in (ex, co, res))
    r0 = np.where(np.isfinite(res), res, 0)
    return {"shapes": shapes,
            "expn": fx(ex), "const": fx(co), "res": fx(r0), "C": rows(keep.astype(float)),
            "permuted": perm, "signs": signs, "argument": argument}


def deg(j, e):
    v = md.degree_vector(basis.get(j))
    return {"deg": [int(x) for x in v] if v.ndim == 1 and v.dtype.kind in "iu" else [-1]}


def tail(j, e):
    el = j["el"]
    x = nodeset(el, "A" if len(el["fs"]) == 1 else "B")
    if j["fam"] == "stail":
        A = md.simplex_interp_error_coefficient_estimator_matrix(x, el["fs"][0][1], j["tail"])
    else:
        A = md.interp_error_coefficient_estimator_matrix(x, j["tail"], basis.get(j))
    return {"X": rows(x), "A": rows(A), "shape": list(A.shape)}


def job(j):
    e = {"id": "-".join(map(str, (j["fam"], elem.eid(j["el"]), j["ign"], len(j["coefs"]), j["p"], j["mem"], j["tail"], j["kind"]))),
         "kind": j["fam"], "job": {k: v for k, v in j.items() if k != "coefs"}}
    cls, v, exc = call({"fit": fit, "deg": deg, "tail": tail, "stail": tail}[j["fam"]], j, e)
    if cls != "ok":
        return [e | {"cls": cls, "exc": exc, "msg": v}]
    return [e | v | {"cls": "ok", "exc": []}]


if __name__ == "__main__":
    main(job)
