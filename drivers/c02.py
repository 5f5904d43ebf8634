from drv import *
import elem, qrules
import modepy as mp


def job(j):
    el = j["el"]
    d = sum(f[0] for f in el["fs"])
    e = {"id": elem.eid(el), "kind": el["form"] + str(d), "job": j}
    cls, q, exc = call(lambda: mp.quadrature_for_space(elem.space(el), elem.shape(el)))
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": q}]
    x, w = np.asarray(q.nodes), np.asarray(q.weights)
    ok = x.ndim == 2 and w.ndim == 1 and x.shape == (d, len(w)) and isreal(x) and isreal(w) and q.dim == d
    fin = bool(ok and finite(x, w))
    return [e | {"shapeok": bool(ok), "finite": fin, "exact_to": qrules.exact_to(q),
                 "X": rows(x) if fin else [], "w": fx(w) if fin else ""}]


main(job)
