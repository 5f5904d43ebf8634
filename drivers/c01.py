import numpy as np
from drv import *
import qrules


def job(j):
    cls, q, exc = call(qrules.make, j)
    e = {"id": qrules.jid(j), "kind": "rule-" + j["fam"], "job": j, "cls": cls}
    if cls != "ok":
        return [e | {"exc": exc}]
    x, w = np.asarray(q.nodes), np.asarray(q.weights)
    dims = qrules.dims(j)
    if x.ndim == 1 and dims == [1]:     # documented for 1D
        x = x.reshape(1, -1)
    if j["fam"] == "kron":      # the rule also uses the embedded Gauss nodes
        x = np.concatenate([x, np.asarray(q.gauss_quadrature.nodes).reshape(1, -1)], axis=1)
        w = np.concatenate([w, q.weights_at_gauss_nodes])
    ok = x.ndim == 2 and w.ndim == 1 and x.shape == (sum(dims), len(w)) and isreal(x) and isreal(w)
    fin = bool(ok and finite(x, w))
    wt = qrules.weight(j)
    if fin and j["fam"] == "tr":
        l, r = j["par"][0]/8, j["par"][1]/8
        x = (x - l) / (r - l) * 2 - 1
        w = w / (r - l) * 2
    e |= {"shapeok": bool(ok), "finite": fin, "exact_to": qrules.exact_to(q), "dims": dims,
          "dom": "jacobi" if wt else "product", "wt": wt or [0, 0, 1],
          "X": rows(x) if fin else [], "w": fx(w) if fin else ""}
    return [e]


main(job)
