"""Elements named by jobs (see spec/Elem.tla)."""
import numpy as np
import modepy as mp


def space(el):
    f, fs = el["form"], el["fs"]
    if f == "P":
        return mp.PN(*fs[0])
    if f == "Q":
        return mp.QN(len(fs), fs[0][1] if fs else 2)
    bases = [mp.PN(*x) for x in fs]
    if f == "N":
        return mp.TensorProductSpace((bases[0], mp.TensorProductSpace(tuple(bases[1:]))))
    return mp.TensorProductSpace(tuple(bases))


def shape(el):
    f, fs = el["form"], el["fs"]
    if f == "P":
        return mp.Simplex(fs[0][0])
    if f == "Q":
        return mp.Hypercube(len(fs))
    bases = [mp.Simplex(x[0]) for x in fs]
    if f == "N":
        return mp.TensorProductShape((bases[0], mp.TensorProductShape(tuple(bases[1:]))))
    return mp.TensorProductShape(tuple(bases))


def points(p):
    d = len(p["hi"])
    if d == 0:
        return np.zeros((0, p["n"]))
    return (np.array(p["hi"], dtype=float).reshape(d, -1) / 2**20
            + np.array(p["lo"], dtype=float).reshape(d, -1) / 2**50)


def tla(x):
    """nested tuple of ints as TLA+ prints it"""
    if isinstance(x, (tuple, list)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    return str(int(x))


def eid(el):
    return el["form"] + "x".join(f"{d}.{n}" for d, n in el["fs"]) + "".join("-" + k for k in el.get("ks", []))
