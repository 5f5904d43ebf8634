from drv import *
import elem, basis
import modepy as mp


def job(j):
    f = getattr(mp, j["f"])
    p, var = j["par"], j["var"]
    a, b = p[0]/p[2], p[1]/p[2]
    e = {"id": f"{j['f']}({p[0]},{p[1]})/{p[2]}-{var}", "kind": j["f"] + "-" + var,
         "job": {k: j[k] for k in ("f", "par", "degs", "var")}}

    def work():
        x = elem.points(j["pts"])
        if var in ("float", "zerod"):
            x = x[:, ::3]
            xs = [float(t) if var == "float" else np.array(t) for t in x[0]]
        else:
            xs, x = basis.variant(var, x)
            tiled = xs if var == "many" else None
            xs = [u[0] for u in xs]
        vals, shapes = [], True
        for n in j["degs"]:
            out = []
            for u in xs:
                v = f(a, b, n, u)
                shapes = shapes and np.shape(v) == np.shape(u)
                out.append(np.asarray(v, dtype=float).ravel())
            v = np.concatenate(out) if out else np.zeros(0)
            vals.append(tiled.pick(v) if var == "many" and shapes else v)
        return {"shapes": bool(shapes), "finite": finite(*vals), "x": x, "v": vals}
    cls, r, exc = call(work)
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": r}]
    x, v = r.pop("x"), r.pop("v")
    ok = r["finite"] and r["shapes"]
    return [e | r | {"X": rows(x) if ok else [], "vals": [fx(u) if ok else "" for u in v]}]


main(job)
