from drv import *
import elem, basis
import modepy as mp


def job(j):
    e = {"id": f"{j['kind']}-{elem.eid(j['el'])}-{j['var']}", "kind": j["kind"] + "-" + j["var"],
         "job": {k: j[k] for k in ("el", "kind", "var")}}

    def work():
        b = basis.get(j)
        xs, x = basis.variant(j["var"], elem.points(j["pts"]))
        fs = b.functions
        vals, shapes = [], True
        for f in fs:
            v, ok = basis.evaluate(f, xs)
            shapes = shapes and ok
            vals.append(v[0])
        try:
            ow = b.orthonormality_weight()
            ow = "1" if ow == 1 else repr(ow)
        except mp.BasisNotOrthonormal:
            ow = "BasisNotOrthonormal"
        return {"ids": [elem.tla(m) for m in b.mode_ids], "oweight": ow, "shapes": bool(shapes),
                "finite": finite(*vals), "x": x, "v": vals}
    cls, r, exc = call(work)
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": r}]
    x, v = r.pop("x"), r.pop("v")
    ok = r["finite"] and r["shapes"]
    return [e | r | {"n": x.shape[1], "X": rows(x) if ok else [],
                     "vals": [fx(u) if ok else "" for u in v]}]


if __name__ == "__main__":
    main(job)
