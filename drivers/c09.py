from drv import *
import elem, basis


def job(j):
    e = {"id": f"{j['kind']}-{elem.eid(j['el'])}-{j['var']}-{j['via']}",
         "kind": j["kind"] + "-" + j["var"] + "-" + j["via"],
         "job": {k: j[k] for k in ("el", "kind", "var", "via")}}

    def work():
        b = basis.get(j)
        xs, x = basis.variant(j["var"], elem.points(j["pts"]))
        d = x.shape[0]
        ders, shapes = [[] for _ in range(d)], True
        if j["via"] == "gradients":
            gs = b.gradients
            count = len(gs)
            for g in gs:
                v, ok = basis.evaluate(g, xs, d)
                shapes = shapes and ok
                for k in range(d):
                    ders[k].append(v[k])
        else:
            count = -1
            for k in range(d):
                fs = b.derivatives(k)
                count = len(fs) if count in (-1, len(fs)) else -2
                for f in fs:
                    v, ok = basis.evaluate(f, xs)
                    shapes = shapes and ok
                    ders[k].append(v[0])
        return {"count": count, "shapes": bool(shapes), "finite": finite(*sum(ders, [])), "x": x, "v": ders}
    cls, r, exc = call(work)
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": r}]
    x, v = r.pop("x"), r.pop("v")
    ok = r["finite"] and r["shapes"]
    return [e | r | {"n": x.shape[1], "X": rows(x) if ok else [],
                     "ders": [[fx(u) if ok else "" for u in c] for c in v]}]


if __name__ == "__main__":
    main(job)
