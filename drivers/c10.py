from drv import *
import elem, basis
import modepy as mp
from pymbolic.mapper.evaluator import CachedEvaluationMapper


def job(j):
    e = {"id": f"{j['kind']}-{elem.eid(j['el'])}-{j['what']}" + ("-near" if j["near"] else ""),
         "kind": j["kind"] + "-" + j["what"], "job": {k: j[k] for k in ("el", "kind", "what", "near")}}

    def work():
        b = basis.get(j)
        x = elem.points(j["pts"])
        d, n = x.shape
        isgrad = j["what"] == "gradient"
        fs = b.gradients if isgrad else b.functions
        nc = d if isgrad else 1
        sym = [[] for _ in range(nc)]
        num = [[] for _ in range(nc)]
        scalar = True
        for i, f in enumerate(fs):
            name = "r" if i % 2 else "xi_ref"
            ex = (mp.symbolicize_function(f, d) if name == "r" else
                  mp.symbolicize_function(f, d, ref_coord_var_name=name))
            ex = ex if isgrad else (ex,)
            v = f(x)
            v = v if isgrad else (v,)
            if isgrad and not (isinstance(ex, tuple) and len(ex) == d):
                return {"count": len(fs), "scalar": False, "finite": True, "s": [], "n": []}
            vals = np.empty((nc, n))
            for k in range(n):
                ev = CachedEvaluationMapper({"abs": abs, name: [float(t) for t in x[:, k]]})
                for c in range(nc):
                    scalar = scalar and not isinstance(ex[c], np.ndarray)
                    r = ev(ex[c])
                    vals[c, k] = float(r)
            for c in range(nc):
                sym[c].append(vals[c])
                num[c].append(np.broadcast_to(v[c], (n,)))
        return {"count": len(fs), "scalar": bool(scalar),
                "finite": finite(*sum(sym, []), *sum(num, [])), "s": sym, "n": num}
    cls, r, exc = call(work, timeout=300)
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": r}]
    s, n = r.pop("s"), r.pop("n")
    ok = r["finite"] and r["scalar"]
    return [e | r | {"sym": [[fx(u) if ok else "" for u in c] for c in s],
                     "num": [[fx(u) if ok else "" for u in c] for c in n]}]


main(job, chunk=1)
