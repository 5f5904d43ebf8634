from drv import *
import elem
import modepy as mp


def shape(j):
    return elem.shape({"form": j["form"], "fs": [[d, 1] for d in j["ds"]]})


def ints(v):
    return [[int(x) if x == int(x) else 99 for x in col] for col in np.asarray(v).T]


def rws(a, n):
    a = np.asarray(a)
    return rows(a) if a.ndim == 2 and a.shape[1] == n and finite(a) else [""] * 9


def faces(sh):
    res = []
    for pos, f in enumerate(mp.faces_for_shape(sh)):
        v = mp.unit_vertices_for_shape(f)
        rng = np.random.RandomState(SEED + pos)
        p = np.concatenate([v, v*0, rng.uniform(-1, 1, (f.dim, 9))], axis=1)
        sub = []
        if f.dim >= 1:
            for g in mp.faces_for_shape(f):
                m = f.map_to_volume(g.map_to_volume(mp.unit_vertices_for_shape(g)))
                sub.append({"idx": [int(i) for i in g.volume_vertex_indices], "mv": rws(m, len(g.volume_vertex_indices))})
        ints_ = rng.randint(-5, 6, (f.dim, 6))
        alts = []
        for q in (ints_, ints_.astype(np.int32), (ints_/8).astype(np.float32), np.asfortranarray(p), p[:, ::2], p[:, ::-1],
                  p[:, :1], p[:, :0], 1000*p):
            keep = q.copy()
            m = f.map_to_volume(q)
            alts.append({"np": q.shape[1], "p": rows(np.asarray(q, dtype=float)), "mp": rws(m, q.shape[1]), "same": bool(np.array_equal(keep, q))})
        same = []

        def big(q):
            keep = q.copy()
            m = f.map_to_volume(q)
            same.append(np.array_equal(keep, q))
            return [m]
        m, = many(big, p, (4097, 1025, 16385))
        alts.append({"np": p.shape[1], "p": rows(p), "mp": rws(m, p.shape[1]), "same": all(same)})
        res.append({
            "alts": alts,
            "pos": pos, "fi": int(f.face_index), "vol": f.volume_shape == sh, "dim": int(f.dim),
            "types": isinstance(f, mp.Face) and isinstance(f, mp.Shape)
            and isinstance(f, mp.Simplex if isinstance(sh, mp.Simplex) or f.dim == 1 else mp.Hypercube),
            "nvertices": int(f.nvertices), "verts": ints(v),
            "idx": [int(i) for i in f.volume_vertex_indices],
            "mv": rws(f.map_to_volume(v), v.shape[1]), "np": p.shape[1],
            "p": rows(p), "mp": rws(f.map_to_volume(p), p.shape[1]),
            "normal": fx(mp.face_normal(f)), "raw": fx(mp.face_normal(f, normalize=False)), "sub": sub})
    return res


def job(j):
    e = {"id": f"{j['kind']}-{j['form']}{'.'.join(map(str, j['ds']))}", "kind": j["kind"], "job": j}
    cls, sh, exc = call(shape, j)
    if cls == "ok" and j["kind"] == "shape":
        cls, v, exc = call(lambda: (sh.dim, sh.nvertices, sh.nfaces, mp.unit_vertices_for_shape(sh)))
        if cls == "ok":
            return [e | {"cls": cls, "dim": int(v[0]), "nvertices": int(v[1]), "nfaces": int(v[2]),
                         "vshape": list(v[3].shape), "verts": ints(v[3])}]
    elif cls == "ok":
        cls, v, exc = call(faces, sh)
        if cls == "ok":
            return [e | {"cls": cls, "faces": v}]
    return [e | {"cls": cls, "exc": exc, "msg": str(v)}]


main(job)
