import copy, pickle
from drv import *
import modepy as mp


def shape(t):
    return (mp.Simplex(t[1]) if t[0] == "S" else mp.Hypercube(t[1]) if t[0] == "Q"
            else mp.TensorProductShape(tuple(map(shape, t[1]))))


def space(t):
    return (mp.PN(t[1], t[2]) if t[0] == "S" else mp.QN(t[1], t[2]) if t[0] == "Q"
            else mp.TensorProductSpace(tuple(map(space, t[1]))))


def name(t):
    return t[0] + (".".join(map(str, t[1:])) if t[0] != "X" else "(" + "*".join(map(name, t[1])) + ")")


def sh_fs(s):
    return [[b.dim, 0] for b in (s.bases if isinstance(s, mp.TensorProductShape) else (s,))]


def sp_fs(s):
    return [[b.spatial_dim, b.order] for b in (s.bases if isinstance(s, mp.TensorProductSpace) else (s,))]


def copies(o, same):
    res = []
    for f in (copy.copy, copy.deepcopy, *(lambda x, p=p: pickle.loads(pickle.dumps(x, p)) for p in range(6))):
        cls, c, exc = call(f, o)
        res.append("same" if cls == "ok" and type(c) is type(o) and same(c) else f"{cls} {str(c)[:60]}")
    return res


def frozen(o, names):
    """attributes cannot be assigned"""
    for n in names:
        try:
            setattr(o, n, getattr(o, n))
            return False
        except AttributeError:
            pass
    return True


def order(s):
    try:
        return s.order
    except AttributeError:
        return -1


def do(j, e):
    k, t = j["kind"], j["term"]
    if k == "shape":
        o = shape(t)
        p = shape(t)
        return e | {"cls_": type(o).__name__, "fs": sh_fs(o), "dim": int(o.dim),
                    "nvertices": format(int(o.nvertices), "x"), "nfaces": int(o.nfaces),
                    "again": o == p and hash(o) == hash(p) and repr(o) == repr(p) and len({o, p}) == 1 and not (o != p),
                    "frozen": frozen(o, ["dim"] + (["bases"] if hasattr(o, "bases") else [])),
                    "copies": copies(o, lambda c: c == o and hash(c) == hash(o) and repr(c) == repr(o)
                                     and sh_fs(c) == sh_fs(o) and c.dim == o.dim)}
    if k == "space":
        o, p = space(t), space(t)
        return e | {"cls_": type(o).__name__, "fs": sp_fs(o), "dim": int(o.spatial_dim), "sdim": format(int(o.space_dim), "x"),
                    "order": order(o), "again": repr(o) == repr(p), "frozen": True,
                    "copies": copies(o, lambda c: repr(c) == repr(o) and sp_fs(c) == sp_fs(o)
                                     and c.spatial_dim == o.spatial_dim
                                     and c.space_dim == o.space_dim and order(c) == order(o))}
    if k in ("spacefor", "spacefors"):
        s = mp.space_for_shape(shape(t), j["orders"][0] if k == "spacefor" else tuple(j["orders"]))
        return e | {"fs": sp_fs(s), "sdim": format(int(s.space_dim), "x"), "tp": isinstance(s, mp.TensorProductSpace)}
    if k == "pairs":
        a = shape(t[1][0])
        bs = [shape(u) for u in t[1][1:]]
        yn = lambda v, y, n: y if v else n      # noqa: E731
        return e | {"eq": [[yn(a == b, "eq", "ne"), yn(hash(a) == hash(b), "eq", "ne"), yn(a != b, "ne", "eq"),
                            yn(repr(a) == repr(b), "eq", "ne")] for b in bs]}
    res = []
    for f in mp.faces_for_shape(shape(t)):
        x = mp.unit_vertices_for_shape(f) * 0.5
        res += copies(f, lambda c: c.volume_shape == f.volume_shape and c.face_index == f.face_index  # noqa: B023
                      and c.volume_vertex_indices == f.volume_vertex_indices and c.dim == f.dim  # noqa: B023
                      and np.array_equal(c.map_to_volume(x), f.map_to_volume(x)))  # noqa: B023
    return e | {"copies": res}


def job(j):
    e = {"id": j["kind"] + "-" + (name(j["term"]) if j["kind"] != "pairs" else name(j["term"][1][0]))
         + ("-" + ".".join(map(str, j["orders"])) if j["orders"] else ""), "kind": j["kind"], "job": j}
    cls, v, exc = call(do, j, e)
    return [(v if cls == "ok" else e | {"exc": exc, "msg": v}) | {"cls": cls}]


main(job, chunk=16)
