import random
from drv import *
import elem
import modepy as mp


def flat(t):
    return [int(x) for x in t]


def job(j):
    el = {"form": j["form"], "fs": j["fs"]}
    e = {"id": f"{elem.eid(el)}-{j['listing']}", "kind": j["form"], "job": j}
    nt = list(mp.node_tuples_for_space(elem.space(el)))
    if j["listing"] == 1:
        nt.reverse()
    elif j["listing"] > 1:
        random.Random(SEED * 1000 + j["listing"]).shuffle(nt)
    keep = list(nt)
    cls, c, exc = call(mp.submesh_for_shape, elem.shape(el), nt)
    e["cls"] = cls
    if cls != "ok":
        return [e | {"exc": exc, "msg": c}]
    return [e | {"nodes": [flat(t) for t in keep], "cells": [flat(x) for x in c], "kept": keep == nt}]


main(job)
