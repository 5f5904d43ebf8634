"""Shared machinery of the drivers: calling the library, recording outcomes."""
import json, math, os, signal, sys, traceback, multiprocessing as mp_
import warnings
import numpy as np

warnings.simplefilter("ignore")
FP = 160
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER == "quick"


def fx1(x):
    """a double as an integer multiple of 2^-FP, in hexadecimal"""
    n, d = float(x).as_integer_ratio()
    k = d.bit_length() - 1
    if k <= FP:
        v = n << (FP - k)
    else:
        v = (n + (1 << (k - FP - 1))) >> (k - FP)
    return format(v, "x")


def fx(a):
    """flattened array -> blank-separated fixed-point numbers"""
    return " ".join(fx1(x) for x in np.asarray(a, dtype=np.float64).ravel())


def rows(a):
    a = np.asarray(a)
    assert a.ndim == 2
    return [fx(r) for r in a]


def tiled(x, total, axis=-1):
    """x over and over along an axis, `total` long"""
    return np.take(x, np.arange(total) % x.shape[axis], axis=axis)


def picked(v, n, total, axis=-1, idx=None):
    """of values at `total` points that repeat (every n, or by idx): for each of the points
    the value that differs most from the first one"""
    v = np.moveaxis(np.asarray(v), axis, 0)
    u = v.reshape(len(v), -1)
    idx = np.arange(total) % n if idx is None else idx
    if len(idx) != len(v):
        raise ValueError(f"{len(v)} values at {len(idx)} points")
    with np.errstate(all="ignore"):
        order = np.nan_to_num(np.abs(u - u[:n][idx]), nan=np.inf, posinf=np.inf).argsort(axis=0, kind="stable")
    out = np.empty((n, u.shape[1]), dtype=u.dtype)
    for c in range(u.shape[1]):
        out[idx[order[:, c]], c] = u[order[:, c], c]        # the last one stays
    return np.moveaxis(out.reshape(n, *v.shape[1:]), 0, axis)


def many(f, x, sizes=(4097, 1025, 10001), axis=-1):
    """f (-> list of arrays) at the same points over and over, in batches of several sizes"""
    n = x.shape[axis]
    parts = [f(tiled(x, s, axis)) for s in sizes]
    idx = np.concatenate([np.arange(s) % n for s in sizes])
    return [picked(np.concatenate([np.asarray(p[k]) for p in parts], axis=axis), n, None, axis, idx) for k in range(len(parts[0]))]


def finite(*arrays):
    try:
        return all(bool(np.all(np.isfinite(np.asarray(a, dtype=np.complex128)))) for a in arrays)
    except Exception:
        return False


def isreal(a):
    a = np.asarray(a)
    return a.dtype.kind in "fiub"


class CallTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CallTimeout()


def call(fn, *args, timeout=60, **kwargs):
    """-> ("ok", value, []) or ("exc", message, class names) or ("timeout", ..)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return "ok", fn(*args, **kwargs), []
    except CallTimeout:
        return "timeout", "", ["timeout"]
    except RecursionError as e:
        return "exc", str(e)[:200], ["RecursionError"]
    except Exception as e:                       # noqa: BLE001
        return "exc", (str(e) or repr(e))[:200], [c.__name__ for c in type(e).__mro__]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _guard(args):
    f, job = args
    try:
        return f(job)
    except (MemoryError, OSError, KeyboardInterrupt, SystemExit):
        return {"__driver_error__": traceback.format_exc(), "job": job}
    except BaseException as e:                   # noqa: BLE001
        # the library cannot be observed as planned: not possible where it is right
        tb = traceback.format_exc()
        print(job, tb)
        return [{"id": "crash-" + json.dumps(job).replace('"', "").replace(" ", "")[:150],
                 "kind": "crash", "job": job, "cls": "crash", "trace": tb[-1500:],
                 "exc": [c.__name__ for c in type(e).__mro__]}]


def main(f, chunk=4, procs=8, postprocess=None):
    """plan (argv[1]) -> events (argv[2]); f: job -> list of events"""
    plan = [json.loads(l) for l in open(sys.argv[1]) if l.strip()]
    with mp_.get_context("fork").Pool(procs) as pool:
        res = pool.map(_guard, [(f, j) for j in plan], chunksize=chunk)
    n = 0
    with open(sys.argv[2], "w") as out:
        for r in res:
            if isinstance(r, dict):
                print(r["job"], r["__driver_error__"])
                sys.exit(3)
            for e in r:
                out.write(json.dumps(e) + "\n")
                n += 1
    print(n, "events")
