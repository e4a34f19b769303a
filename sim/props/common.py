"""helpers of the directors"""
import numpy as np
from sim import zoo


def count(rec, what, key, n=1):
    rec[what][key] = rec[what].get(key, 0) + n


def differs(a, b, tol=1e-4, floor=1e-3):
    """None or a description"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if a.dtype.kind != b.dtype.kind:
        return f"dtype {a.dtype} vs {b.dtype}"
    if not a.size:
        return None
    if a.dtype.kind in "biu":
        return None if (a == b).all() else f"{int((a != b).sum())} of {a.size} integers differ"
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return "non-finite values differ"
    a, b = np.where(fa, a, 0).astype(np.float64), np.where(fb, b, 0).astype(np.float64)
    s = max(np.abs(a).max(), np.abs(b).max(), floor)
    d = np.abs(a - b).max()
    return None if d <= tol * s else f"max diff {d:.3g} of scale {s:.3g}"


def dict_differs(a, b, tol=1e-4, floor=1e-3):
    if list(a) != list(b):
        x = [k for k in a if k not in b][:3], [k for k in b if k not in a][:3]
        return f"names differ: only left {x[0]}, only right {x[1]}" if any(x) else "order of names differs"
    for k in a:
        d = differs(a[k], b[k], tol, floor)
        if d:
            return f"{k}: {d}"
    return None


def pollution(rng, spec, n=None, small=True):
    """what a process may have done before: mutated or unrelated networks, heap noise"""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2]) if n is None else n):
        c = rng.random()
        if c < 0.5:
            out.append(["other", zoo.mutate(rng, spec), rng.randint(0, 99)])
        elif c < 0.85:
            out.append(["other", zoo.model_spec(rng, small=small), rng.randint(0, 99)])
        else:
            out.append(["junk", rng.randint(0, 10 ** 6)])
    return out
