"""The PDO cache and its file, inside a simulated process whose file system calls go through the shim."""
import os, contextlib, functools, io, math
from fractions import Fraction
import numpy as np
from e2cnn import diffops
from e2cnn.diffops import utils as du
from sim import seams, sched


# ---- items: [k, scale, coefficients, dtype, smoothing]
def points(k, scale):
    r = (np.arange(k) - (k - 1) / 2) * scale
    return np.stack(np.meshgrid(r, -r, indexing="xy")).reshape(2, -1)


def compute(it):
    k, scale, co, dt, sm = it
    return du.discretize_homogeneous_polynomial(points(k, scale), np.array(co, dtype=dt), smoothing=sm, method="fd")


@functools.lru_cache(None)
def unit_weights(n, k):
    """finite difference weights of the n-th derivative at 0 on k points of distance 1, by solving the moment equations exactly"""
    xs = [Fraction(2 * i - (k - 1), 2) for i in range(k)]
    A = [[x ** i for x in xs] + [Fraction(math.factorial(n) if i == n else 0)] for i in range(k)]
    for c in range(k):
        p = next(r for r in range(c, k) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for r in range(k):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [a - f * b for a, b in zip(A[r], A[c])]
    return np.array([float(A[i][k]) for i in range(k)])


def weights(n, k, scale):
    return unit_weights(n, k) / scale ** n


def reference(it):
    k, scale, co, dt, _ = it
    n = len(co) - 1
    out = np.zeros((k, k))
    for i, c in enumerate(np.array(co, dtype=dt)):
        if c:
            out += float(c) * weights(n - i, k, scale)[:, None] * weights(i, k, scale)[None, :]
    return out


def right(it, v):
    """mathematically correct, in either of the two orders of the grid points"""
    r = reference(it)
    v = np.asarray(v, dtype=float)
    if v.shape != (r.size,):
        return False
    s = max(1., abs(r).max())
    return any(np.abs(v - x.ravel()).max() <= 1e-8 * s for x in (r, np.rot90(r)))


# ---- operations
def setup(ctx, cwd):
    os.chdir(cwd)
    return os.getpid()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def fill(ctx, items, edit=False):
    """compute items; with ``edit`` the returned arrays are overwritten by the caller"""
    bad = []
    for it in items:
        v = compute(it)
        if not right(it, v):
            bad.append(it)
        if edit:
            v[...] = 99.
    return bad


def probe(ctx, items):
    """-> (counter works, [[served from memory, value right]])"""
    c0 = seams.counters["fd_weights"]
    compute([3, 0.731 + 0.001 * ctx.setdefault("cal", 0), [1.0, 0.25], "float64", None])
    ctx["cal"] += 1
    works = seams.counters["fd_weights"] > c0
    out = []
    for it in items:
        c0 = seams.counters["fd_weights"]
        v = compute(it)
        out.append([seams.counters["fd_weights"] == c0, right(it, v)])
    return works, out


def values(ctx, items):
    return [np.array(compute(it)) for it in items]


def load(ctx, path=None):
    with quiet():
        try:
            diffops.load_cache(path) if path is not None else diffops.load_cache()
        except FileNotFoundError:
            return "absent"
        except Exception as e:
            return f"{type(e).__name__}: {e}"[:300]
    return "ok"


def _store(path):
    diffops.store_cache(path) if path is not None else diffops.store_cache()


def store(ctx, root, path, plan="", quota=-1, sticky=-1, sticky_errno=0, logpath=None, inject=None):
    """-> [status, detail, fired, number of file system operations]"""
    s = seams.shim()
    lfd = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC) if logpath else -1
    s.sim_activate(root.encode(), lfd, plan.encode(), quota, sticky, sticky_errno)
    st = ["ok", ""]
    try:
        with quiet():
            if inject:
                r = seams.Injector(inject[0], inject[1]).run(lambda: _store(path))
                if r[0] == "injected":
                    st = ["injected", r[2]]
                elif r[0] == "error":
                    st = ["exc", r[1] + ": " + r[2]]
            else:
                _store(path)
    except OSError as e:
        st = ["exc", f"{type(e).__name__} {e.errno}"]
    except BaseException as e:
        st = ["exc", type(e).__name__]
    n = s.sim_seq()
    fired = s.sim_deactivate()
    if lfd >= 0:
        os.close(lfd)
    return st + [fired, n]


def listing(ctx, d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(r, f), d) for f in fs]
    return sorted(out)


# ---- threads
def threads(ctx, root, programs, opcodes, pseed, count, preempts):
    """programs: per thread a list of ["store", path] | ["load", path] | ["fill", items]"""
    import random

    def worker(prog):
        def f():
            out = []
            for o in prog:
                if o[0] == "store":
                    _store(o[1])
                elif o[0] == "load":
                    diffops.load_cache(o[1])
                else:
                    for it in o[1]:
                        v = compute(it)
                        out.append(right(it, v))
            return out
        return f
    rec = {} if preempts is None else None
    s = sched.Scheduler(preempts or (), opcodes=opcodes, record=rec)
    with quiet():
        r = s.run([worker(p) for p in programs])
    pre = sched.pick_preempts(random.Random(pseed), rec, len(s.sites), count) if rec is not None else preempts
    bad = None
    if s.deadlock:
        bad = "deadlock"
    for x in r:
        if x[0] != "ok":
            bad = bad or str(x[1:])[:1500]
        elif not all(x[1]):
            bad = bad or "wrong value"
    return {"bad": bad, "preempts": pre, "fired": s.fired, "switches": s.switches, "log": s.log[:200], "steps": s.steps}


def network(ctx, spec, seed, cache):
    """a layer of differential operators built with the documented option -> finite-difference computations made, its function"""
    import torch
    from sim import build as B
    import e2cnn.nn as enn
    g = spec["g"]
    gs = B.gspace(g)
    tin, tout = B.ftype(gs, spec["in"], g), B.ftype(gs, spec["out"], g)
    c0 = seams.counters["fd_weights"]
    with quiet():
        try:
            m = enn.R2Diffop(tin, tout, kernel_size=spec["k"], padding=spec["k"] // 2, cache=cache, bias=False, initialize=False, **spec.get("opt", {}))
        except ValueError as e:
            if "empty" in str(e):
                return None
            raise
    n = seams.counters["fd_weights"] - c0
    with torch.no_grad():
        m.weights.copy_(torch.tensor(np.random.RandomState(seed).randn(*m.weights.shape), dtype=m.weights.dtype))
    m.eval()
    with torch.no_grad():
        x = torch.tensor(np.random.RandomState(seed + 1).randn(1, tin.size, 7, 7), dtype=torch.float32)
        y = m(enn.GeometricTensor(x, tin)).tensor.numpy()
    return n, y


def check_values(ctx, items):
    return [right(it, compute(it)) for it in items]


def abort_load(ctx, path, at, exc):
    """a load aborted by an exception"""
    with quiet():
        r = seams.Injector(at, exc).run(lambda: diffops.load_cache(path))
    return r[0]


def plain_store(ctx, path):
    with quiet():
        diffops.store_cache(path)
    return "ok"
