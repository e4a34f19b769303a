"""Batch normalisation against a reference recursion in double precision.

In eval mode every batch normalisation is an affine map of the channels of a pixel.  The map is read off the module
itself (one forward pass over the basis vectors), so nothing here depends on how the module stores its statistics; the
learnable parameters are known from a newly built module given the same parameters (whose statistics are the initial
ones: mean 0, variance 1)."""
import copy, gc
import numpy as np
import torch
import e2cnn.nn as enn
from e2cnn.nn import GeometricTensor
from sim import build as B, life


def _make(spec):
    g = spec["g"]
    gs = B.gspace(g)
    t = B.ftype(gs, spec["in"], g)

    def one(tt, p):
        c = B.bn_candidates(tt)
        if not c:
            return None, enn.IdentityModule(tt)
        k = c[p["r"] % len(c)]
        kw = {"track_running_stats": p["track"]} if k == "inner" else {}
        return (k, p["eps"], p["momentum"], kw.get("track_running_stats", True)), B.BN[k](tt, eps=p["eps"], momentum=p["momentum"], affine=p["affine"], **kw)
    if spec["wrap"] == "multi" and len(t) > 1:
        rs = np.random.RandomState(spec["r"])
        labels = ["ab"[rs.randint(2)] for _ in range(len(t))]
        labels[-1] = "b" if labels[0] == "a" else "a"
        resh = spec["r"] % 3
        branch = t.group_by_labels(labels)
        if resh == 2:
            branch = {l: b.sorted() for l, b in branch.items()}
        kinds, mods = {}, []
        for i, lab in enumerate(sorted(branch, reverse=bool(spec["r"] % 2))):
            kinds[lab], m = one(branch[lab], spec["bn"][i])
            mods.append((m, lab))
        return t, [kinds[l] for l in labels], enn.MultipleModule(t, labels, mods, reshuffle=resh)
    k, m = one(t, spec["bn"][0])
    if spec["wrap"] == "seq":
        m = enn.SequentialModule(enn.IdentityModule(t), m)
    return t, [k] * len(t), m


def build(ctx, name, spec):
    t, kinds, m = _make(spec)
    ctx["bn:" + name] = {"spec": spec, "t": t, "kinds": kinds, "m": m}
    return sorted({k[0] if k else "none" for k in kinds})


def batch(t, ev):
    seed, b, h, w, style = ev
    rs = np.random.RandomState(seed)
    x = rs.randn(b, t.size, h, w)
    if style == "offset":
        x = x + rs.randn(1, t.size, 1, 1)
    elif style == "scale":
        x = x * np.exp(rs.randn(1, t.size, 1, 1))
    elif style == "small":
        x = x * 0.02
    elif style == "far":
        # means which are large compared to the deviations
        x = x * 0.02 + rs.choice([-100., 100., 60., 7.], (1, t.size, 1, 1))
    elif style == "large":
        x = x * rs.choice([1e3, 1e5])
    elif style == "zeros":
        x = x * 0
    elif style == "sparse":
        x = x * (rs.rand(b, 1, 1, 1) < 0.5)
    x = torch.tensor(x, dtype=torch.float32)
    if style == "channels_last":
        x = x.contiguous(memory_format=torch.channels_last)
    elif style == "strided":
        big = torch.zeros(b, t.size, h + 2, w + 1)
        big[:, :, 1:-1, :-1] = x
        x = big[:, :, 1:-1, :-1]
    return x


def fields(t):
    """(first channel, representation) of every field"""
    p, out = 0, []
    for r in t.representations:
        out.append((p, r))
        p += r.size
    return out


def slots(t, r, kind):
    """how a field is normalised: (change of basis, slot of every channel in that basis, slots with a mean)"""
    if kind == "gnorm":
        slot, triv = [], []
        for j, i in enumerate(r.irreps):
            irr = t.fibergroup.irreps[i]
            slot += [j] * irr.size
            if irr.is_trivial():
                triv.append(j)
        return np.array(r.change_of_basis, dtype=np.float64), slot, triv
    return np.eye(r.size), [0] * r.size, [0] if kind == "inner" else []


def batch_stats(t, p, r, kind, x):
    """(mean, variance for the running average, variance used for normalising in training, rounding errors of the mean and the variance) by slot"""
    Q, slot, triv = slots(t, r, kind)
    v = np.einsum("ij,bjhw->bihw", np.linalg.inv(Q), x[:, p:p + r.size].astype(np.float64))
    n = max(slot) + 1
    mean, var, var0, err, merr = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for j in range(n):
        c = v[:, [i for i, s in enumerate(slot) if s == j]]
        N = c.size // c.shape[1]
        if kind == "inner":
            N = c.size
        elif kind == "inorm":
            sub = int([nl for nl in r.supported_nonlinearities if nl.startswith("induced_norm")][0].split("_")[-1])
            N = c.size // sub
        mean[j] = c.mean() if j in triv else 0.
        var0[j] = ((c - mean[j]) ** 2).mean()
        f = (N / (N - 1) if N > 1 else 1.)
        var[j] = var0[j] * f
        # rounding in single precision
        merr[j] = 1e-6 * np.abs(v).max()
        err[j] = 3e-6 * var[j] + f * (2 * np.sqrt(var0[j]) * merr[j] + merr[j] ** 2)
    return mean, var, var0, (merr, err)


def running(t, kinds, hist):
    """the documented recursion, per field: (mean, variance, their rounding errors) by slot"""
    out = []
    xs = [batch(t, e).numpy() for e in hist]
    for (p, r), k in zip(fields(t), kinds):
        if k is None:
            out.append(None)
            continue
        kind, eps, momentum, track = k
        n = max(slots(t, r, kind)[1]) + 1
        mean, var, err, merr = np.zeros(n), np.ones(n), np.zeros(n), np.zeros(n)
        for i, x in enumerate(xs):
            a = 1. / (i + 1) if momentum is None else momentum
            m, v, _, d = batch_stats(t, p, r, kind, x)
            mean, var = (1 - a) * mean + a * m, (1 - a) * var + a * v
            merr, err = (1 - a) * merr + a * d[0], (1 - a) * err + a * d[1]
        out.append((mean, var, (merr, err)))
    return out


def affine_of(m, t):
    """matrix and offset of a module acting on the channels of each pixel"""
    C = t.size
    x = torch.zeros(1, C, C + 1, 1)
    for i in range(C):
        x[0, i, i + 1, 0] = 1
    with torch.no_grad():
        y = m(GeometricTensor(x, t)).tensor.double().numpy()[0, :, :, 0]
    return y[:, 1:] - y[:, :1], y[:, 0]


def twin(ctx, e):
    """map of the learnable parameters alone"""
    t, kinds, m = _make(e["spec"])
    with torch.no_grad():
        ps, qs = list(m.named_parameters()), list(e["m"].named_parameters())
        if [k for k, _ in ps] != [k for k, _ in qs]:
            return None, "parameter names differ from those of a new module"
        for (_, a), (_, b) in zip(ps, qs):
            a.copy_(b)
    m.eval()
    if not all(k is None or k[3] for k in kinds):
        # without running statistics: compare on a batch instead, where they matter (see `outcome`)
        for q in m.modules():
            if isinstance(q, torch.nn.modules.batchnorm._BatchNorm) and not q.track_running_stats:
                q.track_running_stats = True
                q.running_mean, q.running_var = torch.zeros(q.num_features), torch.ones(q.num_features)
    return affine_of(m, t), None


def expected(e, tw, stats):
    """map given the statistics, and the uncertainty of its matrix and offset"""
    A, b = _expected(e, tw, stats, 0)
    lo, hi = _expected(e, tw, stats, -1), _expected(e, tw, stats, 1)
    return A, b, np.abs(lo[0] - hi[0]), np.abs(lo[1] - hi[1])


def _expected(e, tw, stats, sign):
    t = e["t"]
    S, mu = np.eye(t.size), np.zeros(t.size)
    for (p, r), k, st in zip(fields(t), e["kinds"], stats):
        if k is None:
            continue
        kind, eps = k[:2]
        Q, slot, _ = slots(t, r, kind)
        mean, var, err = st
        mean, var = mean + sign * err[0], np.maximum(var + sign * err[1], 0)
        d = np.array([np.sqrt((1 + eps) / (var[s] + eps)) for s in slot])
        S[p:p + r.size, p:p + r.size] = Q @ np.diag(d) @ np.linalg.inv(Q)
        mm = np.array([mean[s] for s in slot])
        mu[p:p + r.size] = Q @ mm
    A = tw[0] @ S
    return A, tw[1] - A @ mu


def used(e, hist, x, training):
    """statistics the output is normalised with"""
    t = e["t"]
    run = running(t, e["kinds"], hist)
    out = []
    for (p, r), k, st in zip(fields(t), e["kinds"], run):
        if k is None:
            out.append(None)
            continue
        kind, eps, momentum, track = k
        if kind == "inner" and (training or not track):
            m, v, v0, d = batch_stats(t, p, r, kind, x)
            out.append((m, v0, d))
        elif kind == "gnorm" and training:
            m, v, v0, d = batch_stats(t, p, r, kind, x)
            out.append((m, v, d))
        else:
            out.append(st)
    return out


def _cmp(what, a, b, tol=2e-3, extra=0.):
    if a.shape != b.shape:
        return f"{what}: shape {a.shape}, expected {b.shape}"
    if not np.isfinite(a).all():
        return f"{what}: not finite"
    d = np.abs(a - b)
    s = tol * (np.abs(b) + 1e-2 * max(1e-2, np.abs(b).max())) + extra
    if (d > s).any():
        i = np.unravel_index(np.argmax(d / s), d.shape)
        return f"{what}: {a[i]:.6g} at {tuple(int(j) for j in i)}, expected {b[i]:.6g}"
    return None


def check(ctx, name, hist):
    """statistics as seen through the eval map -> description or None; leaves the modes as they are"""
    e = ctx["bn:" + name]
    m = e["m"]
    flags = [(q, q.training) for q in m.modules()]
    m.eval()
    try:
        tw, d = twin(ctx, e)
        if d:
            return d
        if all(k is None or k[3] for k in e["kinds"]):
            A, b = affine_of(m, e["t"])
            EA, eb, uA, ub = expected(e, tw, running(e["t"], e["kinds"], hist))
            d = _cmp("scale", A, EA, extra=uA + 2e-6 * np.abs(b)[:, None]) or _cmp("shift", b, eb, extra=ub)
    finally:
        for q, f in flags:
            q.training = f
    return d


def fresh(ctx, name):
    """a new module only divides by sqrt(1 + eps)"""
    e = ctx["bn:" + name]
    tw, d = twin(ctx, e)
    if d:
        return d
    I = np.eye(e["t"].size)
    A = np.abs(tw[0]).sum(1), np.abs(tw[0]).sum(0)
    eps = np.concatenate([[k[1] if k else None] * r.size for (p, r), k in zip(fields(e["t"]), e["kinds"])])
    want = np.array([1. if x is None else 1 / np.sqrt(1 + x) for x in eps])
    return _cmp("initial scale", A[1], want, 1e-4) or _cmp("initial shift", tw[1], np.zeros_like(tw[1]))


def train(ctx, name, ev, hist, mode):
    """one batch; ``hist`` already includes it if the module is in training mode -> description or None"""
    e = ctx["bn:" + name]
    m, t = e["m"], e["t"]
    x = batch(t, ev)
    tw, d = twin(ctx, e)
    if d:
        return d
    training = m.training
    keep = x.clone()
    if mode == "nograd":
        with torch.no_grad():
            y = m(GeometricTensor(x, t))
    elif mode == "back":
        x.requires_grad_(True)
        y = m(GeometricTensor(x, t))
        B.loss_of(y, ev[0]).backward()
        with torch.no_grad():
            for p in m.parameters():
                if p.grad is not None:
                    p -= 0.2 * p.grad.clamp(-1, 1)
                    p.grad = None
    else:
        y = m(GeometricTensor(x, t))
    if not torch.equal(keep, x.detach()):
        return "the input was modified"
    if y.type != m.out_type:
        return "wrong output type"
    xn = keep.numpy()
    EA, eb, uA, ub = expected(e, tw, used(e, hist, xn, training))
    want = np.einsum("ij,bjhw->bihw", EA, xn.astype(np.float64)) + eb[None, :, None, None]
    got = y.tensor.detach().double().numpy()
    extra = np.einsum("ij,bjhw->bihw", uA, np.abs(xn)) + ub[None, :, None, None] + 3e-6 * np.abs(EA).sum(1)[None, :, None, None] * np.abs(xn).max()
    return _cmp("output in " + ("training" if training else "eval"), got, want, 5e-3, extra)


def mode(ctx, name, flag):
    ctx["bn:" + name]["m"].train(flag)


def reset(ctx, name, params):
    # every batch normalisation inside, as a training script would
    for q in ctx["bn:" + name]["m"].modules():
        if isinstance(q, tuple(B.BN.values())):
            q.reset_parameters() if params else q.reset_running_stats()


def perturb(ctx, name, seed):
    B.perturb(ctx["bn:" + name]["m"], seed)


def save(ctx, name, path):
    import os
    torch.save(ctx["bn:" + name]["m"].state_dict(), path + ".tmp")
    os.replace(path + ".tmp", path)


def load(ctx, name, path):
    ctx["bn:" + name]["m"].load_state_dict(torch.load(path))


def copy_(ctx, name, evs, delete):
    """go on with a copy; the original trains on other data, or is deleted"""
    e = ctx["bn:" + name]
    old = e["m"]
    e["m"] = copy.deepcopy(old)
    old.train()
    for ev in evs:
        old(GeometricTensor(batch(e["t"], ev) * 3 + 1, e["t"]))
    if delete:
        del old
        gc.collect()


def other(ctx, spec, evs):
    t, kinds, m = _make(spec)
    for ev in evs:
        m(GeometricTensor(batch(t, ev) * 3 + 1, t))
    m.reset_parameters() if hasattr(m, "reset_parameters") else None
    ctx.setdefault("others", []).append(m)
