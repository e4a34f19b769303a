"""Dropout: which vectors were dropped, read off the outputs alone."""
import copy, random
import numpy as np
import torch
import e2cnn.nn as enn
from e2cnn.nn import GeometricTensor
from sim import build as B, sched


def _make(spec, inplace):
    g = spec["g"]
    gs = B.gspace(g)
    t = B.ftype(gs, spec["in"], g)
    point = spec["point"] and B.supp(t, "pointwise")
    m = (enn.PointwiseDropout if point else enn.FieldDropout)(t, spec["p"], inplace)
    sizes = [1] * t.size if point else [r.size for r in t.representations]
    if spec["wrap"] == "seq":
        m = enn.SequentialModule(m, enn.IdentityModule(t))
    return t, sizes, m


def build(ctx, name, spec, inplace):
    t, sizes, m = _make(spec, inplace)
    ctx["drop:" + name] = {"t": t, "sizes": sizes, "m": m, "p": spec["p"], "inplace": inplace, "spec": spec}
    return len(sizes)


def data(t, seed, shape, style):
    rs = np.random.RandomState(seed)
    b, h, w = shape
    x = rs.randn(b, t.size, h, w)
    x = np.sign(x + 1e-12) * (0.3 + np.abs(x))
    x = torch.tensor(x, dtype=torch.float32)
    if style == "channels_last":
        x = x.contiguous(memory_format=torch.channels_last)
    elif style == "strided":
        big = torch.zeros(b, t.size, h + 2, w + 1)
        big[:, :, 1:-1, :-1] = x
        x = big[:, :, 1:-1, :-1]
    return x


def rng_hash():
    return B.th(torch.get_rng_state())


def decode(x, y, sizes, p):
    """-> (mask of the fields or None, description)"""
    if x.shape != y.shape:
        return None, f"shape {y.shape}, input {x.shape}"
    if not np.isfinite(y).all():
        return None, "not finite"
    zero = y == 0
    if p < 1:
        keep = np.abs(y - x / (1 - p)) <= 1e-4 * np.abs(x / (1 - p))
    else:
        keep = np.zeros_like(zero)
    neither = ~(zero | keep)
    if neither.any():
        i = tuple(int(j) for j in np.argwhere(neither)[0])
        return None, f"{int(neither.sum())} of {y.size} values are neither 0 nor the input divided by 1-p, e.g. {y[i]:.5g} at {i} for input {x[i]:.5g} (p={p})"
    out, c = [], 0
    for k, s in enumerate(sizes):
        z = zero[:, c:c + s]
        if (z.any(1) != z.all(1)).any():
            i = tuple(int(j) for j in np.argwhere(z.any(1) != z.all(1))[0])
            return None, f"field {k} (channels {c} to {c + s - 1}) was dropped in part of its channels at {i}"
        out.append(z.all(1))
        c += s
    m = np.stack(out, 1)
    if p == 0 and m.any():
        return m, "a field was dropped although p=0"
    return m, None


def statistics(m, p):
    """frequencies over many pixels, with bounds a correct generator practically never exceeds"""
    b, n, h, w = m.shape
    v = m.transpose(1, 0, 2, 3).reshape(n, -1).astype(np.float64)
    N = v.shape[1]
    s = np.sqrt(p * (1 - p) / N)
    f = v.mean(1)
    for k in range(n):
        if abs(f[k] - p) > 7 * s + 1e-9:
            return f"field {k} was dropped at {f[k]:.4f} of {N} positions (p={p})"
    if p * N < 100 or (1 - p) * N < 100:
        return None
    for i in range(n):
        for j in range(i):
            c = ((v[i] - p) * (v[j] - p)).mean() / (p * (1 - p))
            if abs(c) > 8 / np.sqrt(N) * max(1, 1 / np.sqrt(N * p * (1 - p))):
                return f"fields {j} and {i} are not dropped independently: correlation {c:.3f} over {N} positions"
    for name, a, c in (("samples", m[1:], m[:-1]), ("rows", m[:, :, 1:], m[:, :, :-1]), ("columns", m[:, :, :, 1:], m[:, :, :, :-1])):
        if a.size and min(p, 1 - p) * a.size > 200:
            r = ((a - p) * (c - p)).mean() / (p * (1 - p))
            if abs(r) > 8 / np.sqrt(a.size):
                return f"neighbouring {name} are not dropped independently: correlation {r:.3f} over {a.size} positions"
    return None


def apply(ctx, name, gseed, dseed, shape, style, grad, stat):
    """one forward pass from a given state of the generator -> (description, mask, state of the generator after)"""
    e = ctx["drop:" + name]
    t, m, p = e["t"], e["m"], e["p"]
    x0 = data(t, dseed, shape, style)
    x = x0.clone(memory_format=torch.preserve_format)
    leaf = None
    if grad:
        leaf = x.detach().clone(memory_format=torch.preserve_format).requires_grad_(True)
        x = leaf * 1.
    training = m.training
    torch.manual_seed(gseed)
    before = rng_hash()
    y = m(GeometricTensor(x, t))
    after = rng_hash()
    if y.type != t:
        return "output of another type", None, after
    yn = y.tensor.detach().clone().numpy()
    if not training:
        if before != after:
            return "random numbers were drawn in eval mode", None, after
        if not np.array_equal(yn, x0.numpy()):
            return "not the identity in eval mode", None, after
        if grad:
            w = torch.tensor(np.random.RandomState(dseed + 1).randn(*yn.shape), dtype=torch.float32)
            (y.tensor * w).sum().backward()
            if not torch.equal(leaf.grad, w):
                return "gradient is not that of the identity in eval mode", None, after
        return None, None, after
    mask, d = decode(x0.numpy(), yn, e["sizes"], p)
    if d:
        return d, None, after
    if e["inplace"]:
        if not np.array_equal(x.detach().numpy(), yn):
            return "in-place: the input tensor does not hold the output", None, after
    elif not torch.equal(x.detach(), x0):
        return "out-of-place: the input was modified", None, after
    if grad:
        w = torch.tensor(np.random.RandomState(dseed + 1).randn(*yn.shape), dtype=torch.float32)
        (y.tensor * w).sum().backward()
        full = np.repeat(mask, e["sizes"], axis=1)
        want = np.where(full, 0., w.numpy() / (1 - p if p < 1 else 1.))
        got = leaf.grad.numpy()
        if not np.isfinite(got).all() or np.abs(got - want).max() > 1e-3 * max(1., np.abs(want).max()):
            return "gradients are not masked and scaled like the outputs", None, after
    if stat:
        d = statistics(mask, p)
        if d:
            return d, None, after
    return None, [list(mask.shape), B.th(torch.tensor(mask)), float(mask.mean())], after


def mode(ctx, name, flag):
    ctx["drop:" + name]["m"].train(flag)


def copy_(ctx, name):
    e = ctx["drop:" + name]
    old, e["m"] = e["m"], copy.deepcopy(e["m"])
    old.eval() if e["m"].training else old.train()


def reload(ctx, name):
    """into a newly built module"""
    e = ctx["drop:" + name]
    d, f = e["m"].state_dict(), e["m"].training
    e["m"] = _make(e["spec"], e["inplace"])[2]
    e["m"].load_state_dict(d)
    e["m"].train(f)


# ---- threads
def _actor(e, evs, out):
    def f():
        for dseed, shape, style in evs:
            x0 = data(e["t"], dseed, shape, style)
            y = e["m"](GeometricTensor(x0.clone(memory_format=torch.preserve_format), e["t"]))
            out.append((x0, y.tensor))
        return len(out)
    return f


def profile(ctx, names, threads, opcodes, pseed, count):
    rec = {}
    torch.manual_seed(1)
    s = sched.Scheduler(opcodes=opcodes, record=rec, max_steps=3_000_000)
    r = s.run([_actor(ctx["drop:" + n], t, []) for n, t in zip(names, threads)])
    bad = [x for x in r if x[0] != "ok"]
    return {"bad": bad and str(bad[0])[-1500:], "preempts": [] if bad else sched.pick_preempts(random.Random(pseed), rec, len(s.sites), count)}


def run(ctx, names, threads, opcodes, preempts):
    outs = [[] for _ in threads]
    torch.manual_seed(1)
    s = sched.Scheduler(preempts, opcodes=opcodes, max_steps=3_000_000)
    es = [ctx["drop:" + n] for n in names]
    r = s.run([_actor(e, t, o) for e, t, o in zip(es, threads, outs)])
    bad = None
    e = [x for x in r if x[0] != "ok"]
    if s.deadlock or s.overrun:
        bad = "no progress"
    elif e:
        bad = str(e[0][1:])[-1500:]
    n = 0
    for e, o in zip(es, outs):
        for x0, y in o:
            mask, d = decode(x0.numpy(), y.detach().numpy(), e["sizes"], e["p"])
            n += 1
            bad = bad or d
    return {"bad": bad, "steps": s.steps, "switches": s.switches, "fired": s.fired, "log": s.log[:200], "outputs": n}
