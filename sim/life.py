"""Operations of a network's life, executed inside a simulated process.

``ops(ctx, [...])`` runs a list of JSON operations one after the other and returns one JSON result per operation.
Networks live in ctx under their names."""
import copy, io, os, random
import numpy as np
import torch
from e2cnn.nn import GeometricTensor
import e2cnn.nn as enn
from sim import build as B


def _net(ctx, name):
    return ctx["net:" + name]


def _opt(ctx, name):
    o = ctx.get("opt:" + name)
    if o is None:
        params = [p for p in _net(ctx, name).model.parameters() if p.requires_grad]
        kind, lr = ctx.get("optspec:" + name, ("sgd", 0.05))
        if not params:
            return None
        if kind == "sgd":
            o = torch.optim.SGD(params, lr=lr, momentum=0.9)
        elif kind == "adam":
            o = torch.optim.Adam(params, lr=lr, foreach=False)
        elif kind == "adamw":
            o = torch.optim.AdamW(params, lr=lr, foreach=False)
        else:
            raise ValueError(kind)
        ctx["opt:" + name] = o
    return o


def build(ctx, name, spec, seed=None, nested=False):
    ctx["net:" + name] = B.build(spec, seed, nested)
    ctx.pop("opt:" + name, None)
    return B.state_hash(ctx["net:" + name].model)


def other(ctx, spec, seed, use=True):
    """unrelated activity which fills the caches: build another network, run it, drop it"""
    st = torch.get_rng_state()
    n = B.build(spec, seed)
    if seed % 2:
        _he(n.model, True)
    if use:
        n.model.eval()
        with torch.no_grad():
            n.model(B.data(n, seed, 1))
    torch.set_rng_state(st)
    return "ok"


def _he(model, cache):
    for m in model.modules():
        if isinstance(m, B.FILTERED):
            enn.init.generalized_he_init(m.weights.data, m.basisexpansion, cache=cache)


def opt(ctx, name, kind, lr):
    ctx["optspec:" + name] = (kind, lr)
    ctx.pop("opt:" + name, None)
    return "ok"


def loss(ctx, name, dseed, batch=2):
    n = _net(ctx, name)
    x = B.data(n, dseed, batch)
    return B.loss_of(n.model(x), dseed + 1)


def step(ctx, name, dseed, batch=2, clip=True):
    """one training step in training mode"""
    n = _net(ctx, name)
    n.model.train()
    o = _opt(ctx, name)
    if o is None:
        n.model(B.data(n, dseed, batch))
        return "nograd"
    o.zero_grad()
    l = loss(ctx, name, dseed, batch)
    if l.requires_grad:
        l.backward()
        if clip:
            torch.nn.utils.clip_grad_norm_([p for p in n.model.parameters() if p.grad is not None], 1.0, foreach=False)
        o.step()
    return [float(l).hex(), B.state_hash(n.model)]


def grads(ctx, name, dseed, batch=2):
    """gradients in training mode, by parameter name; statistics are left as they were"""
    n = _net(ctx, name)
    n.model.train()
    n.model.zero_grad()
    l = loss(ctx, name, dseed, batch)
    if l.requires_grad:
        l.backward()
    out = {k: (None if p.grad is None else p.grad.detach().clone()) for k, p in n.model.named_parameters()}
    n.model.zero_grad()
    return out


def mode(ctx, name, train, path=None):
    n = _net(ctx, name)
    m = n.model
    if path is not None:
        ms = [c for c in m.modules()]
        m = ms[path % len(ms)]
    m.train(train)
    return "ok"


def fwd(ctx, name, dseed, batch=2):
    n = _net(ctx, name)
    with torch.no_grad():
        return B.th(n.model(B.data(n, dseed, batch)).tensor)


def out(ctx, name, dseed, batch=2):
    n = _net(ctx, name)
    with torch.no_grad():
        return n.model(B.data(n, dseed, batch)).tensor.numpy()


def perturb(ctx, name, seed, scale=0.3):
    n = _net(ctx, name)
    n.model.train()
    B.perturb(n.model, seed, scale)
    return B.state_hash(n.model)


def checkpoint(n, o=None, rng=True):
    modes = [(m, m.training) for m in n.model.modules()]
    n.model.eval()
    d = {"model": strip(n.model.state_dict())}
    for m, t in modes:
        if isinstance(m, B.FILTERED):
            if t:
                m.train(t)
        else:
            m.training = t
    if o is not None:
        d["opt"] = copy.deepcopy(o.state_dict())
    if rng:
        d["rng"] = torch.get_rng_state()
    return d


def strip(sd):
    return {k: v.detach().clone() for k, v in sd.items()}


def save(ctx, name, path):
    """write a checkpoint the way the documentation says (state dict taken in eval mode), atomically"""
    n = _net(ctx, name)
    d = checkpoint(n, ctx.get("opt:" + name))
    torch.save(d, path + ".tmp")
    os.replace(path + ".tmp", path)
    return "ok"


def load(ctx, name, path, with_opt=True, rng=True):
    n = _net(ctx, name)
    d = torch.load(path)
    n.model.eval()
    n.model.load_state_dict(d["model"])
    if with_opt and "opt" in d and _opt(ctx, name) is not None:
        _opt(ctx, name).load_state_dict(d["opt"])
    if rng and "rng" in d:
        torch.set_rng_state(d["rng"])
    return "ok"


def snapshot(ctx, name, key):
    ctx["snap:" + key] = checkpoint(_net(ctx, name), rng=False)["model"]
    return "ok"


def restore(ctx, name, key):
    n = _net(ctx, name)
    n.model.eval()
    n.model.load_state_dict(ctx["snap:" + key])
    return "ok"


def clone(ctx, src, dst):
    """deep copy (only of a network in training mode: the cached filter of eval mode is part of a graph)"""
    n = _net(ctx, src)
    was = n.model.training
    n.model.train()
    c = copy.copy(n)
    c.model = copy.deepcopy(n.model)
    if not was:
        n.model.eval()
        c.model.eval()
    ctx["net:" + dst] = c
    ctx.pop("opt:" + dst, None)
    return B.state_hash(c.model)


def rng(ctx, seed):
    torch.manual_seed(seed)
    np.random.seed(seed % (2 ** 31))
    return "ok"


def has_dropout(n):
    return "drop" in n.kinds


def equi(ctx, name, seed, tol=2e-3, batch=2, most=None):
    """violations of equivariance of the network in its present mode (mode-dependent randomness excluded)"""
    n = _net(ctx, name)
    if not n.exact:
        return {}
    if any(m.training for m in n.model.modules()) and has_dropout(n):
        return {}
    xs = [B.data(n, seed * 7 + i, batch) for i in range(3)]
    training = any(m.training for m in n.model.modules())
    bufs = None
    if training:
        bufs = {k: b.detach().clone() for k, b in n.model.named_buffers()}

    def f(x):
        with torch.no_grad():
            y = n.model(x)
        if bufs is not None:
            for k, b in n.model.named_buffers():
                if k in bufs:
                    b.data.copy_(bufs[k])
        return y
    def some(es):
        # ``most``: a few of the elements, others each time
        return es if most is None or len(es) <= most else random.Random(seed).sample(es, most)
    bad = B.equi_violations(n, xs, f, tol, some(B.testable(n)))
    if n.pixelwise and not bad:
        bad = B.equi_violations(n, xs, f, tol, some(B.all_elements(n)))
    return bad


def outscale(ctx, name, seed):
    n = _net(ctx, name)
    with torch.no_grad():
        return float(n.model(B.data(n, seed)).tensor.abs().max())


def layout(ctx, name):
    return B.layout(_net(ctx, name).model)


def statehash(ctx, name):
    return B.state_hash(_net(ctx, name).model)


def kinds(ctx, name):
    return list(_net(ctx, name).kinds)


def rngstate(ctx):
    return B.th(torch.get_rng_state())


def fstep(ctx, name, dseed, batch=2):
    """a training step with other layers frozen in whatever mode they are (convolutions in training mode)"""
    n = _net(ctx, name)
    for m in n.model.modules():
        if isinstance(m, B.FILTERED):
            m.train()
    o = _opt(ctx, name)
    if o is None:
        return "nograd"
    o.zero_grad()
    l = loss(ctx, name, dseed, batch)
    if l.requires_grad:
        l.backward()
        torch.nn.utils.clip_grad_norm_([p for p in n.model.parameters() if p.grad is not None], 1.0, foreach=False)
        o.step()
    return float(l).hex()


def reinit(ctx, name, seed, cache=False):
    n = _net(ctx, name)
    n.model.train()
    st = torch.get_rng_state()
    torch.manual_seed(seed)
    for m in n.model.modules():
        if isinstance(m, (enn.R2Conv, enn.R2ConvTransposed)):
            enn.init.generalized_he_init(m.weights.data, m.basisexpansion, cache=cache)
            if m.bias is not None:
                m.bias.data.normal_()
    torch.set_rng_state(st)
    return B.state_hash(n.model, True)


def replace_data(ctx, name, seed):
    """parameters get new storage (as some optimisers and loaders do)"""
    n = _net(ctx, name)
    n.model.train()
    for _, p in sorted(n.model.named_parameters()):
        if p.requires_grad:
            p.data = p.data * 0.7 + torch.tensor(0.2 * np.random.RandomState(seed % 2 ** 31).randn(*p.shape), dtype=p.dtype)
    return B.state_hash(n.model, True)


def freeze(ctx, name, which):
    """fix some of the parameters (fine-tuning); others stay or become trainable"""
    n = _net(ctx, name)
    mine = ctx.setdefault("frozen:" + name, set())
    for i, (k, p) in enumerate(sorted(n.model.named_parameters())):
        leaf = k.split(".")[-1]
        if not p.requires_grad and k not in mine:
            continue    # a constant of the library, never trained
        mine.add(k)
        p.requires_grad_({"weights": leaf != "weights", "bias": leaf != "bias", "none": True, "half": (i * 7 + len(name)) % 3 != 0}[which])
    ctx.pop("opt:" + name, None)
    return sum(p.requires_grad for p in n.model.parameters())


def hold(ctx, name, t):
    """keep a result as a caller would"""
    ctx.setdefault("held:" + name, []).append((t, B.th(t)))
    del ctx["held:" + name][:-6]


def held(ctx, name):
    """results handed out earlier must not have changed"""
    return sum(B.th(t) != h for t, h in ctx.get("held:" + name, []))


def values(n):
    """learned state by name: parameters and buffers, without the filters cached by eval mode"""
    d = {}
    for k, v in list(n.model.named_parameters()) + list(n.model.named_buffers()):
        if k.split(".")[-1] in ("filter", "expanded_bias") and isinstance(_owner(n.model, k), B.FILTERED):
            continue
        d[k] = v.detach().clone()
    return d


def _owner(model, key):
    m = model
    for p in key.split(".")[:-1]:
        m = getattr(m, p)
    return m


def set_values(n, d):
    n.model.train()
    own = dict(list(n.model.named_parameters()) + list(n.model.named_buffers()))
    with torch.no_grad():
        for k, v in d.items():
            if k not in own:
                raise KeyError("no such parameter or buffer in the rebuilt network: " + k)
            if own[k].shape != v.shape:
                raise ValueError(f"shape of {k}: {tuple(own[k].shape)} vs {tuple(v.shape)}")
            own[k].copy_(v)
    missing = [k for k in own if k not in d]
    if missing:
        raise KeyError("no value for " + str(missing))


def twin(n, nested):
    """newly built network holding the same values; every filter is computed from the current parameters on the fly"""
    st = torch.get_rng_state()
    t = B.build(n.spec, 4711, nested)
    set_values(t, values(n))
    rg = {k: p.requires_grad for k, p in n.model.named_parameters()}
    for k, p in t.model.named_parameters():
        p.requires_grad_(rg[k])
    torch.set_rng_state(st)
    return t


def vs_twin(ctx, name, seed, nested, grad=True, tol=1e-4):
    """compare outputs (in the present modes) and gradients (in training mode) with those of a twin; None if equal"""
    n = _net(ctx, name)
    if held(ctx, name):
        return "a result returned by an earlier forward pass has changed"
    t = twin(n, nested)
    keep = values(n)
    st = torch.get_rng_state()
    ms, mt = list(n.model.modules()), list(t.model.modules())
    if [type(m).__name__ for m in ms] != [type(m).__name__ for m in mt]:
        return "modules of the rebuilt network differ"
    flags = [m.training for m in ms]
    for a, b in zip(ms, mt):
        b.training = True if isinstance(b, B.FILTERED) else a.training
    x = B.data(n, seed, 2 if any(flags) else 1 + seed % 2)      # PyTorch refuses to normalise one sample of one pixel in training mode
    hx = B.th(x.tensor)
    outs = []
    for m in (n.model, t.model):
        torch.manual_seed(99)
        with torch.no_grad():
            outs.append(m(x).tensor)
    res = None
    hold(ctx, name, outs[0])
    if B.th(x.tensor) != hx:
        res = "the input was modified"
    elif not close_dec(n, outs[0], outs[1], tol):
        res = f"outputs ({'eval' if not any(flags) else 'train' if all(flags) else 'mixed'} mode): " + B.diff(outs[0], outs[1])
    _reset(n, keep)
    _reset(t, keep)
    if res is None and grad and all(f for f, m in zip(flags, ms) if isinstance(m, B.FILTERED)):
        gs = []
        x = B.data(n, seed, 2)      # PyTorch's backward passes have defects for one sample in some memory formats
        for m in (n.model, t.model):
            torch.manual_seed(99)
            m.zero_grad()
            l = B.loss_of(m(x), seed + 1)
            if l.requires_grad:
                l.backward()
            gs.append({k: (None if p.grad is None else p.grad.clone()) for k, p in m.named_parameters()})
            m.zero_grad()
        for k in gs[0]:
            a, b = gs[0][k], gs[1].get(k)
            if (a is None) != (b is None) or (a is not None and not close_dec(n, a, b, 1e-3, max(float(v.abs().max()) for v in gs[0].values() if v is not None and v.numel()))):
                res = f"gradient of {k}: " + ("missing" if a is None or b is None else B.diff(a, b))
                break
        _reset(n, keep)
    torch.set_rng_state(st)
    return res


def close_dec(n, a, b, tol, scale=0.):
    if a.shape != b.shape:
        return False
    if not torch.isfinite(a).all() or not torch.isfinite(b).all():
        return bool((torch.isfinite(a) == torch.isfinite(b)).all())
    s = max(float(a.abs().max()), float(b.abs().max()), scale, 1e-3) if a.numel() else 1.
    return not a.numel() or float((a - b).abs().max()) <= tol * s


def _reset(n, keep):
    """undo the statistics updates of a forward pass in training mode"""
    with torch.no_grad():
        for k, b in n.model.named_buffers():
            if k in keep and not torch.equal(b, keep[k]):
                b.copy_(keep[k])


def allmodes(ctx, name):
    ms = [m.training for m in _net(ctx, name).model.modules()]
    return "train" if all(ms) else "eval" if not any(ms) else "mixed"


def abort(ctx, what, at, *args):
    """run an operation and abort it at the ``at``-th event by KeyboardInterrupt, as a user or a supervisor would"""
    from sim import seams
    r = seams.Injector(at, "KeyboardInterrupt").run(lambda: FN[what](ctx, *args))
    if r[0] == "error":
        raise RuntimeError("aborted operation failed otherwise: " + str(r[1:]))
    if what in ("mode", "step"):
        # the documented way out of a half-finished switch
        n = _net(ctx, args[0])
        n.model.train()
    return [r[0], r[1] if r[0] == "injected" else None]


FN = {f.__name__: f for f in [build, other, opt, step, mode, fwd, perturb, save, load, snapshot, restore, clone, rng, equi,
                              layout, statehash, kinds, rngstate, abort, fstep, reinit, replace_data, freeze]}


def ops(ctx, lst):
    from sim import isolate, expo  # they register their operations
    out = []
    for o in lst:
        out.append(FN[o[0]](ctx, *o[1:]))
    return out


# ---- whole state, across processes
def dump(ctx, name):
    """parameters and buffers by name (without cached filters) as arrays"""
    return {k: v.numpy() for k, v in values(_net(ctx, name)).items()}


def fill(ctx, name, d):
    set_values(_net(ctx, name), {k: torch.tensor(v) for k, v in d.items()})
    return "ok"


def predict(ctx, name, dseed, batch=2):
    """prediction in evaluation mode; modes are restored"""
    n = _net(ctx, name)
    modes = [(m, m.training) for m in n.model.modules()]
    n.model.eval()
    with torch.no_grad():
        y = n.model(B.data(n, dseed, batch)).tensor.numpy()
    for m, t in modes:
        if isinstance(m, B.FILTERED):
            if t:
                m.train(t)
        else:
            m.training = t
    return y


def crashstep(ctx, at, what, *args):
    """run an operation; the process dies at the ``at``-th event inside the library"""
    from sim import seams
    inj = seams.Injector(at)
    inj._fire = lambda frame, w: os._exit(9)
    r = inj.run(lambda: FN[what](ctx, *args))
    if r[0] == "error":
        raise RuntimeError(f"operation failed: {r[1:]}")
    return r[1]


def junk(ctx, seed):
    """perturb the heap: objects of random sizes, kept alive"""
    r = random.Random(seed)
    ctx.setdefault("junk", []).append([bytearray(r.randint(1, 5000)) for _ in range(r.randint(1, 2000))])
    return "ok"


for _f in [dump, fill, predict, junk, crashstep, out, grads]:
    FN[_f.__name__] = _f


# ---- data-parallel training (gradients and states travel by position, as with DistributedDataParallel)
def ddp_mode(ctx, name):
    """training mode with frozen statistics and no dropout, so that the gradient is a mean over samples"""
    n = _net(ctx, name)
    n.model.train()
    for m in n.model.modules():
        if isinstance(m, tuple(B.BN.values()) + (enn.FieldDropout, enn.PointwiseDropout)):
            m.eval()
    return "ok"


def ddp_grads(ctx, name, dseed, total, lo, hi):
    """gradients of the mean loss over samples lo..hi of a batch of ``total``, by position of the parameter"""
    n = _net(ctx, name)
    ddp_mode(ctx, name)
    n.model.zero_grad()
    x = B.data(n, dseed, total)
    y = n.model(GeometricTensor(x.tensor[lo:hi], x.type)).tensor
    w = np.random.RandomState((dseed + 1) % 2 ** 31).randn(total, *y.shape[1:])[lo:hi]
    l = ((y - torch.tensor(w, dtype=y.dtype)) ** 2).mean()
    if l.requires_grad:
        l.backward()
    gs = [None if p.grad is None else p.grad.numpy().copy() for p in n.model.parameters()]
    n.model.zero_grad()
    return float(l.detach()), gs


def ddp_apply(ctx, name, gs):
    n = _net(ctx, name)
    ps = list(n.model.parameters())
    if len(ps) != len(gs):
        raise ValueError(f"{len(ps)} parameters but {len(gs)} gradients")
    o = _opt(ctx, name)
    if o is None:
        return "nograd"
    o.zero_grad()
    for p, g in zip(ps, gs):
        if g is not None:
            if tuple(g.shape) != tuple(p.shape):
                raise ValueError(f"gradient of shape {g.shape} for a parameter of shape {tuple(p.shape)}")
            p.grad = torch.tensor(g)
    torch.nn.utils.clip_grad_norm_([p for p in ps if p.grad is not None], 1.0, foreach=False)
    o.step()
    return "ok"


def by_position(ctx, name):
    """parameters and buffers by position"""
    n = _net(ctx, name)
    n.model.train()
    o = ctx.get("opt:" + name)
    return [p.detach().numpy().copy() for p in n.model.parameters()], [b.detach().numpy().copy() for b in n.model.buffers()], None if o is None else copy.deepcopy(o.state_dict())


def set_by_position(ctx, name, ps, bs, od):
    n = _net(ctx, name)
    n.model.train()
    own = list(n.model.parameters()), list(n.model.buffers())
    for mine, theirs in zip(own, (ps, bs)):
        if [tuple(t.shape) for t in mine] != [tuple(a.shape) for a in theirs]:
            raise ValueError("shapes by position differ")
        with torch.no_grad():
            for t, a in zip(mine, theirs):
                t.copy_(torch.tensor(a))
    if od is not None and _opt(ctx, name) is not None:
        _opt(ctx, name).load_state_dict(od)
    return "ok"
