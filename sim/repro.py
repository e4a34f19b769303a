"""Reproducibility: what a run computes, bit for bit, and how much randomness it draws."""
import hashlib, io, pickle, random, copy
import numpy as np
import torch
import e2cnn.nn as enn
from sim import build as B, life


def states():
    """states of all generators"""
    s = np.random.get_state()
    return [B.th(torch.get_rng_state()), hashlib.sha1(s[1].tobytes() + repr(s[2:]).encode()).hexdigest()[:12], hashlib.sha1(repr(random.getstate()).encode()).hexdigest()[:12]]


def seed_all(ctx, s):
    torch.manual_seed(s)
    np.random.seed(s % 2 ** 31)
    random.seed(s)
    return states()


def observe(ctx, name):
    """bits of the network: parameters and buffers by position and name"""
    n = life._net(ctx, name)
    return [[k, str(t.dtype), B.th(t)] for k, t in life.values(n).items()]


def build(ctx, name, spec, nested):
    ctx["net:" + name] = B.build(spec, None, nested)
    ctx.pop("opt:" + name, None)
    return observe(ctx, name)


def step(ctx, name, dseed, kind):
    ctx.setdefault("optspec:" + name, (kind, 0.05))
    return life.step(ctx, name, dseed)


def init(ctx, name, how):
    """initialise again with the library's methods, from the generator's present state"""
    n = life._net(ctx, name)
    n.model.train()
    k = 0
    for m in n.model.modules():
        if isinstance(m, (enn.R2Conv, enn.R2ConvTransposed)):
            if how == "delta":
                try:
                    enn.init.deltaorthonormal_init(m.weights.data, m.basisexpansion)
                except AssertionError:
                    continue  # only some types allow it
            else:
                enn.init.generalized_he_init(m.weights.data, m.basisexpansion, cache=how == "cache")
            k += 1
        elif how == "reset" and isinstance(m, tuple(B.BN.values())):
            m.reset_parameters()
            k += 1
    return [k, observe(ctx, name)]


def trainout(ctx, name, dseed):
    n = life._net(ctx, name)
    n.model.train()
    with torch.no_grad():
        return B.th(n.model(B.data(n, dseed)).tensor)


def evalout(ctx, name, dseed):
    n = life._net(ctx, name)
    n.model.eval()
    with torch.no_grad():
        return B.th(n.model(B.data(n, dseed)).tensor)


def quiet(ctx, what, name, arg):
    """bookkeeping which must draw no random numbers and change nothing -> description or None"""
    n = life._net(ctx, name)
    before, obs = states(), observe(ctx, name)
    flags = [m.training for m in n.model.modules()]
    if what == "eval":
        n.model.eval()
        with torch.no_grad():
            n.model(B.data(n, arg))
        if arg % 2:
            with torch.no_grad():
                n.model(B.data(n, arg + 1, 3))
    elif what == "modes":
        n.model.eval()
        n.model.train()
        n.model.train()
        n.model.eval()
    elif what == "save":
        d = life.checkpoint(n, ctx.get("opt:" + name))
        f = io.BytesIO()
        torch.save(d, f)
        f.seek(0)
        torch.load(f)
    elif what == "load":
        d = life.checkpoint(n, None)["model"]
        n.model.eval()
        n.model.load_state_dict(d)
    elif what == "text":
        str(n.model), repr(n.in_type), str(n.gs)
        for m in n.model.modules():
            if isinstance(m, enn.EquivariantModule) and hasattr(m, "extra_repr"):
                m.extra_repr()
            if hasattr(m, "basisexpansion"):
                list(m.basisexpansion.get_basis_info())
                m.basisexpansion.get_basis_names()
    elif what == "shape":
        try:
            n.model.evaluate_output_shape((2, n.in_type.size, n.size, n.size + n.rect))
        except Exception:
            pass  # which options it supports is another property (C21)
    elif what == "copy":
        n.model.train()
        copy.deepcopy(n.model)
    elif what == "objects":
        from sim import objs
        for q in arg:
            objs.tryask(ctx, q)
    elif what == "transform":
        x = B.data(n, arg)
        es = B.elements(n.spec["g"])
        x.transform_fibers(es[arg % len(es)])
    elif what == "gradfree":
        n.model.zero_grad()
        list(n.model.parameters()), list(n.model.buffers()), n.model.state_dict()
    elif what == "inittypes":
        from e2cnn.nn import FieldType
        t = n.in_type
        FieldType(t.gspace, list(t.representations)) + t
        t.restrict(B.restriction_ids(t.gspace)[0]) if B.restriction_ids(t.gspace) else None
    else:
        raise ValueError(what)
    # as they were: convolutions through train(), which discards or computes the filter
    for m, f in zip(n.model.modules(), flags):
        if isinstance(m, B.FILTERED):
            m.train(f)
        else:
            m.training = f
    after = states()
    if before != after:
        return f"{what} drew random numbers ({[k for k, a, b in zip(('torch', 'numpy', 'random'), before, after) if a != b]})"
    now = observe(ctx, name)
    if obs != now:
        return f"{what} changed {[a[0] for a, b in zip(obs, now) if a != b][:3]}"
    return None


def now(ctx):
    return states()
