"""Exported modules: what they compute, what they share, how they travel."""
import copy, io, pickle
import numpy as np
import torch
import e2cnn.nn as enn
from e2cnn.nn import GeometricTensor
from sim import build as B, life

# modules which their documentation says can always be exported
ALWAYS = (enn.R2Conv, enn.R2ConvTransposed, enn.R2Diffop, enn.ReLU, enn.ELU, enn.PointwiseMaxPool, enn.PointwiseMaxPoolAntialiased,
          enn.PointwiseAdaptiveMaxPool, enn.PointwiseAdaptiveAvgPool, enn.PointwiseDropout, enn.R2Upsampling, enn.IdentityModule, enn.RestrictionModule)


def refusal(m):
    """is refusing to export this module documented?"""
    if isinstance(m, enn.SequentialModule):
        return any(refusal(c) for c in m.children())
    if isinstance(m, enn.GroupPooling):
        return len({r.size for r in m.in_type.representations}) > 1
    if isinstance(m, enn.InnerBatchNorm):
        ss = [r.size for r in m.in_type.representations]
        blocks = [s for i, s in enumerate(ss) if not i or ss[i - 1] != s]
        return len(blocks) != len(set(blocks)) or not m.track_running_stats
    return not isinstance(m, ALWAYS)


def parts(n):
    """(index, module): the whole network if it can be exported, otherwise all modules which can"""
    ms = list(n.model.modules())
    if not refusal(n.model):
        return [(0, n.model)]
    return [(i, m) for i, m in enumerate(ms) if isinstance(m, enn.EquivariantModule) and not refusal(m)]


def plan(ctx, name):
    n = life._net(ctx, name)
    return [[i, type(m).__name__] for i, m in parts(n)]


def refused(ctx, name):
    """modules that are not supported must refuse rather than export something else -> list of those that did not"""
    n = life._net(ctx, name)
    bad = []
    for m in n.model.modules():
        if isinstance(m, (enn.InnerBatchNorm, enn.GroupPooling)) and refusal(m):
            try:
                e = m.export()
            except (NotImplementedError, ValueError):
                continue
            # a better export is welcome: then it has to be right
            x = torch.tensor(np.random.RandomState(3).randn(2, m.in_type.size, 5, 5), dtype=torch.float32)
            with torch.no_grad():
                if not B.close(m(GeometricTensor(x, m.in_type)).tensor, e(x)):
                    bad.append(str(m))
    return bad


def inputs(ctx, name, key, seed, batches):
    """inputs for every exported part: inputs of the network, or what reaches the part in eval mode"""
    n = life._net(ctx, name)
    n.model.eval()
    out = {}
    for b in batches:
        got = {}
        hs = []
        for i, m in parts(n):
            hs.append(m.register_forward_pre_hook(lambda mod, a, i=i: got.__setitem__(i, a[0].tensor.detach().clone())))
        with torch.no_grad():
            n.model(B.data(n, seed + b, b))
        for h in hs:
            h.remove()
        for i in got:
            out.setdefault(i, []).append(got[i])
    ctx["expin:" + key] = out
    return sorted(out)


def export(ctx, name, key):
    n = life._net(ctx, name)
    out, still = {}, []
    for i, m in parts(n):
        out[i] = m.export()
        if m.training:
            still.append(type(m).__name__)
    ctx["exp:" + key] = out
    bad = [type(m).__module__ for e in out.values() for m in e.modules() if isinstance(m, enn.EquivariantModule)]
    return {"n": len(out), "wrapped": bad, "eval": not still and (0 not in out or not any(m.training for m in n.model.modules())),
            "active": sorted({type(m).__name__ for e in out.values() for m in e.modules() if m.training and isinstance(m, (torch.nn.modules.batchnorm._BatchNorm, torch.nn.modules.dropout._DropoutNd))})}


def run(mod, x):
    st = torch.get_rng_state()
    with torch.no_grad():
        h = B.th(x)
        inp = x.clone()
        y = mod(inp)
    torch.set_rng_state(st)
    return y


def outs(ctx, key):
    return {i: [run(e, x).numpy().copy() for x in ctx["expin:" + key][i]] for i, e in ctx["exp:" + key].items() if i in ctx["expin:" + key]}


def doubled(ctx, key):
    """a plain PyTorch module can be copied and moved to another precision"""
    return {i: [run(copy.deepcopy(e).double(), x.double()).numpy() for x in ctx["expin:" + key][i]] for i, e in ctx["exp:" + key].items() if i in ctx["expin:" + key]}


def orig(ctx, name, key):
    n = life._net(ctx, name)
    res = {}
    for i, m in parts(n):
        if i not in ctx["expin:" + key]:
            continue
        res[i] = []
        for x in ctx["expin:" + key][i]:
            with torch.no_grad():
                res[i].append(m(GeometricTensor(x.clone(), m.in_type)).tensor.numpy().copy())
    return res


def saved(ctx, key, path, how):
    exp = ctx["exp:" + key]
    if how == "module":
        torch.save((exp, ctx["expin:" + key]), path)
    elif how == "pickle":
        with open(path, "wb") as f:
            pickle.dump((exp, ctx["expin:" + key]), f)
    else:
        torch.save(({i: e.state_dict() for i, e in exp.items()}, ctx["expin:" + key]), path)
    return "ok"


def loaded(ctx, key, path, how):
    """in another process; for state dicts an exported network of other parameters is waiting under ``key``"""
    if how == "pickle":
        with open(path, "rb") as f:
            exp, inp = pickle.load(f)
    elif how == "module":
        exp, inp = torch.load(path, weights_only=False)
    else:
        sds, inp = torch.load(path)
        exp = ctx["exp:" + key]
        for i in sds:
            exp[i].load_state_dict(sds[i])
    ctx["exp:" + key], ctx["expin:" + key] = exp, inp
    return "ok"


def copied(ctx, key, dst):
    ctx["exp:" + dst] = copy.deepcopy(ctx["exp:" + key])
    ctx["expin:" + dst] = ctx["expin:" + key]
    return "ok"


def edit(ctx, key, what, seed):
    from sim import isolate
    exp = ctx["exp:" + key]
    for i in sorted(exp):
        e = exp[i]
        if what == "scribble":
            isolate.scribble(e, seed)
            for m in e.modules():
                for v in vars(m).values():
                    if isinstance(v, torch.Tensor) and v.is_floating_point():
                        with torch.no_grad():
                            v.add_(1.)
        elif what == "train":
            e.train()
            ps = [p for p in e.parameters()]
            if ps and i in ctx["expin:" + key]:
                o = torch.optim.SGD(ps, lr=0.5)
                st = torch.get_rng_state()
                y = e(torch.cat([ctx["expin:" + key][i][-1]] * 2))
                if y.requires_grad:
                    y.pow(2).mean().backward()
                    o.step()
                torch.set_rng_state(st)
            e.eval()
        elif what == "double":
            e.double()
        elif what == "settings":
            for m in e.modules():
                for a in ("padding", "stride", "eps", "momentum", "p", "alpha"):
                    if isinstance(getattr(m, a, None), (int, float)) and not isinstance(m, torch.nn.Sequential):
                        setattr(m, a, 0.25 if a in ("eps", "momentum", "p", "alpha") else 1)
        elif what == "freeze":
            e.requires_grad_(False)
    return len(exp)


def rest(ctx, name):
    """state of the network other than cached filters: values by hash, requires_grad, gradients, types"""
    n = life._net(ctx, name)
    v = life.values(n)
    return [[k, B.th(t)] for k, t in v.items()], [p.requires_grad for p in n.model.parameters()], \
        [None if p.grad is None else B.th(p.grad) for p in n.model.parameters()], str(n.model)


def abort_export(ctx, name, at, exc):
    from sim import seams
    n = life._net(ctx, name)
    r = seams.Injector(at, exc).run(lambda: [m.export() for _, m in parts(n)])
    if r[0] == "error":
        raise RuntimeError("export failed: " + str(r[1:]))
    if r[0] == "injected":
        n.model.train()
        return "injected"
    return r[0]


for _f in (export, edit):
    life.FN["exp_" + _f.__name__] = _f
