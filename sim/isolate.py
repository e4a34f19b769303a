"""Observations of a network that must not change when something else happens in the process, the things that may happen,
and what becomes of arguments the caller goes on using."""
import copy, gc
import numpy as np
import torch
from e2cnn import group
import e2cnn.nn as enn
from e2cnn.nn import FieldType, GeometricTensor
from sim import build as B, life, objs


def observe(ctx, name, seed, grads=True):
    """everything visible of a network, leaving no trace"""
    n = life._net(ctx, name)
    st = torch.get_rng_state()
    keep = life.values(n)
    ms = list(n.model.modules())
    o = {"state": [[k, B.th(v)] for k, v in list(n.model.named_parameters()) + list(n.model.named_buffers())],
         "flags": [m.training for m in ms], "dtypes": sorted({str(t.dtype) for t in list(n.model.parameters()) + list(n.model.buffers())}),
         "rg": [p.requires_grad for p in n.model.parameters()], "types": [str(n.model.in_type), str(n.model.out_type)],
         "hasgrad": [None if p.grad is None else B.th(p.grad) for p in n.model.parameters()], "basis": B.basis_ids(n.model)}
    torch.manual_seed(7)
    x = B.data(n, seed)
    hx = B.th(x.tensor)
    o["held"] = life.held(ctx, name)
    with torch.no_grad():
        y = n.model(x).tensor
        life.hold(ctx, name, y)
        o["out"] = y.numpy().copy()
        life._reset(n, keep)
        n.model(B.data(n, seed + 1))
    o["held"] += life.held(ctx, name)
    o["input"] = B.th(x.tensor) == hx
    life._reset(n, keep)
    if grads and all(m.training for m in ms if isinstance(m, B.FILTERED)):
        torch.manual_seed(7)
        ps = [(k, p) for k, p in n.model.named_parameters() if p.requires_grad]
        l = B.loss_of(n.model(x), seed + 1)
        if l.requires_grad and ps:
            g = torch.autograd.grad(l, [p for _, p in ps], allow_unused=True)
            o["grads"] = {k: (np.zeros(0) if v is None else v.numpy()) for (k, _), v in zip(ps, g)}
        life._reset(n, keep)
    torch.set_rng_state(st)
    return o


def export(ctx, name, key):
    """export what can be exported (the whole network or its exportable modules) and keep it"""
    n = life._net(ctx, name)
    n.model.eval()
    out = []
    for m in [n.model] + [c for c in n.model.modules() if isinstance(c, enn.EquivariantModule)]:
        try:
            out.append(m.export())
        except NotImplementedError:
            continue
    ctx["exp:" + key] = out
    return len(out)


def edit_exported(ctx, key, seed):
    k = 0
    for m in ctx.get("exp:" + key, []):
        scribble(m, seed)
        k += 1
    return k


def scribble(model, seed, floating_only=False):
    rs = np.random.RandomState(seed % 2 ** 31)
    with torch.no_grad():
        for _, t in list(model.named_parameters()) + list(model.named_buffers()):
            if t.is_floating_point():
                t.copy_(torch.tensor(rs.randn(*t.shape), dtype=t.dtype))
            elif not floating_only and t.numel():
                t.zero_()


def edit_all(ctx, name, seed):
    """overwrite all parameters and buffers in place"""
    scribble(life._net(ctx, name).model, seed)
    return "ok"


def edit_statedict(ctx, name, seed):
    n = life._net(ctx, name)
    rs = np.random.RandomState(seed % 2 ** 31)
    with torch.no_grad():
        for k, t in n.model.state_dict().items():
            if t.is_floating_point():
                t.copy_(torch.tensor(rs.randn(*t.shape), dtype=t.dtype))
    return "ok"


def edit_inner(ctx, name, seed):
    """overwrite tensors held by the network's modules as plain attributes"""
    n = life._net(ctx, name)
    rs = np.random.RandomState(seed % 2 ** 31)
    k = 0
    for m in n.model.modules():
        for a, t in sorted(vars(m).items()):
            if isinstance(t, torch.Tensor) and t.is_floating_point():
                with torch.no_grad():
                    t.copy_(torch.tensor(rs.randn(*t.shape), dtype=t.dtype))
                k += 1
    return k


def load_noise(ctx, name, seed):
    """load a state dict of other values (all entries, as a checkpoint of another training has)"""
    n = life._net(ctx, name)
    n.model.eval()
    rs = np.random.RandomState(seed % 2 ** 31)
    sd = {}
    for k, t in n.model.state_dict().items():
        sd[k] = torch.tensor(rs.randn(*t.shape), dtype=t.dtype) if t.is_floating_point() else t.clone()
        if "var" in k:
            sd[k] = sd[k].abs() + 0.1
    n.model.load_state_dict(sd)
    return "ok"


def load_other(ctx, name, seed):
    """load the checkpoint of another training of the same architecture"""
    n = life._net(ctx, name)
    st = torch.get_rng_state()
    t = life.twin(n, isinstance(next(iter(n.model.children())), enn.SequentialModule))
    B.perturb(t.model, seed, 0.5)
    t.model.train()
    with torch.no_grad():
        t.model(B.data(t, seed, 3))
    t.model.eval()
    n.model.eval()
    n.model.load_state_dict(life.strip(t.model.state_dict()))
    torch.set_rng_state(st)
    return "ok"


def dtype(ctx, name, which):
    n = life._net(ctx, name)
    n.model.train()
    {"double": n.model.double, "half": n.model.half, "bfloat16": n.model.bfloat16}[which]()
    return "ok"


def delete(ctx, name):
    for k in ("net:", "opt:"):
        ctx.pop(k + name, None)
    gc.collect()
    return "ok"


def freeze(ctx, name):
    life._net(ctx, name).model.requires_grad_(False)
    return "ok"


def backward(ctx, name, seed):
    """accumulate gradients and leave them there"""
    n = life._net(ctx, name)
    n.model.train()
    st = torch.get_rng_state()
    l = life.loss(ctx, name, seed)
    if l.requires_grad:
        l.backward()
    torch.set_rng_state(st)
    return "ok"


def reset(ctx, name, seed):
    n = life._net(ctx, name)
    n.model.train()
    st = torch.get_rng_state()
    torch.manual_seed(seed)
    for m in n.model.modules():
        for f in ("reset_parameters", "reset_running_stats"):
            if isinstance(m, enn.EquivariantModule) and hasattr(m, f):
                getattr(m, f)()
    torch.set_rng_state(st)
    return "ok"


def scribble_grad(ctx, name, seed):
    n = life._net(ctx, name)
    backward(ctx, name, seed)
    for p in n.model.parameters():
        if p.grad is not None:
            p.grad.fill_(float("nan"))
    return "ok"


def edit_info(ctx, name, seed):
    """take the descriptions of the learnable weights and edit what came back"""
    k = 0
    for m in life._net(ctx, name).model.modules():
        if isinstance(m, B.FILTERED):
            e = m.basisexpansion
            for i, a in enumerate(list(e.get_basis_info()) + [e.get_element_info(i) for i in range(min(e.dimension(), 8))]):
                a["id"] = f"edited{seed}_{i}"
                a["note"] = i
                a.pop("radius" if seed % 2 else "in_irrep_idx", None)
                k += 1
    return k


for _f in (edit_info, export, edit_exported, edit_all, edit_statedict, edit_inner, load_noise, load_other, dtype, delete, freeze, backward, reset, scribble_grad):
    life.FN["iso_" + _f.__name__] = _f


# ---- arguments
def _ruin(x, rs):
    """change an argument in place, as a caller reusing it for something else might"""
    if isinstance(x, list):
        c = rs.randint(3)
        if c == 0:
            x.reverse()
            x.append(x[0])
        elif c == 1:
            del x[:]
        else:
            x.extend(list(x))
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, np.ndarray):
        x[...] = 7.
    elif isinstance(x, torch.Tensor):
        with torch.no_grad():
            x.fill_(7.)


def _same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, torch.Tensor):
        return a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, (group.Representation, group.Group, enn.EquivariantModule, FieldType)):
        return a is b
    return a == b


def _shallow(x):
    if isinstance(x, list):
        return [_shallow(i) for i in x]
    if isinstance(x, dict):
        return {k: _shallow(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    return x


def mview(m, seed=3):
    """values of a module: its types and what it computes"""
    st = torch.get_rng_state()
    was = [(k, k.training) for k in m.modules()]
    t = m.in_type
    x = torch.tensor(np.random.RandomState(seed).randn(2, t.size, 7, 7), dtype=torch.float32)
    m.eval()
    with torch.no_grad():
        y = m(GeometricTensor(x, t))
    for k, f in was:
        if isinstance(k, B.FILTERED):
            k.train(f)
        else:
            k.training = f
    torch.set_rng_state(st)
    # and through a new computation of whatever is derived lazily
    return {"in": objs.view(t), "out": objs.view(m.out_type), "ytype": objs.view(y.type), "y": y.tensor.numpy().copy(),
            "shape": list(m.evaluate_output_shape((2, t.size, 7, 7)))}


def args_case(ctx, kind, spec, seed):
    """build something from mutable arguments, ruin the arguments, compare -> None or description"""
    rs = np.random.RandomState(seed % 2 ** 31)
    g = spec["g"]
    gs = B.gspace(g)
    t = B.ftype(gs, spec["in"], g)
    n = len(t)
    torch.manual_seed(seed)
    if kind == "type":
        args = [list(t.representations)]
        mk = lambda a: FieldType(gs, a[0])
        vw = objs.view
    elif kind == "shuffle":
        args = [[int(i) for i in rs.permutation(n)]]
        mk = lambda a: enn.ReshuffleModule(t, a[0])
        vw = mview
    elif kind == "multi":
        if n < 2:
            return "skip"
        labels = ["a"] + ["b"] * (n - 1)
        br = t.group_by_labels(list(labels))
        args = [labels, [(enn.IdentityModule(br[l]), l) for l in ("b", "a")]]
        mk = lambda a: enn.MultipleModule(t, a[0], a[1])
        vw = mview
    elif kind == "multi2":
        # one module which takes several of the labelled groups: the labels are lists
        if not B.supp(t, "gated"):
            return "skip"
        gt = FieldType(gs, [gs.trivial_repr] * n)
        full = FieldType(gs, [gs.trivial_repr] + list(gt.representations) + list(t.representations))
        names = ["gates", "gated"]
        one = enn.IdentityModule(FieldType(gs, [gs.trivial_repr]))
        args = [["rest"] + ["gates"] * n + ["gated"] * n, [(one, "rest"), (enn.GatedNonLinearity2((gt, t)), names)], names]
        mk = lambda a: enn.MultipleModule(full, a[0], a[1], reshuffle=seed % 2)
        vw = mview
    elif kind == "gated":
        if not B.supp(t, "gated"):
            return "skip"
        full = FieldType(gs, [gs.trivial_repr] * n + list(t.representations))
        args = [["gate"] * n + ["gated"] * n]
        mk = lambda a: enn.GatedNonLinearity1(full, gates=a[0])
        vw = mview
    elif kind == "conv":
        args = [[0., 1.], [0.6, 0.7]]
        mk = lambda a: enn.R2Conv(t, t, 3, padding=1, rings=a[0], sigma=a[1], frequencies_cutoff=2.)
        vw = mview
    elif kind == "convcut":
        args = [[0., 1.], {0.: 0, 1.: 2}]
        mk = lambda a: enn.R2Conv(t, t, 3, padding=1, rings=a[0], frequencies_cutoff=lambda r, d=dict(a[1]): d[r])
        vw = mview
    elif kind == "basis":
        args = [[0.6, 0.7], [0., 1.]]
        r = t.representations[0]
        mf = {} if g[0] in ("so2", "o2") else {"maximum_frequency": 2}
        mk = lambda a: gs.build_kernel_basis(r, r, sigma=a[0], rings=a[1], **mf)
        vw = objs.view
    elif kind == "dsum":
        rs_ = [r for r in t.representations]
        k = sum(r.size for r in rs_)
        q, _ = np.linalg.qr(rs.randn(k, k))
        args = [rs_, q]
        mk = lambda a: group.directsum(a[0], change_of_basis=a[1])
        vw = objs.view
    elif kind == "rep":
        G = gs.fibergroup
        ids = [nm for r in t.representations for nm in r.irreps]
        k = sum(G.irreps[i].size for i in ids)
        q, _ = np.linalg.qr(rs.randn(k, k))
        args = [ids, q, ["norm", "gated"]]
        mk = lambda a: group.Representation(G, "x%d" % seed, a[0], a[1], a[2], change_of_basis_inv=None)
        vw = objs.view
    elif kind == "labels":
        args = [["a"] + ["b"] * (n - 1)]
        mk = lambda a: t.group_by_labels(a[0])
        vw = lambda d: {k: objs.view(v) for k, v in d.items()}
    elif kind == "select":
        args = [[int(i) for i in rs.randint(0, n, 3)]]
        mk = lambda a: t.index_select(a[0])
        vw = objs.view
    elif kind == "split":
        args = [[1] if n > 1 else [], torch.tensor(rs.randn(1, t.size, 3, 3), dtype=torch.float32)]
        if n < 2:
            return "skip"
        mk = lambda a: GeometricTensor(a[1].clone(), t).split(a[0])
        vw = lambda l: {"t": [objs.view(x.type) for x in l], "v": [x.tensor.numpy().copy() for x in l]}
    elif kind == "cat":
        xs = [GeometricTensor(torch.tensor(rs.randn(1, t.size, 3, 3), dtype=torch.float32), t) for _ in range(2)]
        args = [xs]
        from e2cnn.nn import tensor_directsum
        mk = lambda a: tensor_directsum(a[0])
        vw = lambda x: {"t": objs.view(x.type), "v": x.tensor.numpy().copy()}
    elif kind == "dict":
        mods = {"a": enn.IdentityModule(t), "b": enn.ReshuffleModule(t, list(range(n)))}
        args = [mods]
        from collections import OrderedDict
        mk = lambda a: enn.SequentialModule(OrderedDict(a[0]))
        vw = mview
    elif kind == "list":
        args = [[enn.IdentityModule(t), enn.ReshuffleModule(t, list(range(n)))]]
        mk = lambda a: enn.SequentialModule(*a[0])
        vw = mview
    elif kind == "gspacesum":
        args = [[t, t]]
        mk = lambda a: a[0][0] + a[0][1]
        vw = objs.view
    elif kind == "mlist":
        args = [[enn.IdentityModule(t), enn.ReshuffleModule(t, list(range(n)))]]
        mk = lambda a: enn.ModuleList(a[0])
        vw = lambda m: {"n": len(m), "v": [mview(k) for k in m]}
    else:
        raise ValueError(kind)
    before = _shallow(args)
    try:
        o = mk(args)
    except ValueError as e:
        if "empty" in str(e):
            return "skip"
        raise
    if not _same(args, before):
        return f"{kind}: an argument was modified by the constructor"
    v = vw(o)
    if not _same(args, before):
        return f"{kind}: an argument was modified by using the object"
    for a in args:
        _ruin(a, rs)
    from sim.props.c05 import view_diff
    d = view_diff(v, vw(o))
    if d:
        return f"{kind}: the object changed when the caller edited the arguments afterwards: {d}"
    torch.manual_seed(seed)
    again = _shallow(before)
    if kind in ("multi", "multi2", "dict", "list", "mlist"):
        return None
    d = view_diff(v, vw(mk(again)))
    if d:
        return f"{kind}: the same call with the original arguments gives another object: {d}"
    return None


ARGS = ["type", "shuffle", "multi", "multi2", "gated", "conv", "basis", "dsum", "rep", "labels", "select", "split", "cat", "dict", "list", "mlist", "gspacesum"]


def tensors(ctx, spec, seed):
    """operations on geometric tensors leave their operands alone, results share nothing the operation does not say"""
    g = spec["g"]
    gs = B.gspace(g)
    t = B.ftype(gs, spec["in"], g)
    rs = np.random.RandomState(seed % 2 ** 31)
    mk = lambda: GeometricTensor(torch.tensor(rs.randn(2, t.size, 5, 5), dtype=torch.float32), t)
    x, y = mk(), mk()
    h = B.th(x.tensor), B.th(y.tensor)
    es = B.elements(g)
    e = es[seed % len(es)]
    fns = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * 2., "rmul": lambda: 3. * x, "fibers": lambda: x.transform_fibers(e),
           "restrict": lambda: x.restrict(B.restriction_ids(gs)[0]) if B.restriction_ids(gs) else None, "transform": lambda: x.transform(e) if B.grid_perm(B.plane_matrix(g, e), 5) is not None else None,
           "neg": lambda: -1. * x, "slice": lambda: x[0:1]}
    for k, f in sorted(fns.items()):
        try:
            f()
        except NotImplementedError:
            continue
        if (B.th(x.tensor), B.th(y.tensor)) != h:
            return f"operation {k} changed an operand"
    # in-place operations change only their left operand
    z = GeometricTensor(x.tensor.clone(), t)
    z += y
    z -= x
    z *= 2.
    if (B.th(x.tensor), B.th(y.tensor)) != h:
        return "an in-place operation changed another tensor"
    if not torch.allclose(z.tensor, 2 * y.tensor, atol=1e-4):
        return "in-place operations gave a wrong result"
    return None
