"""Objects held by the user while the shared groups and caches grow."""
import copy, gc
import numpy as np
import torch
from e2cnn import group, gspaces
import e2cnn.nn as enn
from e2cnn.nn import FieldType, GeometricTensor
from sim import build as B, objs
from sim.conc import UNIQUE


def _held(ctx):
    return ctx.setdefault("held", [])


def _main(o, q):
    return o[0] if q[0] in ("sub", "gsrestrict") else o


def get(ctx, q):
    o = objs.request(ctx, q)
    _held(ctx).append({"q": q, "o": o, "v": objs.view(o)})
    return len(_held(ctx))


def net(ctx, spec, nested):
    n = B.build(spec, 11, nested)
    twin = copy.deepcopy(n.model)
    twin.eval()
    n.model.eval()
    x = B.data(n, 5)
    with torch.no_grad():
        y = n.model(x).tensor.numpy().copy()
    ctx.setdefault("nets", []).append({"n": n, "x": x, "y": y, "twin": twin, "s": B.state_hash(n.model), "in": objs.view(n.in_type), "out": objs.view(n.out_type), "spec": spec})
    return n.kinds


def grow(ctx, q):
    objs.request(ctx, q)


def grownet(ctx, spec, seed):
    n = B.build(spec, seed)
    n.model.eval()
    with torch.no_grad():
        n.model(B.data(n, seed))


def collect(ctx):
    gc.collect()


def same_value(a, b):
    """description of the first difference of two views, or None"""
    if type(a) != type(b):
        return f"{type(a).__name__} became {type(b).__name__}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"keys {list(a)} became {list(b)}"
        for k in a:
            d = same_value(a[k], b[k])
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f"shape {a.shape} became {b.shape}"
        return None if np.allclose(a, b, atol=1e-7) else f"values changed by {np.abs(a - b).max():.3g}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{len(a)} entries became {len(b)}"
        for x, y in zip(a, b):
            d = same_value(x, y)
            if d:
                return d
        return None
    return None if a == b else f"{str(a)[:80]} became {str(b)[:80]}"


def check(ctx, tag=None):
    """every object obtained earlier -> description or None"""
    n = 0
    for h in _held(ctx):
        q, o = h["q"], h["o"]
        d = same_value(h["v"], objs.view(o))
        if d:
            return f"{q} obtained earlier changed: {d}", n
        again = objs.request(ctx, q)
        a, b = _main(o, q), _main(again, q)
        if q[0] in UNIQUE and a is not b:
            return f"asking again for {q} gives another object than the one obtained earlier", n
        if isinstance(a, (group.Group, gspaces.GSpace, FieldType, group.Representation)):
            if not (a == b) or a != b:
                return f"{q} obtained earlier and obtained now compare different", n
            if isinstance(a, FieldType) and hash(a) != hash(b):
                return f"{q} obtained earlier and obtained now compare equal but hash differently", n
        d = same_value(h["v"], objs.view(again))
        if d:
            return f"{q} obtained again differs from the one obtained earlier: {d}", n
        n += 1
    for e in ctx.get("nets", []):
        m = e["n"]
        m.model.eval()
        with torch.no_grad():
            y = m.model(e["x"]).tensor.numpy()
        if y.shape != e["y"].shape or np.abs(y - e["y"]).max() > 1e-5 * max(1e-3, np.abs(e["y"]).max()):
            return f"a network built earlier computes another function: {e['spec']}", n
        if B.state_hash(m.model) != e["s"]:
            return f"parameters or buffers of a network built earlier changed: {e['spec']}", n
        d = same_value(e["in"], objs.view(m.in_type)) or same_value(e["out"], objs.view(m.out_type))
        if d:
            return f"types of a network built earlier changed: {d}; {e['spec']}", n
        # a type built now with the same arguments is the type of the network
        t = B.ftype(B.gspace(e["spec"]["g"]), e["spec"]["in"], e["spec"]["g"])
        if t != m.in_type:
            return f"a type built now with the same arguments differs from the one built earlier: {e['spec']['g']} {e['spec']['in']}", n
        with torch.no_grad():
            z = m.model(GeometricTensor(e["x"].tensor, t)).tensor.numpy()
            c = e["twin"](GeometricTensor(e["x"].tensor, t)).tensor.numpy()
        if not np.array_equal(c, y):
            return f"a copy of a network made earlier computes another function: {e['spec']}", n
        if not np.array_equal(z, y):
            return f"a network built earlier treats a tensor of the type built now differently: {e['spec']}", n
        n += 1
    return None, n


def _reps(ctx):
    return [(h["q"], h["o"]) for h in _held(ctx) if isinstance(h["o"], group.Representation) and h["q"][1][0] in ("C", "D", "SO2", "O2")]


def interop(ctx, q1, sub):
    """a representation obtained now together with everything held of the same group"""
    new = objs.request(ctx, q1)
    G = objs.grp(q1[1])
    if new.group is not G:
        return f"{q1}: belongs to another instance of its group", 0
    n = 0
    for q, r in _reps(ctx):
        if r.group is not G:
            continue
        n += 1
        if not (r.group == new.group):
            return f"{q} and {q1}: groups compare different", n
        s = group.directsum([r, new])
        e = objs.els(G)[-1]
        k = r.size
        m = objs.arr(s(e))
        if np.abs(m[:k, :k] - objs.arr(r(e))).max() > 1e-6 or np.abs(m[k:, k:] - objs.arr(new(e))).max() > 1e-6 or np.abs(m[:k, k:]).max() > 1e-6:
            return f"direct sum of {q} (earlier) and {q1} (now) is wrong", n
        for i in list(r.irreps) + list(new.irreps):
            if i not in G.irreps:
                return f"irrep {i} of {q} or {q1} is not in the group", n
    # restriction of old and new representations to subgroups obtained earlier
    for h in _held(ctx):
        q = h["q"]
        if q[0] != "sub" or objs.grp(q[1]) is not G:
            continue
        H, up, down = h["o"]
        for name, r in [(q1, new)] + [x for x in _reps(ctx) if x[1].group is G][:3]:
            if r.size > 8:
                continue
            R = G.restrict_representation(B.tup(q[2]), r)
            n += 1
            if not (R.group == H):
                return f"restriction of {name} to the subgroup {q} obtained earlier lives on another group", n
            for e in objs.els(H)[:6]:
                if np.abs(objs.arr(R(e)) - objs.arr(r(up(e)))).max() > 1e-5:
                    return f"restriction of {name} to the subgroup {q} obtained earlier is wrong at {e}", n
            for i in R.irreps:
                if i not in H.irreps:
                    return f"restriction of {name} to {q}: irrep {i} is unknown to the subgroup obtained earlier", n
    return None, n


def layer(ctx, ga, gb, qa, qb, held, seed):
    """a layer between types mixing objects obtained earlier (if held here) and now; output for deterministic parameters"""
    def rep(q):
        if held:
            for h in _held(ctx):
                if h["q"] == q:
                    return h["o"]
        return objs.request(ctx, q)
    gsa, gsb = objs.gs_of(ctx, ga), B.gspace(gb)
    ra, rb = rep(qa), rep(qb)
    ta = FieldType(gsa, [ra, rb, gsa.trivial_repr])
    tb = FieldType(gsb, [rb, gsb.trivial_repr, ra, gsa.trivial_repr])
    m = enn.R2Conv(ta, tb, 3, padding=1, initialize=False)
    with torch.no_grad():
        for i, p in enumerate(m.parameters()):
            p.copy_(torch.tensor(np.random.RandomState(seed + i).randn(*p.shape), dtype=p.dtype))
    x = torch.tensor(np.random.RandomState(seed).randn(1, ta.size, 5, 5), dtype=torch.float32)
    net = enn.SequentialModule(m, enn.IdentityModule(tb))
    net.eval()
    with torch.no_grad():
        y = net(GeometricTensor(x, FieldType(gsb, [ra, rb, gsb.trivial_repr])))
    z = GeometricTensor(y.tensor, FieldType(gsa, tb.representations)) + y
    return {"y": y.tensor.numpy(), "z": z.tensor.numpy(), "names": [[k, list(p.shape)] for k, p in m.named_parameters()]}
