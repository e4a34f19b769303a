"""Threads of one simulated process under the deterministic scheduler."""
import random
import numpy as np
import torch
from e2cnn import group
from e2cnn.nn import FieldType, GeometricTensor
from sim import build as B, life, objs, sched

UNIQUE = {"group", "irrep", "byname", "triv", "reg", "quot", "ind", "sub", "irrepname"}


def touch(o, q):
    """use an object as soon as it was handed out: a partially built one shows here"""
    if q[0] in ("sub", "gsrestrict"):
        o = o[0]
    if isinstance(o, group.Representation):
        e = objs.els(o.group)
        m = objs.arr(o(e[len(e) // 2]))
        if m.shape != (o.size, o.size) or not len(o.irreps) or o.change_of_basis.shape != (o.size, o.size) or not np.isfinite(m).all():
            raise RuntimeError(f"incomplete representation {o.name}")
        if not np.isfinite(float(o.character(e[0]))):
            raise RuntimeError(f"incomplete representation {o.name}")
        for i in o.irreps:
            if o.group.irreps[i].size < 1:
                raise RuntimeError("irrep missing")
        o.supported_nonlinearities, o.irreducible, o.attributes
    elif isinstance(o, group.Group):
        o.identity, o.name, o.order()
        o.trivial_representation.size
        for i in list(o.irreps):
            o.irreps[i].size
    return "ok"


def freqask(q):
    """requests of SO(2)/O(2) irreps made through a reference obtained with a lower frequency"""
    return q


def worker(ctx, reqs, out):
    def f():
        for q in reqs:
            o = objs.request(ctx, q)
            touch(o, q)
            out.append(o)
        return len(out)
    return f


def pick(ctx, pseed, count, opcodes, rec, nsites):
    return sched.pick_preempts(random.Random(pseed), rec, nsites, count)


def _pre(ctx, pre):
    ctx["pre"] = []
    for q in pre:
        ctx["pre"].append((q, objs.request(ctx, q)))


def profile_objs(ctx, pre, threads, opcodes, pseed, count):
    _pre(ctx, pre)
    rec = {}
    s = sched.Scheduler(opcodes=opcodes, record=rec)
    r = s.run([worker(ctx, t, []) for t in threads])
    bad = [x for x in r if x[0] != "ok"]
    if bad:
        return {"bad": bad, "preempts": []}
    return {"bad": [], "preempts": pick(ctx, pseed, count, opcodes, rec, len(s.sites)), "steps": s.steps}


def run_objs(ctx, pre, threads, opcodes, preempts):
    _pre(ctx, pre)
    outs = [[] for _ in threads]
    s = sched.Scheduler(preempts, opcodes=opcodes)
    r = s.run([worker(ctx, t, o) for t, o in zip(threads, outs)])
    res = {"steps": s.steps, "switches": s.switches, "fired": s.fired, "contended": s.contended, "log": s.log[:400], "bad": None}
    if s.deadlock:
        res["bad"] = ["deadlock", f"threads {s.deadlock} wait for each other"]
    elif s.overrun:
        res["bad"] = ["progress", "no progress within the bound"]
    else:
        e = [x for x in r if x[0] != "ok"]
        if e:
            res["bad"] = ["exception", str(e[0][1:])[-1500:]]
    if res["bad"] is None:
        res["bad"] = uniqueness(ctx, ctx["pre"] + [(q, o) for t, out in zip(threads, outs) for q, o in zip(t, out)])
    if res["bad"] is None and any(l.locked() for l in sched.ALL_LOCKS):
        res["bad"] = ["lock", "a lock of the library is still held after all threads have ended"]
    return res


def key(q):
    return repr([q[0], q[1][0] if q[1][0] in ("SO2", "O2") else q[1]] + q[2:])


def uniqueness(ctx, pairs):
    seen = {}
    for q, o in pairs:
        if q[0] not in UNIQUE:
            continue
        k = key(q)
        o = o[0] if q[0] == "sub" else o
        if k in seen and seen[k] is not o:
            return ["identity", f"two callers asking for {q} got different objects"]
        seen[k] = o
    for q, o in pairs:
        if q[0] not in UNIQUE:
            continue
        o = o[0] if q[0] == "sub" else o
        p = objs.request(ctx, q)
        p = p[0] if q[0] == "sub" else p
        if p is not o:
            return ["identity", f"asking again for {q} gives another object than the one handed out"]
        G = objs.grp(q[1])
        if isinstance(o, group.Representation):
            if o.group is not G:
                return ["group", f"{q}: the representation belongs to another instance of the group"]
            if o.name in G.representations and G.representations[o.name] is not o:
                return ["registry", f"{q}: the group's registry holds another object under the name {o.name}"]
            if q[0] == "irrep" and G.irreps.get(o.name) is not o:
                return ["registry", f"{q}: the irrep is not in the group's registry"]
            for i in o.irreps:
                if i not in G.irreps or G.irreps[i].group is not G:
                    return ["registry", f"{q}: irrep {i} missing in the group"]
        if isinstance(o, group.Group) and q[0] == "group" and o is not G:
            return ["identity", f"{q}: not the shared group"]
    for q, o in pairs:
        G = objs.grp(q[1]) if q[0] in UNIQUE else None
        if G is None:
            continue
        for d in (G.irreps, G.representations):
            for nm, r in d.items():
                if r.name != nm or r.group is not G:
                    return ["registry", f"entry {nm} of {G} is inconsistent"]
        for nm, r in G.irreps.items():
            if G.representations.get(nm) is not r:
                return ["registry", f"irrep {nm} of {G} and the representation of this name differ"]
    return None


# ---- C08: networks
def det_values(n, seed):
    """values independent of the generator's state"""
    rs = np.random.RandomState(seed % 2 ** 31)
    d = {}
    for k, v in sorted(life.values(n).items()):
        leaf = k.split(".")[-1]
        own = life._owner(n.model, k)
        if k in dict(n.model.named_parameters()):
            d[k] = torch.tensor(0.5 * rs.randn(*v.shape), dtype=v.dtype)
    own = dict(n.model.named_parameters())
    n.model.train()
    with torch.no_grad():
        for k, v in d.items():
            own[k].copy_(v)


def act(ctx, o):
    """one operation of a thread -> comparable result"""
    k = o[0]
    if k == "build":
        n = B.build(o[1], None, o[3] if len(o) > 3 else False)
        lay = B.layout(n.model)
        det_values(n, o[2])
        n.model.eval()
        with torch.no_grad():
            return {"layout": lay, "y": n.model(B.data(n, o[2])).tensor.numpy(), "bufs": {k: v.numpy() for k, v in life.values(n).items()}}
    if k == "infer":
        n = life._net(ctx, o[1])
        with torch.no_grad():
            return {"y": n.model(B.data(n, o[2], o[3])).tensor.numpy()}
    if k == "ask":
        return objs.view(objs.request(ctx, o[1]))
    if k == "export":
        n = B.build(o[1], None)
        det_values(n, o[2])
        n.model.eval()
        try:
            m = n.model.export()
        except NotImplementedError:
            return {"y": "unsupported"}
        with torch.no_grad():
            return {"y": m(B.data(n, o[2]).tensor).numpy()}
    if k == "train":
        n = B.build(o[1], None)
        det_values(n, o[2])
        if "drop" in n.kinds:
            n.model.eval()
            n.model.train()
            for m in n.model.modules():
                if "Dropout" in type(m).__name__:
                    m.eval()
        ps = [p for p in n.model.parameters() if p.requires_grad]
        if ps:
            opt = torch.optim.SGD(ps, lr=0.01)
            for i in range(2):
                opt.zero_grad()
                l = B.loss_of(n.model(B.data(n, o[2] + i)), o[2])
                if l.requires_grad:
                    l.backward()
                    opt.step()
        n.model.eval()
        with torch.no_grad():
            return {"y": n.model(B.data(n, o[2])).tensor.numpy()}
    if k == "switch":
        # own network through modes
        n = life._net(ctx, o[1])
        n.model.train()
        n.model.eval()
        with torch.no_grad():
            return {"y": n.model(B.data(n, o[2])).tensor.numpy()}
    raise ValueError(k)


def shared(ctx, nets):
    for name, spec, seed in nets:
        torch.manual_seed(seed)
        n = B.build(spec, seed)
        det_values(n, seed)
        n.model.eval()
        ctx["net:" + name] = n
    # types and tensors shared between threads exist before
    return "ok"


def actor(ctx, lst, out):
    def f():
        for o in lst:
            out.append(act(ctx, o))
        return len(out)
    return f


def profile_acts(ctx, nets, threads, opcodes, pseed, count):
    shared(ctx, nets)
    rec = {}
    s = sched.Scheduler(opcodes=opcodes, record=rec, max_steps=6_000_000)
    r = s.run([actor(ctx, t, []) for t in threads])
    bad = [x for x in r if x[0] != "ok"]
    if bad:
        return {"bad": bad, "preempts": []}
    return {"bad": [], "preempts": pick(ctx, pseed, count, opcodes, rec, len(s.sites)), "steps": s.steps}


def run_acts(ctx, nets, threads, opcodes, preempts):
    shared(ctx, nets)
    outs = [[] for _ in threads]
    s = sched.Scheduler(preempts, opcodes=opcodes, max_steps=6_000_000)
    r = s.run([actor(ctx, t, o) for t, o in zip(threads, outs)])
    res = {"steps": s.steps, "switches": s.switches, "fired": s.fired, "contended": s.contended, "log": s.log[:400], "bad": None, "outs": None}
    if s.deadlock:
        res["bad"] = ["deadlock", f"threads {s.deadlock} wait for each other"]
    elif s.overrun:
        res["bad"] = ["progress", "no progress within the bound"]
    else:
        e = [x for x in r if x[0] != "ok"]
        if e:
            res["bad"] = ["exception", str(e[0][1:])[-1500:]]
    if res["bad"] is None:
        res["outs"] = outs
        if any(l.locked() for l in sched.ALL_LOCKS):
            res["bad"] = ["lock", "a lock of the library is still held after all threads have ended"]
    return res


def burst(ctx, nets, rounds):
    """many rounds of inference by several threads on shared networks in eval mode, each against its sequential results"""
    shared(ctx, nets)
    ref = {}
    tot = {"steps": 0, "switches": 0, "fired": 0, "contended": 0, "compared": 0, "logs": [], "bad": None}

    def infer(o):
        n = life._net(ctx, o[0])
        with torch.no_grad():
            return n.model(B.data(n, o[1], o[2])).tensor

    def job(lst, out):
        def f():
            for o in lst:
                out.append(infer(o))
            return len(out)
        return f
    for t in rounds:
        for o in (o for lst in t["threads"] for o in lst):
            if repr(o) not in ref:
                ref[repr(o)] = infer(o).clone()
    for i, t in enumerate(rounds):
        if t["preempts"] is None:
            rec = {}
            s = sched.Scheduler(record=rec)
            s.run([job(l, []) for l in t["threads"]])
            t["preempts"] = sched.pick_preempts(random.Random(t["pseed"]), rec, len(s.sites), t["count"])
        outs = [[] for _ in t["threads"]]
        s = sched.Scheduler(t["preempts"], opcodes=False)
        r = s.run([job(l, o) for l, o in zip(t["threads"], outs)])
        for k in ("steps", "switches", "fired", "contended"):
            tot[k] += getattr(s, k)
        tot["logs"].append(s.log[:60])
        e = [x for x in r if x[0] != "ok"]
        if s.deadlock or s.overrun:
            tot["bad"] = ["deadlock" if s.deadlock else "progress", "inference does not end"]
        elif e:
            tot["bad"] = ["exception", str(e[0][1:])[-1500:]]
        else:
            for l, out in zip(t["threads"], outs):
                for o, y in zip(l, out):
                    tot["compared"] += 1
                    if tot["bad"] is None and not B.close(y, ref[repr(o)]):
                        tot["bad"] = ["result", f"inference {o} run concurrently gives another result than alone: {B.diff(y, ref[repr(o)])}"]
        if tot["bad"]:
            tot["round"] = i
            tot["preempts"] = t["preempts"]
            break
    return tot


def seq_acts(ctx, nets, lst):
    """the same operations one after the other"""
    shared(ctx, nets)
    return [act(ctx, o) for o in lst]


def again(ctx, lst):
    return [act(ctx, o) for o in lst]
