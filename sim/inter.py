"""Interrupted operations: what they leave behind in the process."""
import gc, os, sys, threading, warnings
import numpy as np
import torch
from e2cnn import group
import e2cnn.nn as enn
from sim import build as B, life, objs, sched, seams


def settings():
    """process-wide settings a library has to leave alone"""
    po = {k: str(v) for k, v in sorted(np.get_printoptions().items())}
    return {"stdout": sys.stdout is sys.__stdout__, "stderr": sys.stderr is sys.__stderr__, "printoptions": po, "seterr": sorted(np.geterr().items()),
            "dtype": str(torch.get_default_dtype()), "grad": torch.is_grad_enabled(), "inference": torch.is_inference_mode_enabled(),
            "det": torch.are_deterministic_algorithms_enabled(), "threads": torch.get_num_threads(), "recursion": sys.getrecursionlimit(),
            "tprint": str(torch._tensor_str.PRINT_OPTS), "cwd": os.getcwd(), "locks": [l.locked() for l in sched.ALL_LOCKS].count(True),
            "running": threading.active_count(), "warn": len(warnings.filters), "hooks": [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__],
            "gc": gc.isenabled(), "anomaly": torch.is_anomaly_enabled(), "switch": sys.getswitchinterval()}


def perform(ctx, op, slot):
    """one operation; its result is kept under ``slot``"""
    k = op[0]
    if k == "req":
        ctx["slot:" + slot] = objs.request(ctx, op[1])
    elif k == "net":
        ctx["net:" + slot] = B.build(op[1], op[2], op[3])
        ctx["slot:" + slot] = None
    elif k == "fwd":
        n = life._net(ctx, op[1])
        with torch.no_grad():
            ctx["slot:" + slot] = n.model(B.data(n, op[2]))
    elif k == "eval":
        life._net(ctx, op[1]).model.eval()
    elif k == "export":
        from sim import expo
        n = life._net(ctx, op[1])
        ctx["slot:" + slot] = [m.export() for _, m in expo.parts(n)]
    elif k == "init":
        n = life._net(ctx, op[1])
        st = torch.get_rng_state()
        torch.manual_seed(op[2])
        try:
            for m in n.model.modules():
                if isinstance(m, (enn.R2Conv, enn.R2ConvTransposed)):
                    enn.init.generalized_he_init(m.weights.data, m.basisexpansion, cache=op[3])
        finally:
            torch.set_rng_state(st)
    else:
        raise ValueError(k)
    return "ok"


def value(ctx, op, slot):
    """result of a performed operation as plain data"""
    k = op[0]
    if k == "req":
        return objs.view(ctx["slot:" + slot])
    if k == "net":
        return {"values": life.dump(ctx, slot), "y": life.predict(ctx, slot, 3)}
    if k == "fwd":
        return {"y": ctx["slot:" + slot].tensor.numpy().copy(), "t": str(ctx["slot:" + slot].type)}
    if k == "eval":
        return {"y": life.out(ctx, op[1], 5)}
    if k == "export":
        return {"n": len(ctx["slot:" + slot]), "p": [p.detach().numpy().copy() for e in ctx["slot:" + slot] for p in e.parameters()]}
    if k == "init":
        return {"values": life.dump(ctx, op[1])}


def prepare(ctx, op):
    if op[0] == "fwd":
        life._net(ctx, op[1]).model.eval()
    elif op[0] in ("eval", "export", "init"):
        life._net(ctx, op[1]).model.train()


def undisturbed(ctx, op, slot, lines):
    """perform, counting the points where the operation could have been interrupted"""
    prepare(ctx, op)
    inj = seams.Injector(None, lines=lines)
    r = inj.run(lambda: perform(ctx, op, slot))
    if r[0] != "done":
        return {"refused": r[1], "text": r[2], "n": inj.n, "marks": inj.marks()}
    return {"refused": None, "n": inj.n, "marks": inj.marks(), "value": value(ctx, op, slot)}


def interrupted(ctx, op, slot, at, exc, lines):
    prepare(ctx, op)
    before = settings()
    inj = seams.Injector(at, exc, lines=lines)
    r = inj.run(lambda: perform(ctx, op, slot))
    gc.collect()
    after = settings()
    return {"how": r[0] if r[0] != "error" else r[1], "site": list(inj.site) if inj.site else None,
            "settings": [f"{k}: {before[k]} -> {after[k]}" for k in before if before[k] != after[k]]}


def retry(ctx, op, slot):
    prepare(ctx, op)
    before = settings()
    try:
        perform(ctx, op, slot)
    except Exception as e:
        import traceback
        return {"refused": type(e).__name__, "text": str(e)[:300], "tb": traceback.format_exc()[-1500:]}
    after = settings()
    return {"refused": None, "value": value(ctx, op, slot), "settings": [f"{k}: {before[k]} -> {after[k]}" for k in before if before[k] != after[k]]}


def audit(ctx, groups):
    """every representation the shared groups hold is complete and a representation -> None or description"""
    for G in groups:
        g = objs.grp(G)
        if g.order() < 0:
            have = {r.attributes["frequency"] for r in g.irreps.values()}
            if not set(range(G[1] + 1)) <= have:
                return f"{g.name}, asked for with maximum frequency {G[1]}, holds the frequencies {sorted(have)}"
        for name, r in list(g.representations.items()):
            try:
                if r.name != name:
                    return f"{g.name} holds {r.name} under the name {name}"
                v = objs.view(r)
            except Exception as e:
                return f"{g.name} holds a broken representation {name}: {type(e).__name__} {e}"
            es = objs.els(g)
            a, b = es[len(es) // 2], es[-1]
            if np.abs(objs.arr(r(a)) @ objs.arr(r(b)) - objs.arr(r(g.combine(a, b)))).max() > 1e-6:
                return f"{g.name}: {name} is not a representation"
            for i in r.irreps:
                if i not in g.irreps:
                    return f"{g.name}: {name} refers to the irrep {i} which the group does not have"
        for name, r in list(g.irreps.items()):
            if g.representations.get(name) is not r:
                return f"{g.name}: irrep {name} is missing among the representations"
    return None
