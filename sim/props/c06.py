"""C06: networks in one process do not affect each other."""
import json
from sim import zoo
from sim.props.common import count, differs, dict_differs

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["ops", "spec.layers", "args"]
RULE = "distinct (layer kinds, sequence of operations on one network) after which the other networks, and a network built afterwards, were compared"
COMPONENTS = {"real": ["e2cnn and PyTorch"], "stub": ["none; the schedule of operations on the networks of the process comes from the seed"]}
ASSUMPTIONS = ["float32 on CPU, one thread", "parameters, buffers, modes, dtypes and gradients of bystanders must be bitwise unchanged, their outputs within 1e-5"]
LAY = ["conv", "conv", "conv", "tconv", "diffop", "bn", "nonlin", "nonlin", "nonlin", "pool", "drop", "shuf", "dis", "restrict", "up", "mask", "multi", "gpool"]
DEADLY = {"iso_edit_all", "iso_edit_statedict", "iso_edit_inner", "iso_dtype", "iso_delete", "iso_load_noise"}


def gen(rng, tier):
    spec = zoo.trainable(zoo.model_spec(rng, small=rng.random() < 0.75, layers=LAY) if rng.random() < 0.8 else zoo.focus_spec(rng))
    k = rng.randint(2, 4)
    nets = []
    for i in range(k):
        c = rng.random()
        nets.append([f"m{i}", None if c < 0.75 else zoo.mutate(rng, spec), rng.randint(0, 999), rng.random() < 0.3, rng.random() < 0.5])
    names = [n[0] for n in nets]
    ops = []
    for _ in range(rng.randint(2, 7)):
        n = rng.choice(names)
        s = rng.randint(0, 10 ** 6)
        c = rng.random()
        if c < 0.10:
            ops.append(["step", n, s])
        elif c < 0.16:
            ops.append(["mode", n, rng.random() < 0.5])
        elif c < 0.20:
            ops.append(["mode", n, rng.random() < 0.5, rng.randint(0, 40)])
        elif c < 0.25:
            ops.append(["perturb", n, s, 0.5])
        elif c < 0.33:
            ops.append(["iso_load_noise", n, s])
        elif c < 0.41:
            ops.append(["iso_export", n, n])
        elif c < 0.48:
            ops.append(["iso_edit_exported", n, s])
        elif c < 0.58:
            ops.append(["iso_edit_all", n, s])
        elif c < 0.62:
            ops.append(["iso_edit_statedict", n, s])
        elif c < 0.68:
            ops.append(["iso_edit_inner", n, s])
        elif c < 0.76:
            ops.append(["iso_dtype", n, rng.choice(["double", "half", "double"])])
        elif c < 0.81:
            ops.append(["iso_delete", n])
        elif c < 0.84:
            ops.append(["iso_freeze", n])
        elif c < 0.88:
            ops.append(["iso_backward", n, s])
        elif c < 0.92:
            ops.append(["iso_reset", n, s])
        elif c < 0.95:
            ops.append(["clone", n, n + "c"])
        elif c < 0.965:
            ops.append(["iso_edit_info", n, s])
        elif c < 0.98:
            ops.append(["other", zoo.mutate(rng, spec), s % 1000])
        else:
            ops.append(["replace_data", n, s])
    kinds = ["type", "shuffle", "multi", "multi2", "gated", "conv", "basis", "dsum", "rep", "labels", "select", "split", "cat", "dict", "list", "mlist", "gspacesum"]
    args = [[rng.choice(kinds), rng.randint(0, 10 ** 6)] for _ in range(rng.randint(0, 3))]
    return {"spec": spec, "nets": nets, "ops": ops, "args": args, "tensors": rng.random() < 0.3, "h": rng.randint(0, 1), "cold": rng.random() < 0.6}


def compare(a, b):
    for k in ("state", "flags", "dtypes", "rg", "types", "hasgrad", "basis"):
        if a[k] != b[k]:
            if k == "state":
                w = [x[0] for x, y in zip(a[k], b[k]) if x != y][:3] or "set of names"
                return f"parameters or buffers {w} changed"
            return {"flags": "training flags", "dtypes": "dtypes", "rg": "requires_grad flags", "types": "types", "hasgrad": "gradients", "basis": "the description of the filters' weights"}[k] + " changed"
    d = differs(a["out"], b["out"], 1e-5)
    if d:
        return "output changed: " + d
    if ("grads" in a) != ("grads" in b):
        return "gradients appeared or disappeared"
    if "grads" in a:
        s = max([float(abs(v).max()) for v in a["grads"].values() if v.size] or [1.])
        d = dict_differs(a["grads"], b["grads"], 1e-4, max(s, 1e-3))
        if d:
            return "gradient of the bystander changed: " + d
    return None


def direct(plan, env, rec):
    from sim.engine import Violation
    inc = env.spawn(plan["h"])
    alive = {}
    for name, sp, seed, nested, ev in plan["nets"]:
        inc.call("life", "build", name, sp or plan["spec"], seed, nested)
        if ev:
            inc.call("life", "ops", [["mode", name, False]])
        alive[name] = None
    for n in alive:
        alive[n] = inc.call("isolate", "observe", n, 5)
        if not alive[n]["input"]:
            raise Violation("input", f"a forward pass changed its input; spec {json.dumps(plan['spec'])}")
    done = []
    for o in plan["ops"]:
        n = o[1] if isinstance(o[1], str) else None
        if n is not None and n not in alive and not (o[0] == "iso_edit_exported"):
            continue
        r = inc.call("life", "ops", [o])[0]
        done.append(o[0])
        rec["events"].append([o[0], str(r)])
        count(rec, "stats", "operations")
        if o[0] == "clone":
            alive[o[2]] = None
        if o[0] in DEADLY:
            alive.pop(n, None)
            count(rec, "faults", o[0][4:])
        for m in sorted(alive):
            new = inc.call("isolate", "observe", m, 5)
            if new["held"]:
                raise Violation("result", f"a result returned by an earlier forward pass of network {m} changed during {o[0]} on {n}; spec {json.dumps(plan['spec'])}")
            if m != n and not (o[0] == "clone" and m == o[2]) and alive[m] is not None:
                d = compare(alive[m], new)
                if d:
                    raise Violation("influence", f"{o[0]} on network {n} changed network {m}: {d}; nets {json.dumps(plan['nets'])} spec {json.dumps(plan['spec'])}")
                count(rec, "stats", "bystanders_compared")
            elif m == n and o[0] in ("iso_export", "iso_edit_exported"):
                # exporting leaves the original alone except for eval mode; edits of the exported module never reach it
                if o[0] == "iso_edit_exported" and alive[m] is not None:
                    d = compare(alive[m], new)
                    if d:
                        raise Violation("influence", f"editing the exported module changed the network: {d}; spec {json.dumps(plan['spec'])}")
            alive[m] = new
    for k, s in plan["args"]:
        r = inc.call("isolate", "args_case", k, plan["spec"], s)
        rec["events"].append([k, r])
        if r not in (None, "skip"):
            raise Violation("arguments", f"{r}; seed {s} spec {json.dumps(plan['spec'])}")
        if r is None:
            count(rec, "stats", "argument_cases")
            rec["measures"].append(json.dumps([k, plan["spec"]["g"], plan["spec"]["in"]]))
    if plan["tensors"]:
        r = inc.call("isolate", "tensors", plan["spec"], plan["nets"][0][2])
        if r is not None:
            raise Violation("tensors", f"{r}; spec {json.dumps(plan['spec'])}")
    if plan["cold"]:
        cold = env.spawn(0)
        for p in (inc, cold):
            p.call("life", "build", "z", plan["spec"], 17, False)
        d = dict_differs(inc.call("life", "dump", "z"), cold.call("life", "dump", "z"), 1e-5) or differs(inc.call("life", "predict", "z", 4), cold.call("life", "predict", "z", 4), 1e-4)
        if d:
            raise Violation("later", f"a network built after {done} differs from one built in a new process: {d}; spec {json.dumps(plan['spec'])}")
        count(rec, "stats", "later_networks_compared")
    rec["measures"].append(json.dumps([[l[0] for l in plan["spec"]["layers"]], plan["spec"]["g"], done]))
