"""C11: exported networks are faithful and independent snapshots."""
import json, os
from sim import zoo
from sim.props.common import count, differs, pollution

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["ops", "spec.layers"]
RULE = "distinct (layer kinds and options of the exported parts, history before and after export) whose exported function was compared"
COMPONENTS = {"real": ["e2cnn and PyTorch, files on tmpfs"], "stub": ["process restarts, aborts and the history of operations come from the seed"]}
ASSUMPTIONS = ["float32 on CPU; tolerance 1e-4 of the output's scale; later outputs of the exported module must be bitwise the same"]
LAY = ["conv", "conv", "conv", "tconv", "diffop", "bn", "bn", "nonlin", "nonlin", "pool", "pool", "drop", "restrict", "up", "gpool", "idt", "mask"]


def spec_(rng):
    g = zoo.gspace_spec(rng, rng.random() < 0.6)
    kinds = ["reg", "triv", "quot"] if rng.random() < 0.75 else None
    n = rng.randint(1, 5)
    s = {"g": g, "in": zoo.type_spec(rng, g, 12, 3, kinds), "size": rng.choice([5, 7, 8, 9]), "rect": rng.choice([0, 0, 2, 1]), "layers": []}
    for _ in range(n):
        l = zoo.layer_spec(rng, g, rng.choice(LAY), 14)
        d = l[1]
        if "out" in d:
            d["out"] = zoo.type_spec(rng, g, 14, 4, kinds)
            if rng.random() < 0.5:
                d["out"] = sorted(d["out"], key=lambda r: zoo.rep_size(g, r))
        if l[0] == "pool" and rng.random() < 0.3:
            d["asym"] = True
        if l[0] == "tconv" and rng.random() < 0.5:
            d["op"] = 1
        s["layers"].append(l)
    return s


def ops_(rng, n):
    out = []
    for _ in range(n):
        s = rng.randint(0, 10 ** 6)
        c = rng.random()
        if c < 0.25:
            out.append(["step", "a", s])
        elif c < 0.38:
            out.append(["perturb", "a", s, 0.5])
        elif c < 0.52:
            out.append(["mode", "a", rng.random() < 0.5])
        elif c < 0.60:
            out.append(["mode", "a", rng.random() < 0.5, rng.randint(0, 40)])
        elif c < 0.66:
            out.append(["iso_load_other", "a", s])
        elif c < 0.72:
            out.append(["replace_data", "a", s])
        elif c < 0.78:
            out.append(["reinit", "a", s])
        elif c < 0.84:
            out.append(["fwd", "a", s])
        elif c < 0.88:
            out.append(["iso_reset", "a", s])
        elif c < 0.92:
            out.append(["clone", "a", "b"])
        else:
            out.append(["other", None, s % 1000])
    return out


def gen(rng, tier):
    spec = spec_(rng)
    ops = ops_(rng, rng.randint(0, 4)) + [["EXPORT", "x", rng.randint(0, 99)]]
    for _ in range(rng.randint(1, 5)):
        c = rng.random()
        if c < 0.45:
            ops += ops_(rng, rng.randint(1, 2))
        elif c < 0.58:
            ops.append(["EXPORT", rng.choice("xyz"), rng.randint(0, 99)])
        elif c < 0.70:
            ops.append(["EDIT", rng.choice(["scribble", "train", "double", "settings", "freeze"]), rng.randint(0, 999)])
        elif c < 0.82:
            ops.append(["SAVE", rng.choice(["module", "pickle", "state", "state"])])
        elif c < 0.88:
            ops.append(["COPY"])
        elif c < 0.92:
            ops.append(["ABORT", rng.randint(1, 400), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        else:
            ops.append(["DELETE", rng.choice(["iso_delete", "iso_edit_all", "iso_edit_statedict", "iso_edit_inner", "iso_load_noise", "iso_dtype"]), rng.randint(0, 999)])
    for o in ops:
        if o[0] == "other":
            o[1] = zoo.mutate(rng, spec)
    return {"spec": spec, "seed": rng.randint(0, 999), "nested": rng.random() < 0.4, "pol": pollution(rng, spec, rng.choice([0, 0, 1])), "ops": ops,
            "h": rng.randint(0, 3), "batches": rng.choice([[1], [2], [3, 1]])}


def direct(plan, env, rec):
    from sim.engine import Violation
    root = env.dir()
    inc = env.spawn(plan["h"])
    spec = plan["spec"]
    where = lambda: f"history {json.dumps(hist)} spec {json.dumps(spec)}"
    hist = []
    if plan["pol"]:
        inc.call("life", "ops", plan["pol"])
    inc.call("life", "build", "a", spec, plan["seed"], plan["nested"])
    parts = inc.call("expo", "plan", "a")
    if not parts:
        rec["events"].append("nothing to export")
        return
    bad = inc.call("expo", "refused", "a")
    if bad:
        raise Violation("wrong", f"an unsupported module was exported to one with another function: {bad}; {where()}")
    inc.call("life", "build", "a", spec, plan["seed"], plan["nested"])
    snaps = {}
    alive = True

    def settled(key):
        """the exported module still computes what it did when it was exported"""
        now = inc.call("expo", "outs", key)
        for i in snaps[key]:
            for a, b in zip(snaps[key][i], now[i]):
                if a.shape != b.shape or a.tobytes() != b.tobytes():
                    raise Violation("snapshot", f"the exported module changed (part {i} of {parts}): {differs(a, b, 0.) or 'bits'}; {where()}")
        count(rec, "stats", "snapshots_rechecked")

    def export(key, seed):
        before = inc.call("expo", "rest", "a")
        rng0 = None
        r = inc.call("expo", "export", "a", key)
        count(rec, "stats", "exports", r["n"])
        if r["wrapped"]:
            raise Violation("kind", f"the exported module still contains equivariant modules: {r['wrapped'][:3]}; {where()}")
        if r["eval"] is False:
            raise Violation("mode", f"export did not put the network in eval mode; {where()}")
        if r["active"]:
            raise Violation("mode", f"exported modules {r['active']} are in training mode; {where()}")
        if inc.call("expo", "rest", "a") != before:
            raise Violation("side effect", f"export changed the network's parameters, buffers or gradients; {where()}")
        inc.call("expo", "inputs", "a", key, seed, plan["batches"])
        a, b = inc.call("expo", "orig", "a", key), inc.call("expo", "outs", key)
        for i in a:
            for x, y in zip(a[i], b[i]):
                d = differs(x, y, 1e-4)
                if d:
                    raise Violation("function", f"exported part {[p for p in parts if p[0] == i]} computes something else than the original in eval mode: {d}; {where()}")
                count(rec, "stats", "functions_compared")
        c = inc.call("expo", "doubled", key)
        for i in c:
            for x, y in zip(b[i], c[i]):
                d = differs(x, y, 1e-3)
                if y.dtype != "float64" or d:
                    raise Violation("function", f"exported part {[p for p in parts if p[0] == i]}, converted to double precision, computes something else ({y.dtype}): {d}; {where()}")
        snaps[key] = b
    for o in plan["ops"]:
        hist.append(o[:3] if o[0] != "other" else ["other"])
        count(rec, "stats", "operations")
        if o[0] == "EXPORT":
            if not alive:
                continue
            export(o[1], o[2])
            if o[2] % 3 == 0:
                # and again: the same function
                inc.call("life", "ops", [["exp_export", "a", "again"]])
                inc.call("expo", "inputs", "a", "again", o[2], plan["batches"])
                r = inc.call("expo", "outs", "again")
                for i in r:
                    for x, y in zip(r[i], snaps[o[1]][i]):
                        d = differs(x, y, 1e-6)
                        if d:
                            raise Violation("again", f"exporting twice gives different functions: {d}; {where()}")
        elif o[0] == "EDIT":
            k = sorted(snaps)[-1] if snaps else None
            if k is None:
                continue
            if alive:
                before = inc.call("isolate", "observe", "a", 5)
            inc.call("expo", "edit", k, o[1], o[2])
            count(rec, "faults", "exported_" + o[1])
            if alive:
                after = inc.call("isolate", "observe", "a", 5)
                from sim.props.c06 import compare
                d = compare(before, after)
                if d:
                    raise Violation("influence", f"edit ({o[1]}) of the exported module changed the original: {d}; {where()}")
            snaps.pop(k)
        elif o[0] == "SAVE":
            if not snaps:
                continue
            k = sorted(snaps)[0]
            p = os.path.join(root, "e.pt")
            inc.call("expo", "saved", k, p, o[1])
            q = env.spawn(plan["h"] + 1)
            if o[1] == "state":
                # a deployment process that exported a network of the same architecture and other parameters
                q.call("life", "build", "a", spec, plan["seed"] + 1, plan["nested"])
                q.call("expo", "export", "a", "x")
            q.call("expo", "loaded", "x", p, o[1])
            r = q.call("expo", "outs", "x")
            q.kill()
            for i in snaps[k]:
                for x, y in zip(snaps[k][i], r[i]):
                    d = differs(x, y, 1e-6)
                    if d:
                        raise Violation("stored", f"the exported module ({o[1]}) loaded in another process computes something else: {d}; {where()}")
            count(rec, "faults", "loaded_in_new_process")
        elif o[0] == "COPY":
            if snaps:
                k = sorted(snaps)[0]
                inc.call("expo", "copied", k, "copy")
                snaps["copy"] = snaps[k]
        elif o[0] == "ABORT":
            if alive:
                r = inc.call("expo", "abort_export", "a", o[1], o[2])
                rec["events"].append(["abort", r])
                if r == "injected":
                    count(rec, "faults", "export_aborted")
        elif o[0] == "DELETE":
            if not alive:
                continue
            # the original is of no use afterwards
            inc.call("life", "ops", [[o[1], "a"] + ([] if o[1] == "iso_delete" else ["double"] if o[1] == "iso_dtype" else [o[2]])])
            alive = False
            count(rec, "faults", "original_" + o[1][4:])
        elif alive:
            r = inc.call("life", "ops", [o])[0]
            rec["events"].append([o[0], str(r)])
        for k in sorted(snaps):
            settled(k)
    rec["measures"].append(json.dumps([parts, spec["g"], [h[0] for h in hist]]))
