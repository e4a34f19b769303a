"""C02: evaluation mode computes the function of the current parameters."""
import json
from sim import zoo
from sim.props import c01

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["ops", "spec.layers"]
RULE = "distinct (layer kinds, history of operation kinds and modes) ending in a comparison with a newly built network"
COMPONENTS = c01.COMPONENTS
ASSUMPTIONS = ["float32 on CPU, one thread", "parameters are edited while the convolutions are in training mode, state dicts are taken and loaded in eval mode (both documented)",
               "a mode switch aborted half-way is repaired by switching to training mode", "tolerance 1e-4 of the output's scale, 1e-3 for gradients"]
CONVS = ["conv", "conv", "conv", "tconv", "diffop", "bn", "bn", "nonlin", "nonlin", "drop", "multi", "restrict", "dis", "gpool", "res", "cat"]


def gen(rng, tier):
    spec = zoo.trainable(zoo.model_spec(rng, small=rng.random() < 0.7, layers=CONVS) if rng.random() < 0.85 else zoo.focus_spec(rng))
    ops = []
    for _ in range(rng.randint(4, 10)):
        c = rng.random()
        if c < 0.13:
            ops.append(["step", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.20:
            ops.append(["fstep", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.26:
            ops.append(["perturb", "n", rng.randint(0, 10 ** 6), 0.5])
        elif c < 0.30:
            ops.append(["reinit", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.34:
            ops.append(["replace_data", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.58:
            ops.append(["mode", "n", rng.random() < 0.45])
        elif c < 0.70:
            ops.append(["mode", "n", rng.random() < 0.5, rng.randint(0, 40)])
        elif c < 0.75:
            ops.append(["snapshot", "n", rng.choice("ab")])
        elif c < 0.81:
            ops.append(["restore", "n", rng.choice("ab")])
        elif c < 0.85:
            ops.append(["clone", "n", "n"])
        elif c < 0.88:
            ops.append(["freeze", "n", rng.choice(["weights", "weights", "bias", "half", "none"])])
        elif c < 0.89:
            ops.append(["fwd", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.91:
            ops.append(["other", zoo.mutate(rng, spec), 3])
        elif c < 0.95:
            ops.append(["crash", rng.randint(0, 1)])
        else:
            w = rng.choice(["step", "mode", "mode"])
            ops.append(["abort", w, rng.randint(0, 300), "n"] + ([rng.randint(0, 10 ** 6)] if w == "step" else [False]))
    return {"h": rng.randint(0, 1), "spec": spec, "seed": rng.randint(0, 10 ** 6), "nested": rng.random() < 0.5, "pre": [],
            "opt": [rng.choice(["sgd", "adam"]), rng.choice([0.05, 0.3])], "ops": ops}


def check(inc, plan, rec, where, i):
    from sim.engine import Violation
    bad = inc.call("life", "vs_twin", "n", plan["seed"] + i, plan["nested"], i % 3 == 0)
    rec["stats"]["twin_comparisons"] = rec["stats"].get("twin_comparisons", 0) + 1
    rec["events"].append([where, bad])
    if bad:
        raise Violation("stale", f"after {where} (operation {i}): differs from a newly built network with the same values: {bad}; spec {json.dumps(plan['spec'])}")


def direct(plan, env, rec):
    path = env.dir() + "/ck"
    inc = env.spawn(plan["h"])
    rec["events"].append(c01.start(inc, plan, rec))
    snaps = set()
    frozen = None
    hist = []
    for i, o in enumerate(plan["ops"]):
        if o[0] == "crash":
            inc.call("life", "save", "n", path)
            inc.kill()
            rec["faults"]["process_crash"] = rec["faults"].get("process_crash", 0) + 1
            inc = env.spawn(o[1])
            c01.start(inc, plan, rec)
            if frozen:
                inc.call("life", *frozen)
            inc.call("life", "load", "n", path)
            snaps = set()
        elif o[0] == "restore" and o[2] not in snaps:
            continue
        else:
            r = inc.call("life", o[0], *o[1:])
            if o[0] == "snapshot":
                snaps.add(o[2])
            if o[0] == "freeze":
                frozen = o
            if o[0] == "abort":
                rec["faults"][r[0] + "_abort"] = rec["faults"].get(r[0] + "_abort", 0) + 1
            rec["events"].append([o[0], r])
        hist.append([o[0], inc.call("life", "allmodes", "n")])
        rec["stats"]["operations"] = rec["stats"].get("operations", 0) + 1
        check(inc, plan, rec, o[0], i)
    inc.call("life", "mode", "n", False)
    check(inc, plan, rec, "final eval", 100)
    rec["measures"].append(json.dumps([inc.call("life", "kinds", "n"), hist]))
