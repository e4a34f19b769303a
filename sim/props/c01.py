"""C01: equivariance through every training and lifecycle history."""
import json
from sim import zoo

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 85, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["ops", "pre", "spec.layers"]
RULE = ("distinct (group, layer kinds, history of operation kinds and faults) with at least one training step or parameter "
        "change before an equivariance check")
COMPONENTS = {"real": ["e2cnn (all of it, from /repo's working tree)", "PyTorch autograd, optimisers and serialisation", "operating system processes and files"],
              "stub": ["none; randomness is seeded, crashes are kills of the forked process, aborts are exceptions raised at a chosen call"]}
ASSUMPTIONS = ["float32 on CPU, one thread", "only group elements mapping the pixel grid to itself (all elements for pixelwise networks)",
               "inputs on which a layer is discontinuous (ties of maxima, vanishing norms) are not judged",
               "tolerance 2e-3 of the output's scale"]


def gen_ops(rng, small):
    out = []
    for _ in range(rng.randint(3, 7)):
        c = rng.random()
        if c < 0.30:
            for _ in range(rng.randint(1, 2)):
                out.append(["step", "n", rng.randint(0, 10 ** 6)])
        elif c < 0.40:
            out.append(["perturb", "n", rng.randint(0, 10 ** 6), rng.choice([0.3, 1.0])])
        elif c < 0.62:
            out.append(["mode", "n", rng.random() < 0.5])
        elif c < 0.67:
            out.append(["mode", "n", rng.random() < 0.5, rng.randint(0, 40)])
        elif c < 0.72:
            out.append(["snapshot", "n", "a"])
        elif c < 0.76:
            out.append(["restore", "n", "a"])
        elif c < 0.80:
            out.append(["clone", "n", "n"])
        elif c < 0.87:
            out.append(["other", zoo.model_spec(rng, small=True), rng.randint(0, 99)])
        elif c < 0.94:
            out.append(["crash", rng.randint(0, 1)])
        else:
            w = rng.choice(["step", "mode"])
            out.append(["abort", w, rng.randint(0, 400), "n"] + ([rng.randint(0, 10 ** 6)] if w == "step" else [False]))
    return out


def gen(rng, tier):
    small = rng.random() < 0.4
    spec = zoo.model_spec(rng, small=small) if rng.random() < 0.65 else zoo.focus_spec(rng)
    pre = [zoo.mutate(rng, spec) if rng.random() < 0.5 else zoo.model_spec(rng, small=True) for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"h": rng.randint(0, 1), "spec": spec, "seed": rng.randint(0, 10 ** 6), "nested": rng.random() < 0.3, "pre": pre,
            "opt": [rng.choice(["sgd", "adam"]), rng.choice([0.02, 0.1])], "ops": gen_ops(rng, small)}


def start(inc, plan, rec):
    for s in plan["pre"]:
        inc.call("life", "other", s, 1)
    h = inc.call("life", "build", "n", plan["spec"], plan["seed"], plan["nested"])
    inc.call("life", "opt", "n", *plan["opt"])
    return h


def check(inc, plan, rec, where, i):
    from sim.engine import Violation
    bad = inc.call("life", "equi", "n", plan["seed"] + i, 2e-3, 2, {0: 4, 99: None}.get(i, 2))
    rec["stats"]["equivariance_checks"] = rec["stats"].get("equivariance_checks", 0) + 1
    rec["events"].append([where, sorted(bad)])
    if bad:
        raise Violation("equivariance", f"after {where}: output does not transform by the group for elements {bad}; spec {json.dumps(plan['spec'])}")


def direct(plan, env, rec):
    path = env.dir() + "/ck"
    inc = env.spawn(plan["h"])
    rec["events"].append(start(inc, plan, rec))
    check(inc, plan, rec, "build", 0)
    saved = snap = False
    hist = []
    for i, o in enumerate(plan["ops"]):
        if o[0] == "crash":
            if i % 2 == 0 or not saved:
                inc.call("life", "save", "n", path)
                saved = True
            inc.kill()
            rec["faults"]["process_crash"] = rec["faults"].get("process_crash", 0) + 1
            inc = env.spawn(o[1])
            start(inc, plan, rec)
            inc.call("life", "load", "n", path)
            snap = False
        elif o[0] == "restore" and not snap:
            continue
        else:
            r = inc.call("life", o[0], *o[1:])
            if o[0] == "snapshot":
                snap = True
            if o[0] == "abort":
                rec["faults"][r[0] + "_abort"] = rec["faults"].get(r[0] + "_abort", 0) + 1
            rec["events"].append([o[0], r])
        hist.append(o[0])
        rec["stats"]["operations"] = rec["stats"].get("operations", 0) + 1
        if o[0] not in ("snapshot", "other") or i % 2:
            check(inc, plan, rec, o[0], i + 1)
    inc.call("life", "mode", "n", False)
    check(inc, plan, rec, "final eval", 99)
    kinds = inc.call("life", "kinds", "n")
    rec["measures"].append(json.dumps([plan["spec"]["g"], kinds, hist]))
