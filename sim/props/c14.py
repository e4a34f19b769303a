"""C14: batch-norm statistics follow the documented recursion over any history."""
import json
from sim import zoo
from sim.props.common import count, pollution

RUNS = {"quick": 20000, "thorough": 600000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 3
UNEXPECTED = "exception"
SHRINK = ["ops", "spec.in"]
RULE = "distinct (group, field types, kind of normalisation and options, history) whose statistics were compared with the reference recursion"
COMPONENTS = {"real": ["e2cnn's four batch normalisations, SequentialModule, MultipleModule, PyTorch's modules and serialisation", "processes (forked, with their own hash seed), killed and restarted by the simulator"],
              "stub": ["data, parameter edits and the history come from the seed"]}
ASSUMPTIONS = ["float32 on CPU, one thread; reference in float64; tolerance 2e-3 relative per entry (5e-3 for outputs)", "a restarted process restores the state dict saved last"]
STYLES = ["normal", "normal", "offset", "scale", "small", "large", "far", "zeros", "sparse", "channels_last", "strided"]


def ev(rng):
    b, h, w = rng.choice([(1, 1, 2), (1, 2, 2), (2, 1, 1), (3, 2, 1), (2, 3, 2), (1, 4, 3), (4, 2, 2), (1, 1, 1)])
    return [rng.randint(0, 10 ** 6), b, h, w, rng.choice(STYLES)]


def bn(rng):
    return {"r": rng.randint(0, 10 ** 6), "eps": rng.choice([1e-5, 1e-5, 1e-3, 0.1]), "momentum": rng.choice([0.1, 0.1, 0.3, 0.9, 1.0, 0.0, None, None]), "affine": rng.random() < 0.8, "track": rng.random() < 0.9}


def gen(rng, tier):
    g = zoo.gspace_spec(rng, rng.random() < 0.7)
    kinds = rng.choice([None, None, ["irrep"], ["reg", "quot", "triv"], ["ind"], "pure"])
    if kinds == "pure":
        # induced fields without trivial part, or irreps without it
        g = zoo.gspace_spec(rng, rng.random() < 0.7)
        for _ in range(30):
            r = zoo.rep_spec(rng, g, ["ind", "ind", "ind", "irrep"])
            if any(r[-1]) and zoo.rep_size(g, r) <= 8:
                break
            g = zoo.gspace_spec(rng, True)
        pool = [r]
        for _ in range(4):
            q = zoo.rep_spec(rng, g, [r[0]])
            if q[0] == r[0] and any(q[-1]) and zoo.rep_size(g, q) <= 8:
                pool.append(q)
        tin = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    else:
        tin = zoo.type_spec(rng, g, 14, 5, kinds)
    spec = {"g": g, "in": tin, "wrap": rng.choice(["bare", "bare", "seq", "multi"]), "r": rng.randint(0, 10 ** 6), "bn": [bn(rng), bn(rng)]}
    ops = []
    for _ in range(rng.randint(3, 14)):
        c = rng.random()
        if c < 0.40:
            ops.append(["batch", ev(rng), rng.choice(["plain", "nograd", "back"])])
        elif c < 0.55:
            ops.append(["mode", rng.random() < 0.6])
        elif c < 0.62:
            ops.append(["save"])
        elif c < 0.68:
            ops.append(["load"])
        elif c < 0.75:
            ops.append(["crash", rng.randint(0, 3), pollution(rng, {"g": g, "in": tin, "size": 5, "layers": []}, rng.choice([0, 0, 1]))])
        elif c < 0.80:
            ops.append(["copy", [ev(rng) for _ in range(rng.randint(0, 2))], rng.random() < 0.5])
        elif c < 0.85:
            ops.append(["reset", rng.random() < 0.4])
        elif c < 0.90:
            ops.append(["perturb", rng.randint(0, 10 ** 6)])
        elif c < 0.95:
            ops.append(["other", [ev(rng) for _ in range(rng.randint(1, 3))]])
        else:
            ops.append(["check"])
    return {"spec": spec, "ops": ops, "h": rng.randint(0, 3), "checks": rng.random() < 0.5}


def direct(plan, env, rec):
    from sim.engine import Violation
    path = env.dir() + "/bn"
    spec = plan["spec"]
    inc = env.spawn(plan["h"])
    kinds = inc.call("bnorm", "build", "n", spec)
    hist, training, saved = [], True, None

    def fail(where, d):
        if d:
            raise Violation("statistics", f"{d} after {where}; {kinds} history {json.dumps(plan['ops'])} spec {json.dumps(spec)}")
    fail("construction", inc.call("bnorm", "fresh", "n"))
    for i, o in enumerate(plan["ops"]):
        k = o[0]
        if k == "batch":
            e = list(o[1])
            if e[1] * e[2] * e[3] == 1 and "inner" in kinds:
                e[1] = 2  # PyTorch refuses a single value per channel
            if training:
                hist = hist + [e]
            fail(f"op {i} {json.dumps(o)}", inc.call("bnorm", "train", "n", e, hist, o[2]))
            count(rec, "stats", "batches_training" if training else "batches_eval")
        elif k == "mode":
            training = o[1]
            inc.call("bnorm", "mode", "n", training)
        elif k == "save":
            inc.call("bnorm", "save", "n", path)
            saved = hist
        elif k == "load":
            if saved is not None:
                inc.call("bnorm", "load", "n", path)
                hist = saved
                count(rec, "faults", "rollback")
        elif k == "crash":
            inc.kill()
            inc = env.spawn(o[1])
            inc.call("life", "ops", o[2])
            inc.call("bnorm", "build", "n", spec)
            training = True
            if saved is not None:
                inc.call("bnorm", "load", "n", path)
            hist = saved or []
            count(rec, "faults", "crash_restart")
        elif k == "copy":
            inc.call("bnorm", "copy_", "n", [fix(e) for e in o[1]], o[2])
            count(rec, "faults", "copy")
        elif k == "reset":
            inc.call("bnorm", "reset", "n", o[1])
            hist = []
        elif k == "perturb":
            inc.call("bnorm", "perturb", "n", o[1])
        elif k == "other":
            inc.call("bnorm", "other", spec, [fix(e) for e in o[1]])
            count(rec, "faults", "other_module")
        if k == "check" or plan["checks"] or i == len(plan["ops"]) - 1:
            fail(f"op {i} {json.dumps(o)}", inc.call("bnorm", "check", "n", hist))
            count(rec, "stats", "statistics_compared")
        rec["events"].append([k, len(hist)])
    for q in kinds:
        count(rec, "stats", "kind_" + q)
    rec["measures"].append(json.dumps([spec["g"], spec["in"], spec["wrap"], kinds, [b["momentum"] for b in spec["bn"]], [o[0] for o in plan["ops"]]]))


def fix(e):
    return [e[0], max(e[1], 2)] + e[2:]
