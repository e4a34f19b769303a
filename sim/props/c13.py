"""C13: runs are reproducible from the random seed."""
import json
from sim import zoo
from sim.props.common import count, pollution

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 4
UNEXPECTED = "exception"
SHRINK = ["script", "inserted", "pol0", "pol1", "spec.layers"]
RULE = "distinct (script, inserted bookkeeping, histories before seeding) whose two runs were compared bit for bit"
COMPONENTS = {"real": ["e2cnn, PyTorch, numpy"], "stub": ["the generators are seeded by the simulator; hash seeds, histories and insertions come from the seed"]}
ASSUMPTIONS = ["same machine and libraries, float32 on CPU, one thread", "export() builds PyTorch modules whose constructors draw random numbers, so it is not among the inserted operations"]
QUIET = ["eval", "eval", "modes", "save", "load", "text", "shape", "copy", "objects", "transform", "gradfree", "inittypes"]


def gen(rng, tier):
    spec = zoo.model_spec(rng, small=rng.random() < 0.8)
    if rng.random() < 0.4:
        spec["layers"].insert(rng.randint(0, len(spec["layers"])), zoo.layer_spec(rng, spec["g"], "drop"))
    other = zoo.mutate(rng, spec) if rng.random() < 0.6 else zoo.model_spec(rng, small=True)
    nested = rng.random() < 0.3
    script = []
    for _ in range(rng.randint(1, 6)):
        c = rng.random()
        if c < 0.35:
            script.append(["step", "a", rng.randint(0, 999)])
        elif c < 0.50:
            script.append(["init", "a", rng.choice(["he", "cache", "cache", "delta", "reset"])])
        elif c < 0.65:
            script.append(["trainout", "a", rng.randint(0, 999)])
        elif c < 0.75:
            script.append(["evalout", "a", rng.randint(0, 999)])
        elif c < 0.9:
            script.append(["build", "b", rng.randint(0, 1), rng.random() < 0.3])
        else:
            script.append(["seed", rng.randint(0, 999)])
    inserted = []
    for _ in range(rng.randint(1, 5)):
        w = rng.choice(QUIET)
        arg = [zoo.obj_request(rng) for _ in range(2)] + [zoo.gs_request(rng, spec["g"])] if w == "objects" else rng.randint(0, 999)
        inserted.append([rng.randint(0, len(script) - 1), w, arg])
    pol0, pol1 = pollution(rng, spec, rng.choice([0, 1])), pollution(rng, spec, rng.choice([1, 2, 2]))
    if rng.random() < 0.6:
        # warm caches: the very objects of the run were built before
        pol1.append(["other", spec, 3])
    return {"spec": spec, "other": other, "script": script, "inserted": inserted, "nested": nested, "pol0": pol0, "pol1": pol1, "h": [rng.randint(0, 3), rng.randint(0, 3)], "seed": rng.randint(0, 10 ** 6), "opt": rng.choice(["sgd", "adam", "adamw"])}


def direct(plan, env, rec):
    from sim.engine import Violation
    specs = [plan["spec"], plan["other"]]
    logs = []
    for side in (0, 1):
        inc = env.spawn(plan["h"][side])
        for o in plan[f"pol{side}"]:
            inc.call("life", "ops", [o])
            count(rec, "faults", "history_" + o[0])
        log = [["seed", inc.call("repro", "seed_all", plan["seed"])], [["build", "a", 0, plan["nested"]], inc.call("repro", "build", "a", specs[0], plan["nested"]), inc.call("repro", "now")]]
        for i, o in enumerate(plan["script"]):
            if side:
                for at, w, arg in plan["inserted"]:
                    if at == i:
                        d = inc.call("repro", "quiet", w, "a", arg)
                        count(rec, "faults", "inserted_" + w)
                        if d:
                            raise Violation("bookkeeping", f"{d}; script {json.dumps(plan['script'][:i])} spec {json.dumps(plan['spec'])}")
            if o[0] == "seed":
                r = inc.call("repro", "seed_all", o[1])
            elif o[0] == "build":
                r = inc.call("repro", "build", o[1], specs[o[2]], o[3])
            elif o[0] == "step":
                r = inc.call("repro", "step", o[1], o[2], plan["opt"])
            else:
                r = inc.call("repro", o[0], *o[1:])
            log.append([o, r, inc.call("repro", "now")])
        logs.append(log)
    for a, b in zip(*logs):
        if a != b:
            what = "the generators' states" if a[:2] == b[:2] else "the result"
            raise Violation("bits", f"{what} of {json.dumps(a[0])} depend on history, hash seed or bookkeeping: {first(a[1:], b[1:])}; script {json.dumps(plan['script'])} inserted {json.dumps(plan['inserted'])} histories {json.dumps([plan['pol0'], plan['pol1']])} hash seeds {plan['h']} spec {json.dumps(plan['spec'])}")
        count(rec, "stats", "results_compared")
    rec["events"].append(logs[0])
    rec["measures"].append(json.dumps([plan["spec"]["g"], [l[0] for l in plan["spec"]["layers"]], [o[0] for o in plan["script"]], [[i[0], i[1]] for i in plan["inserted"]]]))


def first(a, b):
    if type(a) == type(b) and isinstance(a, list):
        if len(a) != len(b):
            return f"{len(a)} vs {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"[{i}] " + first(x, y)
    return f"{str(a)[:150]} vs {str(b)[:150]}"
