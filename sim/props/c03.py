"""C03: crash and resume from a checkpoint reproduces the uninterrupted training."""
import json
from sim import zoo
from sim.props import c01
from sim.props.common import count, differs, dict_differs, pollution

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 3
UNEXPECTED = "exception"
SHRINK = ["crashes", "pre0", "pre1", "spec.layers"]
RULE = "distinct (group, layer kinds, checkpoint schedule, crash points) with at least one crash followed by a resumed training step"
COMPONENTS = c01.COMPONENTS
ASSUMPTIONS = ["float32 on CPU, one thread", "checkpoint = state dict taken in eval mode (as documented), optimiser state dict and torch random state, replaced atomically",
               "tolerance 1e-4 for losses, 1e-3 for parameters and predictions"]


def gen(rng, tier):
    spec = zoo.trainable(zoo.model_spec(rng, small=rng.random() < 0.6) if rng.random() < 0.85 else zoo.focus_spec(rng))
    T = rng.randint(3, 7)
    crashes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        # [step at which it happens, event inside the step (None: between steps, -1: while saving), hash seed of the next process, history of the next process]
        crashes.append([rng.randint(1, T - 1), rng.choice([None, rng.randint(1, 400), -1]), rng.randint(0, 2), pollution(rng, spec)])
    return {"spec": spec, "seed": rng.randint(0, 10 ** 6), "nested": rng.random() < 0.3, "opt": [rng.choice(["sgd", "adam", "adamw"]), rng.choice([0.02, 0.1])],
            "T": T, "every": rng.randint(1, 3), "crashes": crashes, "pre0": pollution(rng, spec, rng.choice([0, 0, 1])), "h": rng.randint(0, 2), "h1": rng.randint(0, 2),
            "pre1": pollution(rng, spec), "data": rng.randint(0, 10 ** 6), "inseed": rng.random() < 0.5}


def begin(inc, plan, pre, seed):
    inc.call("life", "ops", pre)
    inc.call("life", "build", "n", plan["spec"], seed, plan["nested"])
    inc.call("life", "opt", "n", *plan["opt"])
    return inc.call("life", "layout", "n")


def direct(plan, env, rec):
    from sim.engine import Violation, Crash
    path = env.dir() + "/ck"
    ref = env.spawn(plan["h"])
    lay = begin(ref, plan, plan["pre0"], plan["seed"])
    losses = [ref.call("life", "step", "n", plan["data"] + t) for t in range(plan["T"])]
    pred = ref.call("life", "predict", "n", 5)
    final = ref.call("life", "dump", "n")
    kinds = ref.call("life", "kinds", "n")
    ref.kill()

    inc = env.spawn(plan["h1"])
    l = begin(inc, plan, plan["pre1"], plan["seed"])
    if l != lay:
        raise Violation("layout", f"names or shapes differ between two processes: {first_diff(lay, l)}")
    inc.call("life", "save", "n", path)
    saved_t, saved_pred = 0, inc.call("life", "predict", "n", 6)
    t = 0
    crashes = [list(c) for c in plan["crashes"]]
    resumed = 0
    steps = 0
    while t < plan["T"] and steps < 60:
        steps += 1
        due = next((c for c in crashes if c[0] == t), None)
        crash = False
        if due is not None:
            crashes.remove(due)
            try:
                if due[1] is None:
                    crash = True
                elif due[1] == -1:
                    p = inc.call("life", "predict", "n", 6)
                    inc.call("life", "crashstep", 60, "save", "n", path)
                    saved_t, saved_pred = t, p
                else:
                    inc.call("life", "crashstep", due[1], "step", "n", plan["data"] + t)
                crash = True
                inc.kill()
            except Crash:
                crash = True
                count(rec, "faults", "crash_inside_operation")
            count(rec, "faults", "process_crash")
        if crash:
            inc = env.spawn(due[2])
            l = begin(inc, plan, due[3], 12345)
            if l != lay:
                raise Violation("layout", f"names or shapes of the rebuilt network differ: {first_diff(lay, l)}")
            inc.call("life", "load", "n", path)
            d = differs(saved_pred, inc.call("life", "predict", "n", 6), 1e-4)
            if d:
                raise Violation("prediction", f"after loading the checkpoint of step {saved_t} the predictions differ from those made when it was saved: {d}; spec {json.dumps(plan['spec'])}")
            t = saved_t
            resumed += 1
            continue
        r = inc.call("life", "step", "n", plan["data"] + t)
        count(rec, "stats", "training_steps")
        rec["events"].append([t, r])
        if r != losses[t] and (r == "nograd" or losses[t] == "nograd" or abs(float.fromhex(r[0]) - float.fromhex(losses[t][0])) > 1e-4 * max(abs(float.fromhex(losses[t][0])), 1e-3)):
            raise Violation("loss", f"step {t} after {resumed} resumes: loss {r} instead of {losses[t]}; spec {json.dumps(plan['spec'])}")
        if r != losses[t]:
            count(rec, "stats", "not_bitwise")
        t += 1
        if t % plan["every"] == 0:
            inc.call("life", "save", "n", path)
            saved_t, saved_pred = t, inc.call("life", "predict", "n", 6)
    d = dict_differs(final, inc.call("life", "dump", "n"), 1e-3, 1e-2) or differs(pred, inc.call("life", "predict", "n", 5), 1e-3)
    if d:
        raise Violation("resume", f"after {resumed} resumes the trained network differs from the uninterrupted one: {d}; spec {json.dumps(plan['spec'])}")
    if resumed:
        rec["measures"].append(json.dumps([plan["spec"]["g"], kinds, plan["every"], plan["T"], [c[:2] for c in plan["crashes"]]]))


def first_diff(a, b):
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            if u != v:
                return f"{u} vs {v}"
        if len(x) != len(y):
            return f"{len(x)} vs {len(y)} entries"
