"""C04: independently built replicas are the same network."""
import json
import numpy as np
from sim import zoo
from sim.props import c01
from sim.props.common import count, differs, dict_differs, pollution
from sim.props.c03 import first_diff

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 3
UNEXPECTED = "exception"
SHRINK = ["rounds", "pre.0", "pre.1", "pre.2", "spec.layers"]
RULE = "distinct (group, layer kinds, number of replicas, schedule of deliveries, crashes and re-joins) with at least one synchronised step"
COMPONENTS = {"real": ["e2cnn in every replica process", "PyTorch autograd and optimisers"],
              "stub": ["the all-reduce and broadcast transport (the simulator delivers messages, in seeded order)"]}
ASSUMPTIONS = ["float32 on CPU, one thread per replica", "gradients are averaged by position (as DistributedDataParallel does), batch statistics frozen",
               "tolerance 2e-3 of the scale against the single process (summation order differs)"]


def gen(rng, tier):
    spec = zoo.trainable(zoo.model_spec(rng, small=rng.random() < 0.6) if rng.random() < 0.85 else zoo.focus_spec(rng))
    K = rng.choice([2, 2, 3])
    rounds = []
    for _ in range(rng.randint(1, 4)):
        r = {"order": rng.sample(range(K), K), "data": rng.randint(0, 10 ** 6), "crash": None}
        if rng.random() < 0.4:
            # victim, moment (before computing, after sending, after applying), hash seed and history of its successor, donor
            v = rng.randrange(K)
            r["crash"] = [v, rng.choice(["before", "sent", "after"]), rng.randint(0, 2), pollution(rng, spec), rng.choice([k for k in range(K) if k != v])]
        rounds.append(r)
    return {"spec": spec, "seed": rng.randint(0, 10 ** 6), "nested": rng.random() < 0.3, "K": K, "h": [rng.randint(0, 2) for _ in range(K)],
            "pre": [pollution(rng, spec) for _ in range(K)], "opt": [rng.choice(["sgd", "adam"]), rng.choice([0.02, 0.1])], "rounds": rounds, "per": rng.choice([2, 2, 3])}


def direct(plan, env, rec):
    from sim.engine import Violation
    K, per = plan["K"], plan["per"]
    total = K * per
    lay = None

    def start(h, pre, seed):
        nonlocal lay
        inc = env.spawn(h)
        inc.call("life", "ops", pre)
        inc.call("life", "build", "n", plan["spec"], seed, plan["nested"])
        inc.call("life", "opt", "n", *plan["opt"])
        l = inc.call("life", "layout", "n")
        if lay is None:
            lay = l
        elif l != lay:
            raise Violation("layout", f"names, shapes or order differ between replicas: {first_diff(lay, l)}; spec {json.dumps(plan['spec'])}")
        return inc

    def join(k, h, pre, state, donor_pred):
        inc = start(h, pre, 1000 + k)
        inc.call("life", "set_by_position", "n", *state)
        d = differs(donor_pred, inc.call("life", "predict", "n", 8), 1e-4)
        if d:
            raise Violation("replica", f"replica {k} holding the same values by position computes another function: {d}; spec {json.dumps(plan['spec'])}")
        count(rec, "stats", "joins")
        return inc

    single = start(0, [], plan["seed"])
    state = single.call("life", "by_position", "n")
    pred = single.call("life", "predict", "n", 8)
    reps = [join(k, plan["h"][k], plan["pre"][k], state, pred) for k in range(K)]
    hist = []
    for i, r in enumerate(plan["rounds"]):
        c = r["crash"]

        def rejoin():
            v, _, h, pre, donor = c
            reps[v].kill()
            count(rec, "faults", "replica_crash")
            donor = donor % K
            reps[v] = join(v, h, pre, reps[donor].call("life", "by_position", "n"), reps[donor].call("life", "predict", "n", 8))
        if c and c[0] < K and c[1] == "before":
            rejoin()
        msgs = {}
        for k in r["order"]:
            msgs[k] = reps[k].call("life", "ddp_grads", "n", r["data"], total, k * per, (k + 1) * per)
        if c and c[0] < K and c[1] == "sent":
            rejoin()
        # the reduction adds in order of arrival
        acc = None
        for k in r["order"]:
            g = msgs[k][1]
            acc = [None if x is None else x.astype(np.float64) for x in g] if acc is None else [y if x is None else x if y is None else x + y for x, y in zip(acc, g)]
        mean = [None if x is None else (x / K).astype(np.float32) for x in acc]
        ref = single.call("life", "ddp_grads", "n", r["data"], total, 0, total)
        scale = max([float(np.abs(x).max()) for x in ref[1] if x is not None and x.size] or [1e-3])
        for j, (a, b) in enumerate(zip(mean, ref[1])):
            d = ("missing" if (a is None) != (b is None) else None) or (a is not None and differs(a, b, 2e-3, max(scale, 1e-3)))
            if d:
                raise Violation("gradient", f"round {i}: averaged gradient at position {j} ({lay[0][j][0]}) differs from the single process: {d}; spec {json.dumps(plan['spec'])}")
        for k in reversed(r["order"]):
            reps[k].call("life", "ddp_apply", "n", mean)
        single.call("life", "ddp_apply", "n", mean)
        count(rec, "stats", "synchronised_steps")
        if c and c[0] < K and c[1] == "after":
            rejoin()
        preds = [p.call("life", "predict", "n", 9) for p in reps + [single]]
        for k in range(K):
            d = differs(preds[k], preds[-1], 5e-4)
            if d:
                raise Violation("replica", f"after round {i} replica {k} predicts differently from the single process: {d}; spec {json.dumps(plan['spec'])}")
        rec["events"].append([i, [float(np.abs(p).sum()).hex() for p in preds]])
        hist.append([r["order"], c and c[:2]])
    rec["measures"].append(json.dumps([plan["spec"]["g"], single.call("life", "kinds", "n"), K, hist]))
