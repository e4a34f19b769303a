"""C15: dropout respects fields for every random outcome."""
import json
from sim import zoo
from sim.props.common import count, pollution

RUNS = {"quick": 20000, "thorough": 600000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 3
UNEXPECTED = "exception"
SHRINK = ["ops", "threads", "preempts", "pol", "spec.in"]
RULE = "distinct (group, field types, probability, history or thread schedule) whose random outcomes were decoded field by field"
COMPONENTS = {"real": ["e2cnn's FieldDropout and PointwiseDropout, PyTorch's random generator"], "stub": ["the generator's state before every pass and the thread scheduler come from the seed"]}
ASSUMPTIONS = ["float32 on CPU", "frequencies and correlations are tested at 7 and 8 standard deviations"]
# states of PyTorch's generator whose first 600 uniform numbers include exactly 0
RARE = [28587, 76519, 123627, 145792, 159140, 159627, 171543, 194552]
SHAPES = [[1, 1, 1], [2, 3, 3], [3, 2, 5], [1, 5, 4], [4, 1, 2]]


def ev(rng):
    return [rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6), rng.choice(SHAPES), rng.choice(["plain", "plain", "channels_last", "strided"]), rng.random() < 0.5]


def gen(rng, tier):
    g = zoo.gspace_spec(rng, rng.random() < 0.7)
    tin = zoo.type_spec(rng, g, 16, rng.choice([3, 6, 8]), rng.choice([None, None, ["reg", "quot", "triv"]]))
    if rng.random() < 0.5:
        rng.shuffle(tin)
    spec = {"g": g, "in": tin, "p": rng.choice([0., 1., 0.5, 0.1, 0.9, 0.3, 0.75, round(rng.random(), 3), 0.999]), "point": rng.random() < 0.25, "wrap": rng.choice(["bare", "seq"])}
    if rng.random() < 0.2:
        same = rng.random() < 0.6
        return {"spec": spec, "ops": [], "threads": [[[rng.randint(0, 10 ** 6), rng.choice(SHAPES), "plain"] for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 3))], "same": same, "pol": [],
                "h": [rng.randint(0, 3)] * 2, "preempts": None, "opcodes": rng.random() < 0.6, "pseed": rng.randint(0, 10 ** 6), "count": rng.randint(1, 4), "inplace": rng.random() < 0.3}
    ops = []
    for _ in range(rng.randint(2, 9)):
        c = rng.random()
        if c < 0.55:
            ops.append(["apply"] + ev(rng) + [False])
        elif c < 0.65:
            e = ev(rng)
            e[2] = rng.choice([[3, 31, 33], [7, 20, 19], [40, 8, 9]])
            if rng.random() < 0.4:
                e[0] = rng.choice(RARE)
            ops.append(["apply"] + e + [True])
        elif c < 0.85:
            ops.append(["mode", rng.random() < 0.6])
        elif c < 0.92:
            ops.append(["copy"])
        else:
            ops.append(["reload"])
    return {"spec": spec, "ops": ops, "threads": [], "pol": pollution(rng, {"g": g, "in": tin, "size": 5, "layers": []}, rng.choice([0, 1])), "h": [rng.randint(0, 3), rng.randint(0, 3)]}


def direct(plan, env, rec):
    from sim.engine import Violation
    spec = plan["spec"]
    if plan.get("threads"):
        names = [0 if plan["same"] else i for i in range(len(plan["threads"]))]

        def start():
            inc = env.spawn(plan["h"][0])
            for i in sorted(set(names)):
                inc.call("drop", "build", str(i), spec, plan["inplace"])
            return inc
        nn = [str(i) for i in names]
        if plan["preempts"] is None:
            p = start().call("drop", "profile", nn, plan["threads"], plan["opcodes"], plan["pseed"], plan["count"])
            if p["bad"]:
                raise Violation("exception", f"without any concurrency: {p['bad']}")
            plan["preempts"] = p["preempts"]
        r = start().call("drop", "run", nn, plan["threads"], plan["opcodes"], plan["preempts"])
        count(rec, "faults", "preemption", r["fired"])
        count(rec, "stats", "scheduler_steps", r["steps"])
        count(rec, "stats", "outcomes_decoded", r["outputs"])
        rec["events"].append([r["steps"], r["switches"], r["bad"], r["log"]])
        if r["bad"]:
            raise Violation("threads", f"{r['bad']}; {json.dumps(spec)} threads {json.dumps(plan['threads'])} schedule {r['log'][:30]}")
        if r["fired"]:
            rec["measures"].append(json.dumps([spec, r["log"]]))
        return
    # the same history in two processes: one out of place, one in place
    a, b = env.spawn(plan["h"][0]), env.spawn(plan["h"][1])
    b.call("life", "ops", plan["pol"])
    for i, inc in enumerate((a, b)):
        inc.call("drop", "build", "n", spec, bool(i))
    training = True
    for i, o in enumerate(plan["ops"]):
        if o[0] == "apply":
            res = []
            for j, inc in enumerate((a, b)):
                # values of the input differ between the two: they must not matter
                d, mask, after = inc.call("drop", "apply", "n", o[1], o[2] + j, o[3], o[4], o[5], o[6])
                if d:
                    raise Violation("outcome", f"{d}; {'in-place, ' if j else ''}op {i} of {json.dumps(plan['ops'])} spec {json.dumps(spec)}")
                res.append([mask, after])
                if mask:
                    count(rec, "stats", "outcomes_decoded")
            if res[0][0] != res[1][0]:
                raise Violation("determined", f"from the same generator state the in-place and out-of-place variants drop different fields: {res}; op {i} of {json.dumps(plan['ops'])} spec {json.dumps(spec)}")
            if res[0][1] != res[1][1]:
                raise Violation("determined", f"the two variants draw different amounts of randomness; op {i} of {json.dumps(plan['ops'])} spec {json.dumps(spec)}")
            rec["events"].append(res[0])
            if not training:
                count(rec, "stats", "eval_identity")
        elif o[0] == "mode":
            training = o[1]
            for inc in (a, b):
                inc.call("drop", "mode", "n", o[1])
            count(rec, "faults", "mode_switch")
        else:
            for inc in (a, b):
                inc.call("drop", {"copy": "copy_"}.get(o[0], o[0]), "n")
            count(rec, "faults", o[0])
    rec["measures"].append(json.dumps([spec, [o[0] for o in plan["ops"]]]))
