"""C08: concurrent construction and inference give the sequential results."""
import json
from sim import zoo
from sim.props.common import count
from sim.props.c05 import view_diff

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 65, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["rounds", "rounds.0.preempts", "preempts", "threads.0", "threads.1", "threads.2", "nets"]
RULE = "distinct (operations, switch sequence) of runs in which at least one preemption fired inside the library"
COMPONENTS = {"real": ["e2cnn, PyTorch, Python threads"], "stub": ["thread scheduler (one thread at a time, switches at seeded lines or bytecodes of the library)", "threading.Lock/RLock created by the library (cooperative)"]}
ASSUMPTIONS = ["threads switch inside e2cnn's own code; calls into numpy, torch and builtins are atomic", "parameter values are set after construction, because the initial ones are drawn from PyTorch's shared generator",
               "reference: the same operations one after the other in a new process; results compared with tolerance 1e-4 (1e-6 for objects)"]
LAY = ["conv", "conv", "conv", "tconv", "diffop", "diffop", "nonlin", "bn", "restrict", "dis", "multi", "pool", "gpool", "mask", "up", "shuf"]
SMALL_G = [["rot", 4], ["rot", 2], ["flip", zoo.PI / 2], ["fliprot", 2, zoo.PI / 2], ["so2", 2], ["o2", 1, zoo.PI / 2], ["fliprot", 4, 0.0], ["triv"]]


SERVE = ["nonlin"] * 6 + ["bn", "bn", "pool", "pool", "drop", "gpool", "gpool", "shuf", "dis", "multi", "restrict", "mask", "up", "cat", "res", "conv", "tconv", "diffop"]


def gen_serve(rng):
    """threads serving inference requests from shared networks"""
    nets = []
    for i in range(rng.randint(1, 3)):
        s = zoo.model_spec(rng, small=True, depth=rng.randint(1, 3), layers=SERVE, maxsize=8) if rng.random() < 0.75 else zoo.focus_spec(rng)
        s["size"] = 5
        nets.append([f"S{i}", s, rng.randint(0, 999)])
    rounds = []
    for _ in range(rng.randint(4, 12)):
        n, b = rng.choice(nets)[0], rng.choice([1, 2])
        threads = [[[n if rng.random() < 0.8 else rng.choice(nets)[0], rng.randint(0, 5), b if rng.random() < 0.85 else 3] for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 2, 3]))]
        rounds.append({"threads": threads, "preempts": None, "pseed": rng.randint(0, 10 ** 9), "count": rng.choice([1, 2, 3, 6])})
    return {"nets": nets, "rounds": rounds, "h": rng.randint(0, 1)}


def gen(rng, tier):
    if rng.random() < 0.35:
        return gen_serve(rng)
    base = zoo.model_spec(rng, small=True, depth=rng.randint(1, 2), g=list(rng.choice(SMALL_G)), layers=LAY, maxsize=8)
    base["size"] = 5
    specs = [base, zoo.mutate(rng, base)]
    other = zoo.model_spec(rng, small=True, depth=1, g=list(rng.choice(SMALL_G)), layers=LAY, maxsize=8)
    other["size"] = 5
    specs.append(other)
    nets = []
    style = rng.random()
    if style < 0.5:
        s = zoo.model_spec(rng, small=True, depth=rng.randint(1, 4), layers=LAY)
        nets.append(["S", s, rng.randint(0, 999)])
    ops = []

    def op():
        c = rng.random()
        if nets and c < 0.5:
            return ["infer", "S", rng.randint(0, 3), rng.choice([1, 2, 3])]
        if c < 0.72:
            return ["build", rng.choice(specs), rng.randint(0, 9)]
        if c < 0.90:
            return ["ask", zoo.gs_request(rng, base["g"])]
        if c < 0.93:
            return ["ask", zoo.obj_request(rng)]
        if c < 0.97:
            return ["export", rng.choice(specs), rng.randint(0, 9)]
        return ["train", rng.choice(specs), rng.randint(0, 9)]
    pool = [op() for _ in range(rng.randint(1, 4))]
    threads = [[rng.choice(pool) for _ in range(rng.randint(1, 2 if not nets else 3))] for _ in range(rng.choice([2, 2, 3]))]
    return {"nets": nets, "threads": threads, "opcodes": rng.random() < 0.15, "pseed": rng.randint(0, 10 ** 9), "count": rng.choice([1, 2, 3, 5, 8]), "h": rng.randint(0, 1), "preempts": None, "after": rng.random() < 0.5}


def same(a, b, o):
    if o[0] == "ask":
        return view_diff(a, b)
    return out_diff(a, b)


def out_diff(a, b):
    from sim.props.common import differs, dict_differs
    if isinstance(a["y"], str) or isinstance(b["y"], str):
        return None if isinstance(a["y"], str) and isinstance(b["y"], str) else "supported in one case only"
    if "layout" in a and a["layout"] != b["layout"]:
        return "layout differs"
    if "bufs" in a:
        d = dict_differs(a["bufs"], b["bufs"], 1e-5)
        if d:
            return d
    return differs(a["y"], b["y"], 1e-4)


def serve(plan, env, rec):
    from sim.engine import Violation
    r = env.spawn(plan["h"]).call("conc", "burst", plan["nets"], plan["rounds"])
    rec["events"].append([r["steps"], r["switches"], r["bad"] and r["bad"][0], r["logs"]])
    count(rec, "stats", "scheduler_steps", r["steps"])
    count(rec, "stats", "thread_switches", r["switches"])
    count(rec, "stats", "lock_contentions", r["contended"])
    count(rec, "stats", "results_compared", r["compared"])
    count(rec, "faults", "preemption", r["fired"])
    if r["bad"]:
        plan["rounds"][r["round"]]["preempts"] = r["preempts"]
        raise Violation(r["bad"][0], f"{r['bad'][1]}; round {json.dumps(plan['rounds'][r['round']])}; nets {json.dumps(plan['nets'])}")
    for t, log in zip(plan["rounds"], r["logs"]):
        rec["measures"].append(json.dumps([[l[0] for n in plan["nets"] for l in n[1]["layers"]], t["threads"], log]))


def direct(plan, env, rec):
    from sim.engine import Violation
    if "rounds" in plan:
        return serve(plan, env, rec)
    if plan["preempts"] is None:
        p = env.spawn(plan["h"]).call("conc", "profile_acts", plan["nets"], plan["threads"], plan["opcodes"], plan["pseed"], plan["count"])
        if p["bad"]:
            raise Violation("sequential", f"an operation fails without any concurrency: {p['bad'][0]}")
        plan["preempts"] = p["preempts"]
    w = env.spawn(plan["h"])
    r = w.call("conc", "run_acts", plan["nets"], plan["threads"], plan["opcodes"], plan["preempts"])
    rec["events"].append([r["steps"], r["switches"], r["bad"] and r["bad"][0], r["log"]])
    count(rec, "stats", "scheduler_steps", r["steps"])
    count(rec, "stats", "thread_switches", r["switches"])
    count(rec, "stats", "lock_contentions", r["contended"])
    count(rec, "faults", "preemption", r["fired"])
    if r["bad"]:
        raise Violation(r["bad"][0], f"{r['bad'][1]}; operations {json.dumps(plan['threads'])}; schedule {r['log'][:30]}")
    # distinct operations once, in a new process
    uniq = []
    for t in plan["threads"]:
        for o in t:
            if o not in uniq:
                uniq.append(o)
    ref = env.spawn(0).call("conc", "seq_acts", plan["nets"], uniq)
    for t, outs in zip(plan["threads"], r["outs"]):
        for o, x in zip(t, outs):
            d = same(x, ref[uniq.index(o)], o)
            if d:
                raise Violation("result", f"{json.dumps(o)[:900]} run concurrently gives another result than alone: {d}; schedule {r['log'][:30]}")
            count(rec, "stats", "results_compared")
    if plan["after"]:
        for o, x, y in zip(uniq, w.call("conc", "again", uniq), ref):
            d = same(x, y, o)
            if d:
                raise Violation("afterwards", f"{json.dumps(o)[:900]} after all threads have ended gives another result than alone: {d}; schedule {r['log'][:30]}")
            count(rec, "stats", "afterwards_compared")
    if r["fired"]:
        rec["measures"].append(json.dumps([[o[0] for t in plan["threads"] for o in t], r["log"]]))
