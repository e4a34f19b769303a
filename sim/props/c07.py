"""C07: groups and representations are unique, also with concurrent callers."""
import json
from sim import zoo
from sim.props.common import count
from sim.props.c05 import view_diff

RUNS = {"quick": 8000, "thorough": 400000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["preempts", "threads.0", "threads.1", "threads.2", "threads.3", "pre"]
RULE = "distinct switch sequence (thread, step, target) of a run in which at least one preemption fired inside the library while two or more threads were asking for objects"
COMPONENTS = {"real": ["e2cnn.group, Python threads"], "stub": ["thread scheduler (one thread runs at a time, switches at seeded lines or bytecodes of the library)", "threading.Lock/RLock created by the library (cooperative, same semantics)"]}
ASSUMPTIONS = ["threads switch between lines or bytecodes of e2cnn's own code; calls into numpy, torch and builtins are atomic", "requests are valid on their own"]
KINDS = ["group", "group", "irrep", "irrep", "irrep", "irreps", "byname", "triv", "reg", "quot", "ind", "sub", "sub", "restrict", "dsum", "disent", "restrictreg"]


def gen(rng, tier):
    # few groups, so that the threads collide
    Gs = [zoo.group_spec(rng, (1, 2, 3, 5)) for _ in range(rng.choice([1, 1, 2]))]
    Gs = [[G[0], min(G[1], 6)] if rng.random() < 0.8 else G for G in Gs]
    pool = []
    for _ in range(rng.randint(1, 5)):
        G = rng.choice(Gs)
        if G[0] in ("SO2", "O2"):
            G = [G[0], rng.choice([1, 2, 3, 5, 7])]
        pool.append(zoo.obj_request(rng, KINDS, G))
        if rng.random() < 0.25:
            # the same object through its parent group
            pool.append(["group", G])
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    threads = []
    for _ in range(nt):
        t = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        threads.append(t)
    pre = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 2]))]
    if pre and rng.random() < 0.25:
        pre.append(zoo.many_request(rng, ("C", "D", "SO2", "O2", "subs", "quots")))
    return {"pre": pre, "threads": threads, "opcodes": rng.random() < 0.3, "pseed": rng.randint(0, 10 ** 9), "count": rng.choice([1, 2, 3, 4, 6, 10]), "h": rng.randint(0, 1), "preempts": None, "values": rng.random() < 0.3}


def direct(plan, env, rec):
    from sim.engine import Violation
    if plan["preempts"] is None:
        p = env.spawn(plan["h"]).call("conc", "profile_objs", plan["pre"], plan["threads"], plan["opcodes"], plan["pseed"], plan["count"])
        if p["bad"]:
            raise Violation("sequential", f"request fails without any concurrency: {p['bad'][0]}")
        plan["preempts"] = p["preempts"]
    w = env.spawn(plan["h"])
    r = w.call("conc", "run_objs", plan["pre"], plan["threads"], plan["opcodes"], plan["preempts"])
    rec["events"].append([r["steps"], r["switches"], r["bad"] and r["bad"][0], r["log"]])
    count(rec, "stats", "scheduler_steps", r["steps"])
    count(rec, "stats", "thread_switches", r["switches"])
    count(rec, "stats", "lock_contentions", r["contended"])
    count(rec, "faults", "preemption", r["fired"])
    if r["bad"]:
        raise Violation(r["bad"][0], f"{r['bad'][1]}; requests {json.dumps(plan['threads'])}; schedule {r['log'][:30]}")
    if plan["values"]:
        qs = [q for t in plan["threads"] for q in t]
        a, b = w.call("objs", "views", qs), env.spawn(0).call("objs", "views", qs)
        for q, x, y in zip(qs, a, b):
            d = view_diff(x, y)
            if d:
                raise Violation("value", f"{json.dumps(q)} built concurrently differs from the one built alone: {d}")
        count(rec, "stats", "values_compared", len(qs))
    if r["fired"]:
        rec["measures"].append(json.dumps([plan["threads"], r["log"]]))
