"""C12: an interrupted operation leaves no damage behind."""
import json
from sim import zoo
from sim.props.common import count, differs
from sim.props.c05 import view_diff, near

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["ops", "pre"]
RULE = "distinct (operation, line of the library where it was interrupted, kind of exception) after which the operation and others were repeated and compared"
COMPONENTS = {"real": ["e2cnn, numpy, PyTorch"], "stub": ["exceptions are injected by the interpreter's trace and profile hooks at a point chosen by the seed; locks are instrumented"]}
ASSUMPTIONS = ["an interrupt does not hit clean-up code itself (with-statements' exit, finally and except blocks)", "float32 on CPU; values compared within 1e-6, outputs within 1e-5"]


def op_(rng, g, specs, nets):
    c = rng.random()
    if c < 0.30:
        return ["req", zoo.obj_request(rng)]
    if c < 0.60 or not specs:
        return ["req", zoo.gs_request(rng, near(rng, g))]
    if c < 0.80:
        return ["net", rng.choice(specs), rng.randint(0, 99), rng.random() < 0.3]
    n = rng.choice(nets)
    c = rng.random()
    if c < 0.4:
        return ["fwd", n, rng.randint(0, 99)]
    if c < 0.65:
        return ["eval", n]
    if c < 0.8:
        return ["export", n]
    return ["init", n, rng.randint(0, 99), rng.random() < 0.7]


def gen(rng, tier):
    g = zoo.gspace_spec(rng, True)
    specs = []
    nets = []
    pre = []
    if rng.random() < 0.6:
        specs = [zoo.model_spec(rng, small=True, g=g, depth=rng.randint(1, 3)) for _ in range(2)]
        specs.append(zoo.mutate(rng, specs[0]))
        nets = ["m0", "m1"]
        pre = [["net", specs[0], 5, False], ["net", specs[1], 6, False]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        pre.append(["req", zoo.obj_request(rng) if rng.random() < 0.5 else zoo.gs_request(rng, near(rng, g))])
    ops = []
    if rng.random() < 0.15:
        # a shared group which grows, interrupted while growing
        n = rng.choice(["SO2", "O2"])
        pre.append(["req", zoo.obj_request(rng, None, [n, rng.randint(1, 3)])])
        ops.append([["req", zoo.obj_request(rng, ["group", "irreps", "irreps", "byname", "triv", "irrep"], [n, rng.randint(4, 9)])], [rng.random() + rng.choice([0, 1])], rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.random() < 0.8])
    for _ in range(rng.randint(1, 4)):
        ops.append([op_(rng, g, specs, nets), [rng.random() + rng.choice([0, 1, 1]) for _ in range(rng.choice([1, 1, 1, 2, 3]))], rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError"]), rng.random() < 0.6])
    return {"pre": pre, "ops": ops, "h": rng.randint(0, 1)}


def groups(ops):
    out = []
    for o in ops:
        if o[0] == "req":
            q = o[1]
            G = q[1] if q[1][0] in ("C", "D", "SO2", "O2") else {"triv": ["C", 1], "flip": ["C", 2], "rot": ["C", q[1][-1]], "so2": ["SO2", q[1][-1]],
                                                                "fliprot": ["D", q[1][1] if len(q[1]) > 1 else 1], "o2": ["O2", q[1][1] if len(q[1]) > 1 else 1]}[q[1][0]]
            if G not in out:
                out.append(G)
    return out


def compare(a, b):
    if a["refused"] != b["refused"]:
        return f"the operation {'is refused: ' + str(b['refused']) + ' ' + b.get('text', '') + b.get('tb', '') if b['refused'] else 'is no longer refused'}"
    return None if a["refused"] else view_diff(a["value"], b["value"])


def direct(plan, env, rec):
    from sim.engine import Violation
    ref, inc = env.spawn(plan["h"]), env.spawn(plan["h"])
    for i, o in enumerate(plan["pre"]):
        for p in (ref, inc):
            p.call("inter", "retry", o, f"m{i}")
    hist = []
    done = []
    for j, (o, us, exc, lines) in enumerate(plan["ops"]):
        slot = f"o{j}"
        want = ref.call("inter", "undisturbed", o, slot, lines)
        for u in us:
            # any point of the execution, or the first or last pass over a line chosen among all the lines executed
            at = 1 + int(u * max(want["n"], 1)) if u < 1 or not want["marks"] else want["marks"][int((u - 1) * len(want["marks"]))]
            r = inc.call("inter", "interrupted", o, slot + "x", at, exc, lines)
            rec["events"].append([o[0], at, r])
            count(rec, "stats", "attempts")
            if r["how"] == "injected":
                count(rec, "faults", exc)
                rec["measures"].append(json.dumps([o[0], o[1][0] if o[0] == "req" else None, r["site"][:2], exc]))
            elif r["how"] != "done" and r["how"] != want["refused"]:
                # the exception was turned into another one on its way
                count(rec, "stats", "converted_exceptions")
            hist.append([o, r["site"], exc])
            if r["settings"]:
                raise Violation("settings", f"an interrupted operation changed process-wide settings {r['settings']}; interrupted {json.dumps(hist)}")
        got = inc.call("inter", "retry", o, slot)
        d = compare(want, got)
        if d:
            raise Violation("retry", f"repeating an interrupted operation gives another result: {d}; interrupted {json.dumps(hist)}; before {json.dumps(plan['pre'])}")
        if got.get("settings"):
            raise Violation("settings", f"an operation changed process-wide settings {got['settings']}: {json.dumps(o)}")
        done.append((o, want))
        count(rec, "stats", "retries_compared")
        # and everything done before can be done again
        if j < len(plan["ops"]) - 1:
            continue
        for k, (p, w) in enumerate(done[:-1] + [(x, None) for x in plan["pre"]][:2]):
            if p[0] in ("req", "net", "fwd"):
                if w is None or p[0] == "fwd":
                    w = ref.call("inter", "retry", p, "again")
                d = compare(w, inc.call("inter", "retry", p, "again"))
                if d:
                    raise Violation("others", f"operation {json.dumps(p)} gives another result after interrupted operations: {d}; interrupted {json.dumps(hist)}")
                count(rec, "stats", "others_compared")
    a = inc.call("inter", "audit", groups([o for o, *_ in plan["ops"]]))
    if a:
        raise Violation("registry", f"{a}; interrupted {json.dumps(hist)}")
