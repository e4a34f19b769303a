"""C16: objects built earlier stay valid while groups and caches grow."""
import json
from sim import zoo
from sim.props.common import count, differs

RUNS = {"quick": 20000, "thorough": 600000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 3
UNEXPECTED = "exception"
SHRINK = ["ops"]
RULE = "distinct histories (requests, growth, failed and interrupted requests) after which at least one object obtained earlier was compared"
COMPONENTS = {"real": ["e2cnn's groups, representations, spaces, types, layers"], "stub": ["the history of requests and the points where some are interrupted come from the seed"]}
ASSUMPTIONS = ["values compared at 1e-7 (functions of networks at 1e-5 relative)"]
FIB = {"rot": "C", "fliprot": "D", "so2": "SO2", "o2": "O2"}
EXC = ["KeyboardInterrupt", "MemoryError"]


def spaces(rng):
    """a space and its fibre group"""
    while True:
        g = zoo.gspace_spec(rng, True)
        if g[0] in FIB:
            return g, [FIB[g[0]], g[1]]


def bigger(rng, x):
    """the same continuous group (or space) asked for with another frequency"""
    y = list(x)
    if y[0] in ("SO2", "O2", "so2", "o2"):
        y[1] = rng.choice([1, 2, 3, 4, 5, 6, 8])
    return y


def gen(rng, tier):
    g, G = spaces(rng)
    if rng.random() < 0.55:
        c = rng.random() < 0.5
        G = ["SO2" if c else "O2", rng.randint(1, 2)]
        g = ["so2", G[1]] if c else ["o2", G[1], rng.choice([0., zoo.PI / 2])]
    ops = []

    def req(many=0.06):
        c = rng.random()
        if c < many:
            return zoo.many_request(rng)
        if c < 0.7:
            return zoo.obj_request(rng, None, bigger(rng, G))
        if c < 0.85:
            return zoo.gs_request(rng, bigger(rng, g))
        return zoo.obj_request(rng)
    ops.append(["get", zoo.obj_request(rng, None, G)])
    for _ in range(rng.randint(4, 14)):
        c = rng.random()
        if c < 0.30:
            ops.append(["get", req(0)])
        elif c < 0.38:
            spec = zoo.model_spec(rng, small=True, g=g if rng.random() < 0.8 else None, depth=rng.randint(1, 3))
            ops.append(["net", spec, rng.random() < 0.3])
        elif c < 0.55:
            ops.append(["grow", req()])
        elif c < 0.60:
            ops.append(["grownet", zoo.model_spec(rng, small=True, g=bigger(rng, g), depth=2), rng.randint(0, 99)])
        elif c < 0.65:
            ops.append(["abort", rng.randint(1, 600), rng.choice(EXC), req(0)])
        elif c < 0.69:
            ops.append(["bad", rng.choice([["irrep", G, [9, 99]], ["sub", G, [7, 7, 7]], ["irrep", G, [-1]], ["restrict", G, [None, 97], zoo.g_irreps(G)[0]], ["quot", G, 55]])])
        elif c < 0.72:
            ops.append(["gc"])
        elif c < 0.84:
            ops.append(["interop", zoo.obj_request(rng, ["irrep", "irrep", "triv", "dsum", "reg"] + ["ind"] * (G[0] != "SO2"), bigger(rng, G))])
        elif c < 0.92:
            ga, gb = bigger(rng, g), bigger(rng, g)
            ids = [zoo.g_irreps([G[0], max(ga[1], gb[1])]) for _ in range(2)]
            qa, qb = [["irrep", bigger(rng, G), rng.choice(i)] for i in ids]
            for q in (qa, qb):
                if q[1][0] in ("SO2", "O2"):
                    q[1][1] = max(q[1][1], q[2][-1], 1)
            if rng.random() < 0.7:
                ops.insert(rng.randint(0, len(ops)), ["get", qa])
            ops.append(["layer", ga, gb, qa, qb, rng.randint(0, 999)])
        else:
            ops.append(["check"])
    return {"ops": ops, "h": rng.randint(0, 3)}


def direct(plan, env, rec):
    from sim.engine import Violation
    inc = env.spawn(plan["h"])
    n = 0

    def fail(cls, d, i):
        if d:
            raise Violation(cls, f"{d}; after {json.dumps(plan['ops'][:i + 1])}")
    for i, o in enumerate(plan["ops"]):
        k = o[0]
        if k == "get":
            inc.call("grow", "get", o[1])
        elif k == "net":
            inc.call("grow", "net", o[1], o[2])
        elif k == "grow":
            inc.call("grow", "grow", o[1])
            count(rec, "faults", "growth")
        elif k == "grownet":
            inc.call("grow", "grownet", o[1], o[2])
            count(rec, "faults", "growth_network")
        elif k == "abort":
            if inc.call("objs", "abortask", o[1], o[2], o[3]) != "ok":
                count(rec, "faults", "interrupted_request")
        elif k == "bad":
            if inc.call("objs", "tryask", o[1]) != "ok":
                count(rec, "faults", "refused_request")
        elif k == "gc":
            inc.call("grow", "collect")
        elif k == "interop":
            d, m = inc.call("grow", "interop", o[1], None)
            fail("interoperation", d, i)
            count(rec, "stats", "interoperations", m)
            n += m
        elif k == "layer":
            a = inc.call("grow", "layer", *o[1:5], True, o[5])
            # where everything is obtained in one go, in a new process
            b = env.spawn(0).call("grow", "layer", *o[1:5], False, o[5])
            d = "parameters differ" if a["names"] != b["names"] else differs(a["y"], b["y"], 1e-4) or differs(a["z"], b["z"], 1e-4)
            fail("layer", d and f"a layer mixing objects obtained earlier and now computes another function than one built of new objects: {d}", i)
            count(rec, "stats", "layers_compared")
            n += 1
        if k == "check" or i == len(plan["ops"]) - 1:
            d, m = inc.call("grow", "check")
            fail("changed", d, i)
            count(rec, "stats", "objects_compared", m)
            n += m
        rec["events"].append([k, n])
    if n:
        rec["measures"].append(json.dumps([[o[0], o[1] if len(o) > 1 else None] for o in plan["ops"]]))
