"""C05: results do not depend on what was built before in the process."""
import json
from sim import zoo
from sim.props import c01
from sim.props.common import count, differs, dict_differs, pollution
from sim.props.c03 import first_diff

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 2
UNEXPECTED = "exception"
SHRINK = ["history", "targets", "spec.layers"]
RULE = "distinct (history of constructions, target construction); non-trivial: at least two constructions precede the target in the same process"
COMPONENTS = {"real": ["e2cnn in both processes"], "stub": ["none; aborted constructions by an injected exception, history and order chosen by the seed"]}
ASSUMPTIONS = ["float32 on CPU, one thread", "objects compared by value: shapes, names, sampled values (tolerance 1e-6), outputs for the same parameters (1e-5)"]


def history(rng, spec, g):
    out = []
    for _ in range(rng.randint(2, 6)):
        c = rng.random()
        if c < 0.25 and spec is not None:
            out.append(["life", "other", zoo.mutate(rng, spec), rng.randint(0, 99)])
        elif c < 0.35:
            out.append(["life", "other", zoo.model_spec(rng, small=True), rng.randint(0, 99)])
        elif c < 0.45 and spec is not None:
            out.append(["life", "abort", "other", rng.randint(1, 3000), zoo.mutate(rng, spec) if rng.random() < 0.5 else spec, 3])
        elif c < 0.65:
            out.append(["objs", "tryask", zoo.obj_request(rng)])
        elif c < 0.70:
            out.append(["objs", "abortask", rng.randint(1, 300), rng.choice(["KeyboardInterrupt", "MemoryError"]), zoo.gs_request(rng, g)])
        elif c < 0.74:
            out.append(["objs", "tryask", bad(rng)])
        elif c < 0.77:
            out.append(["objs", "tryask", zoo.many_request(rng)])
        else:
            out.append(["objs", "tryask", zoo.gs_request(rng, near(rng, g))])
    return out


def near(rng, g):
    """the same or a similar symmetry"""
    if rng.random() < 0.6:
        return g
    h = list(g)
    if g[0] in ("flip", "fliprot", "o2"):
        h[-1] = rng.choice([0.0, zoo.PI / 4, zoo.PI / 2, 3 * zoo.PI / 4])
    elif g[0] == "so2":
        h[1] = rng.choice([1, 2, 3, 4])
    elif g[0] == "rot":
        h[1] = rng.choice([2, 3, 4, 6, 8])
    return h


def bad(rng):
    return rng.choice([["reg", ["SO2", 2]], ["quot", ["C", 4], 3], ["irrep", ["C", 4], [9]], ["irrep", ["D", 4], [0, 1]], ["sub", ["D", 4], [7, 2]],
                       ["basis", ["rot", 4], ["irrep", [1]], ["irrep", [1]], {"sigma": [0.6], "rings": [0., 1.], "maximum_frequency": 2}],
                       ["basis", ["rot", 4], ["irrep", [1]], ["irrep", [1]], {"sigma": [0.6], "rings": [0.], "maximum_frequency": -1}],
                       ["diffop", ["rot", 4], ["irrep", [1]], ["irrep", [1]], {"max_power": 1, "disc": {"method": "none"}, "maximum_frequency": 1}],
                       ["type", ["so2", 2], [["reg"]]], ["gsrestrict", ["fliprot", 4, 0.], [9, 4]]])


def gen(rng, tier):
    if rng.random() < 0.5:
        spec = zoo.model_spec(rng, small=rng.random() < 0.6, layers=None if rng.random() < 0.5 else ["conv", "conv", "tconv", "diffop", "nonlin", "bn", "dis", "restrict"])
        return {"spec": spec, "seed": rng.randint(0, 10 ** 6), "nested": False, "history": history(rng, spec, spec["g"]), "h": rng.randint(0, 1), "targets": []}
    g = zoo.gspace_spec(rng, True)
    targets = [zoo.gs_request(rng, near(rng, g)) if rng.random() < 0.65 else zoo.obj_request(rng) for _ in range(rng.randint(1, 4))]
    return {"spec": None, "targets": targets, "history": history(rng, None, g) + [["objs", "tryask", mut_req(rng, rng.choice(targets))]], "h": rng.randint(0, 1), "seed": 0}


def mut_req(rng, q):
    """a request which differs from q in one detail"""
    q = json.loads(json.dumps(q))
    named = [r for r in q[2:4] if isinstance(r, list) and r and r[0] in ("sumq", "cb")]
    if q[0] in ("type", "typerestrict"):
        named = [r for r in q[2] if r[0] in ("sumq", "cb")]
    if named and rng.random() < 0.6:
        # another representation of the same name
        rng.choice(named)[2] += 5
        return q
    if q[0] in ("basis", "diffop"):
        c = rng.random()
        if c < 0.3:
            q[2] = zoo.rr(rng, q[1])
        elif c < 0.5:
            q[2], q[3] = q[3], q[2]
        else:
            a = q[4]
            k = rng.choice(sorted(a))
            if k == "sigma":
                dl = rng.choice([0.15, 0.02, 0.003])
                a[k] = [s + dl for s in a[k]]
            elif k == "rings":
                dl = rng.choice([0.25, 0.04, 0.003])
                a[k] = [r + dl for r in a[k]]
            elif k == "disc":
                a[k] = {"method": "gauss", "smoothing": rng.choice([0.6, 1.3])} if rng.random() < 0.1 else {"method": "fd", "angle_offset": rng.choice([None, 0.4, 0.9])}
            else:
                a[k] = a[k] + 1
    elif q[0] == "dsum":
        q[3] = rng.choice([None, 1, 2, 3])
    elif q[0] in ("sub", "quot", "restrict", "disent", "ind"):
        q = zoo.obj_request(rng, [q[0]], q[1])
    elif len(q) > 1 and q[0] in ("type", "typerestrict"):
        rng.shuffle(q[2])
    return q


def view_diff(a, b, path=""):
    import numpy as np
    if type(a) != type(b):
        return f"{path}: {type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} vs {sorted(b)}"
        for k in sorted(a):
            d = view_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            d = view_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, float)):
        d = differs(a, b, 1e-6, 1.0)
        return d and f"{path}: {d}"
    return None if a == b else f"{path}: {a!r} vs {b!r}"


def direct(plan, env, rec):
    from sim.engine import Violation, RemoteError
    warm, cold = env.spawn(plan["h"]), env.spawn(0)
    for o in plan["history"]:
        r = warm.call(o[0], o[1], *o[2:])
        if o[1].startswith("abort"):
            count(rec, "faults", f"{r if isinstance(r, str) else r[0]}_abort")
        elif r not in ("ok",):
            count(rec, "faults", "refused_request")
        rec["events"].append([o[1], str(r)])
        count(rec, "stats", "constructions")
    if plan["spec"] is None:
        for i, q in enumerate(plan["targets"]):
            a, b = ask(warm, q), ask(cold, q)
            d = view_diff(a, b)
            rec["events"].append(d)
            if d:
                raise Violation("history", f"{json.dumps(q)} after the history differs from the same request in a new process: {d}")
        count(rec, "stats", "object_comparisons", len(plan["targets"]))
    else:
        for p in (warm, cold):
            p.call("life", "build", "n", plan["spec"], plan["seed"], plan["nested"])
        a, b = warm.call("life", "layout", "n"), cold.call("life", "layout", "n")
        if a != b:
            raise Violation("layout", f"layout after the history differs from a new process: {first_diff(a, b)}; spec {json.dumps(plan['spec'])}")
        va, vb = warm.call("life", "dump", "n"), cold.call("life", "dump", "n")
        d = dict_differs(va, vb, 1e-5)
        if d:
            raise Violation("initial", f"initial parameters or buffers after the history differ from a new process: {d}; spec {json.dumps(plan['spec'])}")
        if plan["seed"] % 3 == 0:
            # the variances of the initialisation may come from a cache
            for p, cache in ((warm, True), (warm, True), (cold, False)):
                p.call("life", "reinit", "n", 21, cache)
            d = dict_differs(warm.call("life", "dump", "n"), cold.call("life", "dump", "n"), 1e-5)
            if d:
                raise Violation("initial", f"initialisation with cached variances after the history differs from a new process: {d}; spec {json.dumps(plan['spec'])}")
            count(rec, "stats", "cached_initialisations")
        cold.call("life", "perturb", "n", 3, 0.5)
        warm.call("life", "fill", "n", {k: v for k, v in cold.call("life", "dump", "n").items()})
        ga, gb = (p.call("life", "ops", [["rng", 5], ["grads", "n", 11], ["rng", 5]])[1] for p in (warm, cold))
        ga, gb = ({k: (v.numpy() if v is not None else []) for k, v in x.items()} for x in (ga, gb))
        scale = max([float(abs(v).max()) for v in gb.values() if len(v) and v.size] or [1.])
        d = dict_differs(ga, gb, 1e-4, max(scale, 1e-3))
        if d:
            raise Violation("gradient", f"gradients after the history differ from a new process: {d}; spec {json.dumps(plan['spec'])}")
        d = differs(warm.call("life", "predict", "n", 12), cold.call("life", "predict", "n", 12), 1e-5)
        rec["events"].append(d)
        if d:
            raise Violation("function", f"the same parameters give another function after the history than in a new process: {d}; spec {json.dumps(plan['spec'])}")
        count(rec, "stats", "network_comparisons")
    if len(plan["history"]) > 1:
        rec["measures"].append(json.dumps([plan["history"], plan["spec"], plan["targets"]]))


def ask(p, q):
    from sim.engine import RemoteError
    try:
        return p.call("objs", "views", [q])[0]
    except RemoteError as e:
        if e.tb_is_harness():
            raise
        return {"refused": e.typ}
