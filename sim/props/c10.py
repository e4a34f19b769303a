"""C10: the PDO cache conserves its entries and never changes a stencil."""
import json, os
import numpy as np
from sim import zoo
from sim.props.common import count, differs

RUNS = {"quick": 8000, "thorough": 400000}
BUDGET = {"quick": 55, "thorough": 1500}
ZYGOTES = 4
UNEXPECTED = "exception"
SHRINK = ["ops"]
RULE = "distinct histories (operation kinds, files, processes) which contain at least one load of a stored file"
COMPONENTS = {"real": ["e2cnn.diffops, R2Diffop, files on tmpfs"], "stub": ["process restarts and the history of operations come from the seed; finite-difference computations are counted at sympy's function"]}
ASSUMPTIONS = ["method fd (the package needed by the others is not installed)", "reference stencils: moment equations solved exactly, tolerance 1e-8; cached and newly computed ones agree within 1e-12"]


def items(rng):
    out = []
    for i in range(8):
        n = rng.choice([0, 1, 1, 2])
        out.append([rng.choice([3, 3, 3, 5]), round(0.5 + 0.017 * i, 4), [round(rng.uniform(-2, 2), 3) or 1.0 for _ in range(n + 1)], "float64", None])
    if rng.random() < 0.3:
        # the zero operator is an operator, too
        it = rng.choice(out)
        it[2] = [0.0 for _ in it[2]]
    return out


def variants(rng, it):
    """keys which must not be confused with the one of ``it``"""
    k, s, co, dt, sm = it
    c = rng.random()
    if c < 0.3:
        co2 = list(co)
        co2[rng.randrange(len(co2))] += rng.choice([0.5, 0.5, 1e-3, 1e-5])
        return [k, s, co2, dt, sm]
    if c < 0.5:
        return [k, s, list(reversed(co)), dt, sm]
    if c < 0.65:
        return [k, s, co, "float32", sm]
    if c < 0.8:
        return [5 if k == 3 else 3, s, co, dt, sm]
    if c < 0.9:
        # float32 data with the bytes of the float64 coefficients
        f = np.frombuffer(np.array(co, dtype="float64").tobytes(), dtype="float32")
        if k > len(f) - 1 and np.isfinite(f).all():
            return [k, s, [float(x) for x in f], "float32", sm]
        return [k, s, [2 * x for x in co], dt, sm]
    return [k, round(s + rng.choice([0.25, 1e-3, 1e-5]), 7), co, dt, sm]


def layer(rng):
    g = rng.choice([["rot", 4], ["rot", 2], ["flip", zoo.PI / 2], ["fliprot", 2, zoo.PI / 2], ["so2", 2], ["o2", 1, zoo.PI / 2]])
    o = rng.choice([{}, {"maximum_power": 1}, {"angle_offset": 0.4}]) if g[0] in ("rot", "so2") else {}
    return {"g": g, "in": [["irrep", rng.choice(zoo.irreps(g))]], "out": [["irrep", rng.choice(zoo.irreps(g))]], "k": rng.choice([3, 3, 5]), "opt": o}


def gen(rng, tier):
    its = items(rng)
    vs = [variants(rng, rng.choice(its)) for _ in range(4)]
    layers = [layer(rng) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(4, 12)):
        c = rng.random()
        if c < 0.25:
            ops.append(["fill", sorted(rng.sample(range(8), rng.randint(1, 3))), rng.random() < 0.5])
        elif c < 0.42:
            ops.append(["store", rng.randint(0, 2)])
        elif c < 0.60:
            ops.append(["load", rng.randint(0, 2)])
        elif c < 0.72:
            ops.append(["restart"])
        elif c < 0.82:
            ops.append([rng.choice(["probe", "census"])])
        elif c < 0.88:
            ops.append(["variants"])
        elif c < 0.91:
            ops.append(["abortload", rng.randint(0, 2), rng.randint(1, 8), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        elif c < 0.98:
            ops.append(["layer", rng.randint(0, 1), rng.choice([True, True, "store", "load", False]), rng.randint(0, 99)])
        else:
            ops.append(["copy", rng.randint(0, 2), rng.randint(0, 2)])
    return {"items": its, "variants": vs, "layers": layers, "ops": ops + [["store", 0], ["restart"], ["load", 0], ["probe"]], "h": rng.randint(0, 3)}


def direct(plan, env, rec):
    from sim.engine import Violation
    root = env.dir()
    its = plan["items"]
    files = {i: (os.path.join(root, f"f{i}.pickle") if i else "f0.pickle") for i in range(3)}
    on = {}                      # file -> set of entries (ints, ("L", i) for layers)
    default = None
    mem = set()
    hist = []
    loads = 0

    def new():
        p = env.spawn(plan["h"] + env.spawned)
        p.call("disk", "setup", root)
        return p
    inc = new()

    def probe(where):
        want = sorted(i for i in mem if isinstance(i, int))
        works, res = inc.call("disk", "probe", [its[i] for i in want])
        for i, (served, ok) in zip(want, res):
            if not ok:
                raise Violation("value", f"{where}: wrong stencil for {its[i]}; history {json.dumps(hist)}")
            if works and not served:
                raise Violation("recomputed", f"{where}: {its[i]} was computed again although it is in the cache; history {json.dumps(hist)}")
        count(rec, "stats", "entries_probed", len(want))
        rec["events"].append(["probe", res])

    def census(where):
        """what the cache in memory holds, seen by storing it elsewhere and loading it in a new process"""
        nonlocal inc
        want = sorted(i for i in mem if isinstance(i, int))
        f = os.path.join(root, "census.pickle")
        inc.call("disk", "plain_store", f)
        p = new()
        st = p.call("disk", "load", f)
        works, res = p.call("disk", "probe", [its[i] for i in want])
        p.kill()
        os.remove(f)
        rec["events"].append(["census", st, res])
        if st != "ok":
            raise Violation("load", f"{where}: a stored cache cannot be loaded: {st}; history {json.dumps(hist)}")
        for i, (served, ok) in zip(want, res):
            if not ok or works and not served:
                raise Violation("lost", f"{where}: {its[i]} is no longer in the cache (or wrong), a store does not write it; history {json.dumps(hist)}")
        count(rec, "stats", "entries_stored_and_found", len(want))
    for o in plan["ops"]:
        hist.append(o[:2])
        count(rec, "stats", "operations")
        if o[0] == "fill":
            bad = inc.call("disk", "fill", [its[i] for i in o[1]], o[2])
            if bad:
                raise Violation("value", f"wrong stencil for {bad[:2]} (arrays returned earlier were overwritten by the caller: {o[2]}); history {json.dumps(hist)}")
            mem |= set(o[1])
            if o[2]:
                count(rec, "faults", "returned_arrays_overwritten")
        elif o[0] == "store":
            inc.call("disk", "plain_store", files[o[1]])
            on[o[1]] = set(mem)
        elif o[0] == "load":
            st = inc.call("disk", "load", files[o[1]])
            rec["events"].append(["load", st])
            if o[1] in on:
                if st != "ok":
                    raise Violation("load", f"a stored cache cannot be loaded: {st}; history {json.dumps(hist)}")
                mem |= on[o[1]]
                loads += 1
            if o[1] in on:
                probe("after a load") if len(hist) % 2 else census("after a load")
        elif o[0] == "abortload":
            if o[1] in on:
                r = inc.call("disk", "abort_load", files[o[1]], o[2], o[3])
                if r == "injected":
                    count(rec, "faults", "load_aborted")
                elif r == "done":
                    mem |= on[o[1]]
                probe("after an aborted load")
        elif o[0] == "restart":
            inc.kill()
            inc = new()
            mem = set()
            count(rec, "faults", "process_restart")
        elif o[0] == "probe":
            probe("probe")
        elif o[0] == "census":
            census("census")
        elif o[0] == "variants":
            res = inc.call("disk", "check_values", plan["variants"] + its)
            mem |= set(range(len(its)))
            if not all(res):
                raise Violation("value", f"wrong stencil for {(plan['variants'] + its)[res.index(False)]}; history {json.dumps(hist)}")
        elif o[0] == "copy":
            if o[1] in on and o[1] != o[2]:
                open(os.path.join(root, files[o[2]]), "wb").write(open(os.path.join(root, files[o[1]]), "rb").read())
                on[o[2]] = set(on[o[1]])
        elif o[0] == "layer":
            if o[2] in (True, "load") and default is not None:
                mem |= default
                loads += 1
            r = inc.call("disk", "network", plan["layers"][o[1]], o[3], o[2])
            if r is None:
                # the refusal comes before anything is stored
                continue
            n, y = r
            rec["events"].append(["layer", n])
            if ("L", o[1]) in mem and n:
                raise Violation("recomputed", f"building layer {json.dumps(plan['layers'][o[1]])} computed {n} finite differences although all its operators are in the cache; history {json.dumps(hist)}")
            mem.add(("L", o[1]))
            if o[2] in (True, "store"):
                default = set(mem)
            ref = new()
            d = differs(y, ref.call("disk", "network", plan["layers"][o[1]], o[3], False)[1], 1e-5)
            ref.kill()
            if d:
                raise Violation("function", f"layer {json.dumps(plan['layers'][o[1]])} built with cached operators differs from one built without: {d}; history {json.dumps(hist)}")
            count(rec, "stats", "layers_compared")
    # values: cached and loaded ones equal newly computed ones
    a = inc.call("disk", "values", its)
    b = new().call("disk", "values", its)
    for it, x, y in zip(its, a, b):
        d = differs(x, y, 1e-12, 1.)
        if d:
            raise Violation("value", f"{it} differs from the stencil computed in a new process: {d}; history {json.dumps(hist)}")
    if loads:
        rec["measures"].append(json.dumps(hist))
