"""C09: the PDO cache file survives crashes and I/O errors."""
import json, os, random
from sim import zoo
from sim.props.common import count

RUNS = {"quick": 8000, "thorough": 400000}
BUDGET = {"quick": 60, "thorough": 1500}
ZYGOTES = 4
SHIM = True
UNEXPECTED = "exception"
SHRINK = ["ops", "preempts"]
RULE = "distinct (history, fault or crash placement, outcome) of runs in which a fault, crash, stall or preemption hit a store"
COMPONENTS = {"real": ["e2cnn.diffops, pickle, Python I/O, tmpfs for surviving bytes"],
              "stub": ["file system calls of the process under test (LD_PRELOAD shim: counted, failed, shortened, stalled, killed by plan)",
                       "power loss: the recorded calls replayed on a model disk (ordered metadata, data durable only after fsync)", "thread scheduler for concurrent stores of one process"]}
ASSUMPTIONS = ["metadata operations reach the disk in order, rename is atomic", "presence of an entry in a loaded cache is seen by its being served without a finite-difference computation (the counter is calibrated in every process)"]
ERR = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EINTR": 4, "EACCES": 13, "EMFILE": 24, "EROFS": 30, "ENOMEM": 12}


def item(rng, i):
    n = rng.choice([0, 1, 2, 2])
    co = [round(rng.uniform(-2, 2), 3) or 1.0 for _ in range(n + 1)]
    return [rng.choice([3, 3, 3, 5]), round(0.5 + 0.013 * i, 4), co, rng.choice(["float64", "float64", "float32"]), None]


def big(rng, i):
    return [rng.choice([5, 7]), round(0.5 + 0.013 * i, 4), [1.0, -0.5, 2.0], "float64", None]


def fault(rng):
    c = rng.random()
    n = rng.randint(1, 9)
    if c < 0.24:
        k = rng.choice(sorted(ERR))
        f = {"plan": f"{n}:E{ERR[k]}", "kind": k}
        if rng.random() < 0.4:
            # and then the power fails, too: a call that failed made nothing durable
            f["after"] = rng.randint(0, 10 ** 9)
        return f
    if c < 0.36:
        return {"plan": f"{n}:S{rng.choice([0, 1, 7, 100, 1000, 4000])}" + (f";{n + 1}:E{rng.choice([28, 5])}" if rng.random() < 0.5 else ""), "kind": "short_write"}
    if c < 0.50:
        return {"plan": f"{n}:{rng.choice('KA')}", "kind": "kill"}
    if c < 0.60:
        return {"plan": f"{n}:P{rng.choice([0, 1, 50, 500, 5000])}", "kind": "kill_torn_write"}
    if c < 0.70:
        return {"quota": rng.choice([0, 1, 100, 1000, 5000, 20000]), "kind": "disk_full"}
    if c < 0.76:
        return {"sticky": rng.randint(1, 8), "errno": rng.choice([28, 5]), "kind": "disk_gone"}
    if c < 0.84:
        return {"inject": [rng.randint(1, 14), rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"])], "kind": "exception"}
    return {"power": rng.randint(0, 10 ** 9), "kind": "power_loss"}


def gen(rng, tier):
    mode = rng.random()
    path = rng.choice(["c.pickle", "c.pickle", "sub/c.pickle", "a/b/c.pickle", None])
    items = [item(rng, i) for i in range(7)]
    if rng.random() < 0.3:
        items += [big(rng, 20 + i) for i in range(rng.choice([4, 12]))]
    plan = {"path": path, "items": items, "h": rng.randint(0, 3), "cwd": rng.random() < 0.5, "preempts": None}
    if mode < 0.12:
        plan["kind"] = "stall"
        plan["ops"] = []
        plan["sets"] = [sorted(rng.sample(range(len(items)), rng.randint(1, min(6, len(items))))) for _ in range(2)]
        plan["stall"] = [rng.randint(1, 8), rng.choice([None, rng.randint(1, 8)])]
        plan["old"] = rng.random() < 0.5
        return plan
    if mode < 0.24:
        plan["kind"] = "threads"
        plan["ops"] = []
        prog = []
        for t in range(rng.choice([2, 2, 3])):
            p = []
            for _ in range(rng.randint(1, 3)):
                p.append(["store"] if rng.random() < 0.6 else ["load"] if rng.random() < 0.3 else ["fill", sorted(rng.sample(range(7), 3))])
            prog.append(p)
        if not any(o[0] == "store" for p in prog for o in p):
            prog[0].append(["store"])
        plan.update(programs=prog, opcodes=rng.random() < 0.4, pseed=rng.randint(0, 10 ** 9), count=rng.choice([1, 2, 4, 8]), first=sorted(rng.sample(range(7), rng.randint(0, 3))), old=rng.random() < 0.6)
        return plan
    plan["kind"] = "faults"
    ops = []
    for _ in range(rng.randint(2, 6)):
        c = rng.random()
        if c < 0.35:
            ops.append(["fill", sorted(rng.sample(range(len(items)), rng.randint(1, 4))), rng.random() < 0.2])
        elif c < 0.45:
            ops.append(["restart", rng.random() < 0.6])
        else:
            ops.append(["store", fault(rng) if rng.random() < 0.75 else {"kind": "none"}])
    ops.append(["store", fault(rng)])
    plan["ops"] = [["fill", list(range(rng.randint(1, len(items)))) if len(items) > 8 else [0, 1], False]] + ops
    return plan


def where(plan, root):
    """(path as the caller writes it, absolute path of the file)"""
    p = plan["path"]
    if p is None:
        return None, os.path.join(root, ".e2cnn_cache/diffops.pickle")
    return (p if plan["cwd"] else os.path.join(root, p)), os.path.join(root, p)


def look(env, plan, root, cwd, path, items):
    """a new process loads the file -> (status, set of items present or None if unknown)"""
    p = env.spawn(plan["h"] + env.spawned)
    p.call("disk", "setup", cwd)
    st = p.call("disk", "load", path)
    works, res = p.call("disk", "probe", items)
    p.kill()
    if not works:
        return st, None, [i for i, r in enumerate(res) if not r[1]]
    return st, frozenset(i for i, r in enumerate(res) if r[0]), [i for i, r in enumerate(res) if not r[1]]


def judge(env, rec, plan, root, allowed, what):
    """the file must hold one of the allowed versions (None: absent)"""
    from sim.engine import Violation
    path, full = where(plan, root)
    exists = os.path.exists(full)
    st, have, wrong = look(env, plan, root, root, path, plan["items"])
    count(rec, "stats", "recoveries_checked")
    rec["events"].append(["look", st, exists, sorted(have) if have is not None else None])
    if st not in ("ok", "absent"):
        raise Violation("unreadable", f"after {what} the cache file cannot be loaded: {st}")
    if wrong:
        raise Violation("value", f"after {what} the loaded cache serves wrong values for {[plan['items'][i] for i in wrong][:2]}")
    if not exists:
        if None not in allowed:
            raise Violation("lost", f"after {what} the cache file is gone, although a version of it was stored before")
        return None
    if have is None:
        return next((a for a in allowed if a is not None), None)
    ok = [a for a in allowed if a is not None and a == have]
    if not ok:
        raise Violation("version", f"after {what} the cache file holds entries {sorted(have)}, allowed versions {[sorted(a) if a is not None else None for a in allowed]}")
    return ok[0]


def direct(plan, env, rec):
    root = os.path.join(env.dir(), "d")
    os.mkdir(root)
    if plan["kind"] == "faults":
        faults(plan, env, rec, root)
    elif plan["kind"] == "stall":
        stall(plan, env, rec, root)
    else:
        threads(plan, env, rec, root)


def snapshot(root):
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = open(p, "rb").read()
    return out


def faults(plan, env, rec, root):
    from sim.engine import Violation, Crash
    path, full = where(plan, root)
    items = plan["items"]
    inc = env.spawn(plan["h"] + env.spawned)
    inc.call("disk", "setup", root)
    mem = set()
    disk = None                       # version on disk: None or frozenset
    shape = []
    logn = 0
    for o in plan["ops"]:
        count(rec, "stats", "operations")
        if o[0] == "fill":
            bad = inc.call("disk", "fill", [items[i] for i in o[1] if i < len(items)], o[2])
            if bad:
                raise Violation("value", f"wrong stencil for {bad[:2]}")
            mem |= {i for i in o[1] if i < len(items)}
            continue
        if o[0] == "restart":
            inc.kill()
            count(rec, "faults", "process_restart")
            inc = env.spawn(plan["h"] + env.spawned)
            inc.call("disk", "setup", root)
            mem = set()
            if o[1]:
                st = inc.call("disk", "load", path)
                if st not in ("ok", "absent"):
                    raise Violation("unreadable", f"the stored cache cannot be loaded: {st}")
                mem = set(disk) if disk is not None else set()
            continue
        f = o[1]
        left = [p for p in listdir(root)]
        power = f.get("power", f.get("after"))
        before = snapshot(root) if power is not None else None
        logn += 1
        logp = os.path.join(env.dir(), f"log{logn}") if power is not None else None
        new = frozenset(mem)
        died = False
        try:
            st = inc.call("disk", "store", root, path, f.get("plan", ""), f.get("quota", -1), f.get("sticky", -1), f.get("errno", 0), logp, f.get("inject"))
        except Crash:
            died = True
            st = ["killed", "", 1, 0]
        rec["events"].append(["store", f["kind"], st[0], st[2]])
        shape.append([f["kind"], f.get("plan"), st[0]])
        if st[2] or st[0] == "injected":
            count(rec, "faults", f["kind"])
        what = f"a store with fault {json.dumps(f)} ({st[0]} {st[1]})"
        if power is not None:
            if "power" in f and st[0] != "ok":
                raise Violation("error", f"a store without faults failed: {st}")
            log = parse_log(logp)
            r = random.Random(power)
            k = r.randint(0, len(log)) if "power" in f and r.random() < 0.8 else len(log)
            state, lost = powerloss(before, log, k, r)
            count(rec, "faults", "power_loss")
            if lost["data_lost"]:
                count(rec, "faults", "unsynced_data_lost")
            if lost["metadata_lost"]:
                count(rec, "faults", "metadata_lost")
            rec["events"].append(["power", k, lost])
            inc.kill()
            wipe(root)
            for p, c in state.items():
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(c)
            disk = judge(env, rec, plan, root, [disk, new], f"a power loss after {k} of {len(log)} file operations of {what} ({lost})")
            inc = env.spawn(plan["h"] + env.spawned)
            inc.call("disk", "setup", root)
            mem = set()
            continue
        if died:
            disk = judge(env, rec, plan, root, [disk, new], what)
            inc = env.spawn(plan["h"] + env.spawned)
            inc.call("disk", "setup", root)
            mem = set()
            continue
        if st[0] == "ok":
            if f.get("sticky", -1) >= 0 and st[2] and f["sticky"] <= 1:
                raise Violation("swallowed", f"{what} returned normally although every file operation failed")
            # a store that returned is durable with respect to the process: kill it half of the time
            disk = judge(env, rec, plan, root, [new], what)
        else:
            if f["kind"] == "none":
                raise Violation("error", f"a store without faults failed: {st}")
            disk = judge(env, rec, plan, root, [disk, new], what)
            # clean-up may itself be hit by the fault
            if f["kind"] not in ("disk_gone",) and unlinkable(f):
                extra = [p for p in listdir(root) if p not in left and os.path.join(root, p) != full]
                if extra:
                    raise Violation("litter", f"{what} left files behind: {extra}")
            works, res = inc.call("disk", "probe", [items[i] for i in sorted(mem)])
            if works and not all(r[0] for r in res) or not all(r[1] for r in res):
                raise Violation("memory", f"{what} damaged the cache in memory")
            # the next store, without fault, succeeds
            st2 = inc.call("disk", "store", root, path)
            if st2[0] != "ok":
                raise Violation("recovery", f"after {what} a store without faults fails: {st2}")
            disk = judge(env, rec, plan, root, [new], "a store repeated after an error")
    rec["measures"].append(json.dumps([plan["path"], len(items), shape]))


def unlinkable(f):
    # one planned error, so the removal of the temporary file (a later call) works, unless two were planned
    return f.get("plan", "").count(":E") <= 1


def listdir(root):
    out = []
    for r, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(r, x), root) for x in fs]
    return sorted(out)


def wipe(root):
    import shutil
    shutil.rmtree(root)
    os.mkdir(root)


def parse_log(p):
    from sim import disklog
    return disklog.parse(p)


def powerloss(*a):
    from sim import disklog
    return disklog.powerloss(*a)


def stall(plan, env, rec, root):
    """two processes store to the same path, one stalled between two of its file operations"""
    from sim.engine import Violation, Crash
    path, full = where(plan, root)
    items = plan["items"]
    old = None
    if plan["old"]:
        z = env.spawn(plan["h"] + env.spawned)
        z.call("disk", "setup", root)
        z.call("disk", "fill", [items[0]])
        z.call("disk", "store", root, path)
        z.kill()
        old = frozenset([0])
    a, b = env.spawn(plan["h"] + env.spawned), env.spawn(0)
    pids = [p.call("disk", "setup", root) for p in (a, b)]
    sets = [frozenset(i for i in s if i < len(items)) for s in plan["sets"]]
    for p, s in zip((a, b), sets):
        p.call("disk", "fill", [items[i] for i in sorted(s)])
    n, m = plan["stall"]
    sa = a.begin(pids[0], "disk", "store", root, path, f"{n}:T")
    count(rec, "faults", "stalled_process", int(sa))
    if sa:
        # readers meanwhile see a complete version
        judge(env, rec, plan, root, [old, sets[0]], "a store stalled half-way in another process")
    if m is None:
        rb = b.call("disk", "store", root, path)
    else:
        sb = b.begin(pids[1], "disk", "store", root, path, f"{m}:T")
        count(rec, "faults", "stalled_process", int(sb))
        ra0 = a.finish(sa)
        sa = None
        rb = b.finish(sb)
    ra = a.finish(sa) if sa is not None else ra0
    rec["events"].append([ra[0], rb[0], bool(sa)])
    for r in (ra, rb):
        if r[0] != "ok":
            raise Violation("concurrent", f"one of two concurrent stores failed: {r}")
    judge(env, rec, plan, root, sets, f"two processes storing concurrently (stalled at {plan['stall']})")
    extra = [p for p in listdir(root) if os.path.join(root, p) != full]
    if extra:
        raise Violation("litter", f"concurrent stores left files behind: {extra}")
    rec["measures"].append(json.dumps(["stall", plan["path"], plan["stall"], plan["old"]]))


def threads(plan, env, rec, root):
    from sim.engine import Violation
    path, full = where(plan, root)
    items = plan["items"]
    progs = [[["fill", [items[i] for i in o[1] if i < len(items)]] if o[0] == "fill" else [o[0], path or "./.e2cnn_cache/diffops.pickle"] for o in p] for p in plan["programs"]]

    def fresh(r):
        p = env.spawn(plan["h"] + env.spawned)
        p.call("disk", "setup", r)
        if plan["old"]:
            p.call("disk", "fill", [items[6]])
            p.call("disk", "store", r, path)
            p.kill()
            p = env.spawn(plan["h"] + env.spawned)
            p.call("disk", "setup", r)
        p.call("disk", "fill", [items[i] for i in plan["first"]])
        return p
    if plan["preempts"] is None:
        r = fresh(root).call("disk", "threads", root, progs, plan["opcodes"], plan["pseed"], plan["count"], None)
        if r["bad"]:
            raise Violation("sequential", f"fails without any concurrency: {r['bad']}")
        plan["preempts"] = r["preempts"]
        wipe(root)
    p = fresh(root)
    r = p.call("disk", "threads", root, progs, plan["opcodes"], plan["pseed"], plan["count"], plan["preempts"])
    rec["events"].append([r["steps"], r["log"], bool(r["bad"])])
    count(rec, "faults", "preemption", r["fired"])
    count(rec, "stats", "scheduler_steps", r["steps"])
    if r["bad"]:
        raise Violation("concurrent", f"{r['bad']}; programs {json.dumps(plan['programs'])}; schedule {r['log'][:20]}")
    least = frozenset(plan["first"])
    st, have, wrong = look(env, plan, root, root, path, items)
    if st not in ("ok",):
        raise Violation("unreadable", f"after concurrent stores the cache cannot be loaded: {st}")
    if wrong:
        raise Violation("value", f"after concurrent stores the loaded cache serves wrong values: {wrong}")
    most = least | ({6} if plan["old"] else set()) | {i for q in plan["programs"] for o in q if o[0] == "fill" for i in o[1]}
    if have is not None and not (least <= have <= most):
        raise Violation("version", f"after concurrent stores the file holds {sorted(have)}, at least {sorted(least)} and at most {sorted(most)} possible")
    extra = [q for q in listdir(root) if os.path.join(root, q) != full]
    if extra:
        raise Violation("litter", f"concurrent stores left files behind: {extra}")
    # nothing is lost in memory
    works, res = p.call("disk", "probe", [items[i] for i in sorted(least)])
    if (works and not all(x[0] for x in res)) or not all(x[1] for x in res):
        raise Violation("memory", "concurrent stores damaged the cache in memory")
    if r["fired"]:
        rec["measures"].append(json.dumps(["threads", plan["programs"], r["log"]]))
