"""Coordinator of the simulation: seeds, runs, minimisation, replay files, evidence."""
import os, sys, json, time, random, hashlib, socket, subprocess, threading, shutil, tempfile, importlib, signal, copy, traceback

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim.zygote import recv, send  # noqa

PY = "/opt/venv/bin/python"
HASHSEEDS = ["0", "1", "77", "4242"]


class Crash(Exception):
    """the simulated process died (EOF on its socket)"""


class RemoteError(Exception):
    def __init__(self, typ, msg, tb):
        super().__init__(f"{typ}: {msg}")
        self.typ, self.msg, self.tb = typ, msg, tb


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


class Incarnation:
    def __init__(self, path, timeout):
        self.s = socket.socket(socket.AF_UNIX)
        for i in range(200):
            try:
                self.s.connect(path)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.05)
        else:
            raise HarnessError("cannot connect to zygote")
        self.s.settimeout(timeout)

    def call(self, mod, fn, *args):
        try:
            send(self.s, ("sim." + mod, fn, args))
            r = recv(self.s)
        except socket.timeout:
            raise Hang(f"{mod}.{fn}")
        except (ConnectionResetError, BrokenPipeError):
            r = None
        if r is None:
            raise Crash(f"{mod}.{fn}")
        if r[0] == "ok":
            return r[1]
        raise RemoteError(*r[1:])

    # a call which stalls (SIGSTOP) at a seeded point, during which other processes run
    def begin(self, pid, mod, fn, *args):
        """start a call; returns True if the process stalled, False if the call ended without stalling"""
        self.pid = pid
        send(self.s, ("sim." + mod, fn, args))
        import select
        t0 = time.time()
        while time.time() - t0 < 60:
            try:
                st = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()[0]
            except OSError:
                return False
            if st == "T":
                return True
            if select.select([self.s], [], [], 0.002)[0]:
                return False
        raise Hang("stall")

    def finish(self, resume=True):
        if resume:
            os.kill(self.pid, signal.SIGCONT)
        try:
            r = recv(self.s)
        except socket.timeout:
            raise Hang("finish")
        except (ConnectionResetError, BrokenPipeError):
            r = None
        if r is None:
            raise Crash("finish")
        if r[0] == "ok":
            return r[1]
        raise RemoteError(*r[1:])

    def kill(self):
        if getattr(self, "pid", None):
            try:
                os.kill(self.pid, signal.SIGCONT)
            except OSError:
                pass
        try:
            self.s.close()
        except Exception:
            pass


class Env:
    """What a director (one simulated run) sees: processes and a scratch directory."""

    def __init__(self, eng):
        self.eng = eng
        self.incs = []
        self.scratch = None
        self.spawned = 0

    def spawn(self, h=0):
        i = Incarnation(self.eng.zpath(h), self.eng.run_timeout)
        self.incs.append(i)
        self.spawned += 1
        return i

    def dir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="run", dir=self.eng.tmp)
        return self.scratch

    def close(self):
        for i in self.incs:
            i.kill()
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail = cls, detail


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:24]


class Engine:
    def __init__(self, prop, tier, seed, workers=8):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module("sim.props." + prop.lower())
        self.workers = workers
        base = os.environ.get("SIM_TMP") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) and not getattr(self.mod, "REAL_DISK", False) else None)
        self.tmp = tempfile.mkdtemp(prefix=f"sim_{prop}_", dir=base)
        self.nz = getattr(self.mod, "ZYGOTES", 2)
        self.run_timeout = getattr(self.mod, "RUN_TIMEOUT", 240)
        self.procs = []
        self.stats = {}
        self.faults = {}
        self.measures = set()
        self.lock = threading.Lock()
        self.harness_errors = []
        self.inconclusive = 0

    def zpath(self, h):
        return os.path.join(self.tmp, f"z{h % self.nz}")

    def start(self):
        shim = os.path.join(self.tmp, "shim.so")
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("PYTHON"):
                del env[k]
        env.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
                   MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                   MPLCONFIGDIR=os.path.join(self.tmp, "mpl"), HOME=self.tmp, MKL_CBWR="COMPATIBLE")
        if getattr(self.mod, "SHIM", False):
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", shim, os.path.join(SIM, "native", "shim.c"), "-ldl"],
                               capture_output=True, text=True)
            if r.returncode:
                raise HarnessError("shim does not build: " + r.stderr)
            env["LD_PRELOAD"] = shim
            env["SIM_SHIM"] = shim
        pre = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []
        self.aslr_off = bool(pre)
        for h in range(self.nz):
            e = dict(env, PYTHONHASHSEED=HASHSEEDS[h])
            out = open(os.path.join(self.tmp, f"z{h}.log"), "wb")
            self.procs.append(subprocess.Popen(pre + [PY, os.path.join(SIM, "zygote.py"), self.zpath(h), self.prop.lower()],
                                               env=e, cwd=self.tmp, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL))
        t = time.time()
        for h in range(self.nz):
            while not os.path.exists(self.zpath(h)):
                if self.procs[h].poll() is not None or time.time() - t > 300:
                    log = open(os.path.join(self.tmp, f"z{h}.log")).read()[-3000:]
                    raise ImportFailure(log)
                time.sleep(0.05)

    def stop(self):
        for p in self.procs:
            try:
                p.kill()
                p.wait()
            except Exception:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- one simulated run
    def run(self, plan):
        """-> dict(violation=None|{cls,detail}, digest, stats, faults, measures)"""
        env = Env(self)
        rec = {"violation": None, "events": [], "stats": {}, "faults": {}, "measures": []}
        try:
            self.mod.direct(plan, env, rec)
        except Violation as v:
            rec["violation"] = {"cls": v.cls, "detail": v.detail[:3000]}
        except RemoteError as e:
            # an exception the director did not expect: the harness cannot tell -> classified by the property
            cls = getattr(self.mod, "UNEXPECTED", None)
            if cls and not e.tb_is_harness():
                rec["violation"] = {"cls": cls, "detail": f"{e.typ}: {e.msg}\n{e.tb[-1500:]}"}
            else:
                rec["harness"] = f"{e.typ}: {e.msg}\n{e.tb}"
        except (Crash, Hang) as e:
            rec["harness"] = f"{type(e).__name__}: {e}"
            rec["hang"] = isinstance(e, Hang)
        finally:
            env.close()
        rec["digest"] = digest([rec["events"], rec["violation"] and rec["violation"]["cls"]])
        rec["spawned"] = env.spawned
        return rec

    def absorb(self, rec):
        with self.lock:
            for k, v in rec["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + v
            for k, v in rec["faults"].items():
                self.faults[k] = self.faults.get(k, 0) + v
            self.stats["processes"] = self.stats.get("processes", 0) + rec["spawned"]
            self.measures.update(rec["measures"])
            if rec.get("harness"):
                if rec.get("hang"):
                    self.inconclusive += 1
                self.harness_errors.append(rec["harness"])

    # ---- minimisation
    def minimise(self, plan, cls, budget=120):
        t0 = time.time()
        best = plan
        tried = 0
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            for cand in shrinks(self.mod, best):
                if time.time() - t0 > budget:
                    break
                tried += 1
                r = self.run(cand)
                if r["violation"] and r["violation"]["cls"] == cls:
                    best = cand
                    improved = True
                    break
        return best, tried


def _tb_is_harness(self):
    """True if the innermost frame of a remote traceback lies in the simulator itself (not in the library or in torch)."""
    files = [l.strip() for l in self.tb.splitlines() if l.strip().startswith("File ")]
    return not files or f'"{SIM}/' in files[-1]


RemoteError.tb_is_harness = _tb_is_harness


class ImportFailure(Exception):
    pass


def shrinks(mod, plan):
    """Candidate simpler plans: halves, then single elements of every list named in SHRINK, then the property's own."""
    for path in getattr(mod, "SHRINK", ["ops", "faults", "preempts"]):
        holder, key = locate(plan, path)
        if holder is None:
            continue
        lst = holder[key]
        n = len(lst)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(plan)
                h, k = locate(c, path)
                h[k] = lst[:i] + lst[i + size:]
                yield c
            size //= 2
    if hasattr(mod, "shrink"):
        yield from mod.shrink(plan)


def locate(plan, path):
    cur = plan
    parts = path.split(".")
    for p in parts[:-1]:
        if isinstance(cur, list):
            p = int(p)
            if p >= len(cur):
                return None, None
            cur = cur[p]
        else:
            if p not in cur:
                return None, None
            cur = cur[p]
    last = parts[-1]
    if isinstance(cur, dict) and isinstance(cur.get(last), list):
        return cur, last
    return None, None


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    budget = None
    runs = None
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        elif argv[i] == "--budget":
            budget = float(argv[i + 1]); i += 1
        elif argv[i] == "--runs":
            runs = int(argv[i + 1]); i += 1
        i += 1
    workers = int(os.environ.get("SIM_WORKERS", "8"))
    t0 = time.time()
    eng = Engine(prop, tier, seed, workers)
    signal.signal(signal.SIGTERM, lambda *a: (_ for _ in ()).throw(KeyboardInterrupt()))
    try:
        return _main(eng, replay, budget, runs, t0)
    finally:
        eng.stop()


def _main(eng, replay, budget, runs, t0):
    prop, tier, seed, mod = eng.prop, eng.tier, eng.seed, eng.mod
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evid = os.path.join(VERIF, "evidence", prop + ".json")
    try:
        eng.start()
    except ImportFailure as e:
        # the library cannot even be imported: nothing the property promises is available
        path = write_replay(eng, {"import": True}, {"cls": "import", "detail": str(e)}, None, None)
        write_evidence(eng, evid, t0, 0, [], 1, {}, [], None)
        print(str(e)[-1500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if replay:
        doc = json.load(open(replay))
        if doc.get("plan", {}).get("import"):
            print("replay: library imports now")
            return 0
        r = eng.run(doc["plan"])
        same = bool(r["violation"]) and r["violation"]["cls"] == doc["violation"]["cls"]
        print(json.dumps({"violation": r["violation"], "digest": r["digest"], "recorded_digest": doc.get("digest"),
                          "reproduced": same, "exact": r["digest"] == doc.get("digest"), "harness": r.get("harness")}, indent=1))
        if r["violation"]:
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0

    # all plans come from one seed, before anything runs
    max_runs = runs or mod.RUNS[tier]
    budget = budget or mod.BUDGET[tier]
    master = random.Random(f"{prop}:{seed}")
    known = known_findings(prop)
    print(f"# property={prop} tier={tier} seed={seed} runs<={max_runs} budget={budget}s aslr_off={eng.aslr_off}")
    sys.stdout.flush()
    plans = []
    fixed = list(getattr(mod, "FIXED", lambda: [])())
    for i in range(max_runs):
        s = master.getrandbits(48)
        plans.append(s)
    results = {}
    found = []
    known_hit = {}
    stop = threading.Event()
    cursor = [0]
    lock = threading.Lock()
    tstart = time.time()

    def plan_of(i):
        if i < len(fixed):
            p = copy.deepcopy(fixed[i])
        else:
            p = mod.gen(random.Random(plans[i]), tier)
        p.setdefault("run", i)
        p.setdefault("seed", plans[i])
        return p

    def worker():
        while not stop.is_set():
            with lock:
                i = cursor[0]
                if i >= max_runs or (time.time() - tstart > budget and i >= getattr(mod, "MIN_RUNS", 8)):
                    return
                cursor[0] += 1
            plan = plan_of(i)
            try:
                rec = eng.run(plan)
            except HarnessError as e:
                rec = {"violation": None, "harness": str(e), "stats": {}, "faults": {}, "measures": [], "spawned": 0, "digest": "", "events": []}
            except Exception:
                rec = {"violation": None, "harness": traceback.format_exc(), "stats": {}, "faults": {}, "measures": [], "spawned": 0, "digest": "", "events": []}
            eng.absorb(rec)
            with lock:
                results[i] = rec["digest"]
                if rec["violation"]:
                    k = match_known(known, rec["violation"], plan)
                    if k is not None:
                        known_hit.setdefault(k["id"], []).append(i)
                    else:
                        found.append((i, plan, rec))
                        stop.set()

    ths = [threading.Thread(target=worker) for _ in range(eng.workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    n = len(results)

    # determinism: some of the runs again, compare event logs
    det = {"reruns": 0, "mismatches": 0}
    if not found:
        todo = sorted(results)[:: max(1, len(results) // getattr(mod, "RERUNS", 12))]
        def rer(ids):
            for i in ids:
                if time.time() - tstart > budget * 1.35 + 20:
                    return
                r = eng.run(plan_of(i))
                with lock:
                    det["reruns"] += 1
                    if r["digest"] != results[i]:
                        det["mismatches"] += 1
                        det.setdefault("which", []).append(i)
        ths = [threading.Thread(target=rer, args=(todo[k::eng.workers],)) for k in range(eng.workers)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    for k in known:
        for rp in ([k] if k["id"] in known_hit else []):
            pass
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    replay_path = None
    if found:
        found.sort(key=lambda x: x[0])
        i, plan, rec = found[0]
        cls = rec["violation"]["cls"]
        mini, tried = eng.minimise(plan, cls, budget=getattr(mod, "MIN_BUDGET", 60))
        r2 = eng.run(mini)
        if not (r2["violation"] and r2["violation"]["cls"] == cls):
            # not reproduced from the same plan: report the original run, flagged
            mini, r2 = plan, rec
        r3 = eng.run(mini)
        exact = r3["digest"] == r2["digest"]
        replay_path = write_replay(eng, mini, r2["violation"], r2["digest"], {"original_run": i, "shrink_attempts": tried, "reproduced_exactly": exact})
        print(json.dumps(r2["violation"], indent=1)[:3500])
        rc = 1
    samples = []
    for i in sorted(results)[:2]:
        samples.append({"run": i, "plan": plan_of(i), "digest": results[i]})
    write_evidence(eng, evid, t0, n, samples, len(found), det, known_hit, time.time() - tstart)
    print(f"# runs={n} processes={eng.stats.get('processes',0)} faults={json.dumps(eng.faults)} distinct={len(eng.measures)} "
          f"determinism={json.dumps(det)} harness_errors={len(eng.harness_errors)} inconclusive={eng.inconclusive} wall={time.time()-t0:.1f}s")
    for h in eng.harness_errors[:3]:
        print("# harness error:", h[-1500:].replace("\n", "\n#   "))
    if rc:
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    # runs the harness could not judge must stay rare, or the check decides nothing
    if n == 0 or len(eng.harness_errors) > 0.2 * n + 2:
        path = write_replay(eng, {"unjudged": eng.harness_errors[:5]}, {"cls": "unjudged", "detail": "most runs could not be completed"}, None, None)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def match_known(known, violation, plan):
    for k in known:
        m = k.get("match", {})
        if m.get("cls") == violation["cls"] and all(s in violation["detail"] for s in m.get("contains", [])):
            return k
    return None


def write_replay(eng, plan, violation, dig, extra):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{eng.prop}-{eng.seed}-{digest([plan, violation['cls']])[:10]}.json")
    json.dump({"property": eng.prop, "seed": eng.seed, "tier": eng.tier, "plan": plan, "violation": violation, "digest": dig, "extra": extra,
               "how": f"python sim/check.py {eng.prop} --replay {path}"}, open(path, "w"), indent=1, default=str)
    return path


def write_evidence(eng, path, t0, n, samples, violations, det, known_hit, secs):
    mod = eng.mod
    wall = time.time() - t0
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(eng.measures),
        "rule": mod.RULE,
        "samples": samples,
        "simulated_runs": n,
        "seeds_per_hour": round(n / max(secs or wall, 1e-9) * 3600),
        "simulated_processes": eng.stats.get("processes", 0),
        "simulated_steps": eng.stats,
        "simulated_time": "no clocks in the system: time is counted in steps (see simulated_steps)",
        "faults_injected": eng.faults,
        "determinism_check": det,
        "runs_not_judged": len(eng.harness_errors),
        "inconclusive_timeouts": eng.inconclusive,
        "known_findings_hit": {k: len(v) for k, v in (known_hit or {}).items()} if isinstance(known_hit, dict) else {},
        "components": mod.COMPONENTS,
    }
    json.dump({"property": eng.prop, "tier": eng.tier, "seed": eng.seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
               "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}, open(path, "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
