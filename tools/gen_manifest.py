"""writes MANIFEST.json; a property is claimed when sim/props/<id>.py exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "deterministic simulation: seeded lifecycle histories with crashes and aborts, group-action oracle after every operation",
 "C02": "deterministic simulation: seeded mode/update/load histories with crashes and aborts, refinement against a newly built twin",
 "C03": "deterministic simulation: crash/resume histories across processes vs the uninterrupted run",
 "C04": "deterministic simulation: replicas as processes, seeded delivery order, crashes and re-joins, vs single-process reference",
 "C05": "deterministic simulation: seeded construction histories (incl. failed ones), refinement against a pristine process",
 "C06": "deterministic simulation: seeded interleaving of operations on several networks, frame condition on all others",
 "C07": "deterministic simulation: controlled thread scheduler, seeded preemptions, identity and sequential-model oracle",
 "C08": "deterministic simulation: controlled thread scheduler, seeded preemptions, sequential-result oracle",
 "C09": "deterministic simulation: disk seam with seeded crashes, torn/short writes, ENOSPC/EIO and a power-loss model",
 "C10": "deterministic simulation: seeded build/store/load/restart/edit histories against a dictionary model of the cache",
 "C11": "deterministic simulation: seeded histories around export across processes, original vs exported function",
 "C12": "deterministic simulation: exception injected at a seeded point of an operation, retry vs undisturbed process",
 "C13": "deterministic simulation: same seed under different histories, hash seeds and inserted bookkeeping, bitwise comparison",
 "C14": "deterministic simulation: seeded batch/mode/reset/checkpoint histories against a reference recursion",
 "C15": "deterministic simulation: randomness behind a seam, seeded outcomes, per-field mask oracle",
 "C16": "deterministic simulation: seeded growth histories, earlier objects checked for identity, values and interoperation",
}
NA = "pure function of its arguments: no schedule, clock, fault, crash point or history enters it, so there is nothing for a simulator to decide (see DESIGN.md)"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/sim/props/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python sim/check.py {i}", "thorough_cmd": f"/opt/venv/bin/python sim/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
                       "level_note": "Seeded sampling of histories, schedules and faults on the real code (float32, CPU); a clean run is evidence, not proof. Trusts PyTorch, numpy and the simulator's oracles listed in DESIGN.md."})
    else:
        na.append({"property": i, "reason": NA if i > "C16" else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash sim/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are processes (fork server), the file-system calls (LD_PRELOAD shim), threads (trace-driven scheduler, locks patched at import), exceptions (profile hook) and torch's random generator. Replay: sim/check.py <id> --replay <file>."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
