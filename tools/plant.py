#!/opt/venv/bin/python
"""verify planted bugs: tools/plant.py ID... [--notests] [--check] (scratch copy under /tmp, removed afterwards)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, shell=isinstance(cmd, str))


for i in ids:
    d = f"{V}/seeded/{i}"
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        repo = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        demo = w + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(os.environ, PYTHONPATH=repo)
        a = sh(["bash", demo + "/demo.sh"], repo, env)
        g = sh(["git", "apply", d + "/patch.diff"], repo)
        if g.returncode:
            print(i, "PATCH DOES NOT APPLY", g.stderr[:300]); continue
        b = sh(["bash", demo + "/demo.sh"], repo, env)
        p = json.load(open(d + "/meta.json"))["property"]
        line = [i, p, f"demo clean={a.returncode} patched={b.returncode}"]
        if a.returncode or not b.returncode:
            line.append("DEMO WRONG " + (a.stderr[-300:] if a.returncode else b.stdout[-200:]))
        if "--tests" in sys.argv:
            os.makedirs(w + "/rep")
            t = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", w + "/rep").replace("/repo", repo).replace("PYTHONPATH=/opt/vp", f"PYTHONPATH={repo}:/opt/vp")
            open(w + "/test.sh", "w").write(t)
            sh(["bash", w + "/test.sh", w + "/out.json"], w, t=1500)
            lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(w + "/out.json"))["passed"])
            line.append("tests ok" if not lost else f"TESTS FAIL {sorted(lost)[:3]}")
        if "--check" in sys.argv:
            c = sh([V + "/sim/check.py", p] if 0 else ["/opt/venv/bin/python", V + "/sim/check.py", p], V, dict(os.environ, SIM_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            line.append("CAUGHT" if c.returncode == 1 and f"VIOLATION property={p}" in c.stdout else f"MISSED rc={c.returncode}")
            if "--all" in sys.argv:
                for k in sorted(os.listdir(V + "/sim/props")):
                    if k.startswith("c") and k[1:3].isdigit() and k[:3].upper() != p:
                        c = sh(["/opt/venv/bin/python", V + "/sim/check.py", k[:3].upper()], V, dict(os.environ, SIM_REPO=repo, VERIF_SEED="1"))
                        if c.returncode:
                            line.append("also " + k[:3].upper())
        print(*line, flush=True)
    finally:
        shutil.rmtree(w)
