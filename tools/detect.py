#!/usr/bin/env python3
"""detect.py [ids...]: applies each planted bug to a scratch copy of /repo and runs its property's quick check there; updates
tools/detection.json. (Development aid; no check uses it.)"""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
D = V + "/tools/detection.json"
det = json.load(open(D)) if os.path.exists(D) else {}
tmp = tempfile.mkdtemp(prefix="mut")
try:
    for i in ids:
        r = tmp + "/r"
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.check_call(["git", "-C", r, "apply", V + "/seeded/%s/patch.diff" % i])
        p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        t = time.time()
        x = subprocess.run(["/opt/venv/bin/python", V + "/check.py", p, "--tier", "quick"], cwd=V, env=dict(os.environ, MC_REPO=r), capture_output=True, text=True, errors="replace")
        ok = x.returncode == 1 and "VIOLATION property=%s" % p in x.stdout
        det[i] = p if ok else "MISSED"
        print(i, det[i], x.returncode, "%.0fs" % (time.time() - t), next((l for l in x.stdout.splitlines() if "violated" in l), "")[:150], flush=True)
        shutil.rmtree(r)
finally:
    shutil.rmtree(tmp)
json.dump(det, open(D, "w"), indent=1, sort_keys=True)
