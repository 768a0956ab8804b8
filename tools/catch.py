#!/usr/bin/env python3
"""catch.py [IDS...]: runs the check of each planted bug's property against a scratch copy with the bug."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
extra = [a[2:] for a in sys.argv[1:] if a.startswith("--C")]
for i in ids:
    d = "/tmp/w/ct/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("cp -a /repo %s/repo && cd %s/repo && git checkout -q -- . && git apply %s/seeded/%s/patch.diff" % (d, d, HERE, i), shell=True)
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    for c in [m["property"]] + extra:
        t = time.time()
        r = subprocess.run([PY, "check.py", c, "--tier", "quick"], cwd=HERE, env=dict(os.environ, PV_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace")
        hit = r.returncode == 1 and "VIOLATION property=" + c in o
        why = sorted({l.strip().split("]")[0][1:] for l in o.splitlines() if l.strip().startswith("[")})
        print("%-28s %s %s rc=%d %.0fs %s" % (i, c, "CAUGHT" if hit else "missed", r.returncode, time.time() - t, why[:5]), flush=True)
        if r.returncode not in (0, 1):
            print(o[-600:])
    shutil.rmtree(d, ignore_errors=True)
