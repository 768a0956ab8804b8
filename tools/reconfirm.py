#!/usr/bin/env python3
"""reconfirm.py [IDS...]: every planted bug applies to HEAD, passes the tests, and its demo tells it from the unchanged tree."""
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")


def one(i):
    d = "/tmp/w/rc/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("cp -a /repo %s/repo && cp -a %s/seeded/%s %s/s" % (d, HERE, i, d), shell=True)
    run = lambda c: subprocess.run(c, cwd=d + "/repo", env=dict(ENV, PYTHONPATH=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
    a = run(["bash", d + "/s/demo.sh"])
    p = run(["git", "apply", d + "/s/patch.diff"])
    b = run(["bash", d + "/s/demo.sh"])
    t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "pySOT"]) if "--tests" in sys.argv else 0
    shutil.rmtree(d, ignore_errors=True)
    return i, a == 0 and p == 0 and b != 0 and t == 0, (a, p, b, t)


if __name__ == "__main__":
    ids = [x for x in sys.argv[1:] if not x.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    with Pool(4) as pool:
        for i, ok, why in pool.imap_unordered(one, ids):
            if not ok or len(ids) < 12:
                print("ok " if ok else "BAD", i, why, flush=True)
