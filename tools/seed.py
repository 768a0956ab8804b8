#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and writes them to seeded/.

seed.py [--jobs N] [--no-tests] [IDS...]   reads tools/seedsrc/*.py files, each defining SEEDS (list of dicts)."""
import glob
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "1b2de24"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def load():
    S = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seedsrc", "b*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in S, s["id"]
            S[s["id"]] = s
    return S


def sh(cmd, cwd, timeout=600, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def original_lines(path):
    _, o = sh(["git", "blame", "-s", "-l", path], "/repo")
    return [l.startswith("^" + BASE) for l in o.splitlines()]


def one(a):
    s, tests = a
    sid = s["id"]
    d = "/tmp/w/sd/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = d + "/repo"
    sh("cp -a /repo " + repo, "/")
    sh("git checkout -q -- . && git clean -qfd", repo)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, "BAD edit: %d matches in %s of %r" % (t.count(old), f, old[:80])
            open(p, "w").write(t.replace(old, new))
        _, diff = sh("git diff", repo)
        # removed lines must be lines of the original repository
        for f in {e[0] for e in s["edits"]}:
            orig = original_lines(f)
            _, u = sh(["git", "diff", "-U0", "--", f], repo)
            for l in u.splitlines():
                if l.startswith("@@"):
                    a, _, b = l.split()[1][1:].partition(",")
                    for k in range(int(a), int(a) + int(b or 1)):
                        if not orig[k - 1]:
                            return sid, "NOT ORIGINAL %s:%d" % (f, k)
        out = os.path.join(d, "out")
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        shutil.copy(os.path.join(HERE, "tools", "seedsrc", "h.py"), out + "/h.py")
        open(out + "/demo.py", "w").write("from h import *\n" + s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        rc, o = sh(["bash", out + "/demo.sh"], "/repo", 300)
        if rc != 0:
            return sid, "demo fails on the clean tree: " + o[-1500:]
        rc, o = sh(["bash", out + "/demo.sh"], repo, 300)
        if rc == 0:
            return sid, "demo passes with the patch " + o[-500:]
        msg = o.strip().splitlines()[-1][:150] if o.strip() else "?"
        if tests:
            x = d + "/junit.xml"
            w = d + "/cwd"
            sh(["cp", "-r", repo + "/tests", w], "/")
            e = dict(ENV, PYTHONPATH=repo)
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-W", "ignore", "-o", "junit_family=xunit2",
                        "--junitxml=" + x, "--rootdir=" + repo, repo + "/tests"], repo, 900, e)
            import xml.etree.ElementTree as ET

            st = {}
            for c in ET.parse(x).iter("testcase"):
                st["%s::%s" % (c.get("classname"), c.get("name"))] = all(k.tag not in ("failure", "error", "skipped") for k in c)
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [t for t in stable if not st.get(t)]
            if bad:
                return sid, "TESTS FAIL: %s" % bad
        dst = os.path.join(HERE, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sid, "ok  (%s)" % msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    a = [x for x in a if not x.startswith("--")]
    S = load()
    ids = a or [i for i in S if not os.path.exists(os.path.join(HERE, "seeded", i))]
    with multiprocessing.Pool(4) as p:
        for sid, r in p.imap_unordered(one, [(S[i], tests) for i in ids]):
            print(sid, r, flush=True)


main()
