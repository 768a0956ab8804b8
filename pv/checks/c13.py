import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

from .. import engine, objs
from ..engine import Inconclusive
from ..sim import Sim, gen_spec

LEVEL = "fault_enumeration"
RULE = ("distinct (fault: operation and position, outcome old/new/none, kind of file name) combinations after which the checkpoint "
        "file was loaded and compared")
ASSUMPTIONS = ["a crash is the death of the process (SIGKILL); pages already written survive (no power loss)",
               "rename within one directory is atomic, as POSIX guarantees"]
NEED = {"faults": 500, "fault-killed": 300, "fault-error": 50, "refused-runs": 35, "refused-resumes": 35, "resumes": 5}
KINDS = ["bare", "sub", "abs", "dot", "parent", "shm", "link", "noext"]


def cases(tier, seed):
    q = tier == "quick"
    build_shim()
    return [dict(mode="fault", kind=KINDS[i % len(KINDS)], deep=not q) for i in range(16 if q else 120)] + \
        [dict(mode="refuse") for _ in range(60 if q else 400)]


def build_shim():
    src = os.path.join(engine.HERE, "pv", "native", "fsfault.c")
    bdir = os.path.join(engine.HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    so = os.path.join(bdir, "fsfault.so")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, so)
    return so


def fault(spec, out):
    rng = np.random.default_rng(spec["seed"])
    base = tempfile.mkdtemp(prefix="pv-c13-")
    shm = None
    try:
        cwd = os.path.join(base, "w")
        other = os.path.join(base, "other dir")
        os.makedirs(os.path.join(cwd, "sub", "er"))
        os.makedirs(os.path.join(cwd, "a b"))
        os.makedirs(other)
        os.symlink(other, os.path.join(cwd, "lnk"))
        k = spec["kind"]
        roots = [base]
        if k == "shm" and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
            shm = tempfile.mkdtemp(prefix="pv-c13-", dir="/dev/shm")
            roots.append(shm)
            fname = os.path.join(shm, "ck.pysot")
            out.ok("other-filesystem")
        else:
            fname = {"bare": "checkpoint.pysot", "sub": "sub/er/ck.pysot", "abs": os.path.join(other, "ck.pysot"),
                     "dot": "./a b/ck.x.y", "parent": "../other dir/c", "link": "lnk/ck.pysot", "noext": "checkpoint",
                     "shm": os.path.join(other, "ck.pysot")}[k]
        st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.35, 0.25, 0.2, 0.1, 0.1]))
        s = gen_spec(rng, strat=st, dim=int(rng.choice([1, 2, 5, 8])) if st not in ("ei", "lcb") else 2, num_cand=20, restarts=True, asynchronous=True,
                     budget=lambda r, n0: int(r.choice([2, 8, 15])), fkind="func", extras=False)
        n = s["max_evals"]
        stages = sorted({1, int(rng.integers(2, n)), int(rng.integers(2, n))} if not spec["deep"] else
                        {1, 2, *[int(x) for x in rng.integers(2, n, 4)]})
        sub = dict(repo=engine.REPO, here=engine.HERE, roots=roots, cwd=cwd, fname=fname, seed=int(rng.integers(1 << 30)), sim=s,
                   kind=k, stages=stages, at_end=bool(rng.random() < 0.5), max_ops=40, p_again=0.15, p_resume=0.06)
        env = dict(os.environ, LD_PRELOAD=build_shim())
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(engine.HERE, "pv", "ckchild.py"), json.dumps(sub)], env=env,
                           cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=220)
        lines = [l for l in p.stdout.decode().splitlines() if l.startswith("PVRESULT ")]
        if p.returncode != 0 or not lines:
            text = p.stderr.decode()[-2500:]
            frames = [l for l in text.splitlines() if l.strip().startswith("File ")]
            if any("/pySOT/" in l for l in frames):
                out.fail("run-raised", "a checkpointed run failed:\n" + text)
                return
            raise Inconclusive("child exit %s: %s" % (p.returncode, text))
        r = json.loads(lines[-1][len("PVRESULT "):])
        for a, b in r["n"].items():
            out.ok(a, b)
        for a in r["states"]:
            out.state(a)
        for a in r["samples"]:
            out.sample(a)
        for o in r["ops"]:
            out.ok("saves with " + " ".join(sorted(set(o.split()))))
        for a, b in r["viol"]:
            out.fail(a, "%s [file %s]" % (b, fname))
    finally:
        shutil.rmtree(base, ignore_errors=True)
        if shm:
            shutil.rmtree(shm, ignore_errors=True)


def refuse(spec, out):
    """Existing file: run() raises and touches nothing; missing file: resume() raises and evaluates nothing."""
    from poap.controller import SerialController, SimTeamController
    from pySOT.controller import CheckpointController

    rng = np.random.default_rng(spec["seed"])
    base = tempfile.mkdtemp(prefix="pv-c13-")
    here = os.getcwd()
    try:
        os.chdir(base)
        os.makedirs("d")
        fname = [os.path.join(base, "d", "ck.pysot"), "d/ck.pysot", "ck.pysot", "./ck"][int(rng.integers(4))]
        s = gen_spec(rng, dim=2, strat=str(rng.choice(["srbf", "dycors", "sop"])), num_cand=20, asynchronous=True, budget=2, fkind="func")

        def make():
            sm = Sim(s, out)
            st = sm.build()
            objs.set_sink(None)
            sm.prob.calls = 0
            c = SerialController(sm.prob.eval) if rng.random() < 0.5 else SimTeamController(sm.prob.eval, lambda r: 1, s["W"])
            c.strategy = st
            return sm.prob, c, CheckpointController(c, fname=fname)

        # missing
        prob, c, cc = make()
        err = None
        try:
            cc.resume()
        except Exception as e:
            err = e
        out.ok("refused-resumes")
        out.check(err is not None, "resume-without-file", "resume() without a checkpoint file did not raise")
        out.check(prob.calls == 0, "resume-without-file", lambda: "%d evaluations after a refused resume" % prob.calls)
        out.check(not os.path.exists(fname), "resume-without-file", "a refused resume created the file")
        # existing: garbage, empty, a real snapshot
        kind = int(rng.integers(3))
        if kind == 2:
            prob, c, cc = make()
            cc.run()
            out.check(os.path.isfile(fname), "missing", "no checkpoint after a complete run")
        else:
            with open(fname, "wb") as f:
                f.write(b"" if kind else rng.bytes(100))
            out.ok("refused-foreign-files")
        same = kind == 2 and rng.random() < 0.4  # the controller that made the file runs again
        early = None if same else make() if rng.random() < 0.3 else None  # or one built before the file was put there
        if rng.random() < 0.25:
            os.rename(fname, fname + ".real")
            os.symlink(os.path.basename(fname) + ".real", fname)
        mode = int(rng.choice([0o644, 0o600, 0o444, 0o755, 0o0]))
        os.chmod(fname, mode)
        # old, new, in the future, just now
        t = [10 ** 18, None, time.time_ns() + 10 ** 12, time.time_ns() - 10 ** 9][int(rng.integers(4))]
        if t is not None:
            os.utime(fname, ns=(t, t))
        if rng.random() < 0.5:
            os.utime(os.path.dirname(fname) or ".", ns=(10 ** 18 + 10 ** 9, 10 ** 18 + 10 ** 9))
        t = os.stat(fname).st_mtime_ns
        b0, ls0 = open(fname, "rb").read(), sorted(os.listdir(os.path.dirname(fname) or "."))
        if not same:
            prob, c, cc = early or make()
        calls = prob.calls
        err = None
        try:
            cc.run()
        except Exception as e:
            err = e
        out.ok("refused-runs")
        out.check(err is not None, "fresh-run-accepted", "run() with an existing checkpoint file did not raise")
        out.check(prob.calls == calls, "fresh-run-accepted", lambda: "%d evaluations before the refusal" % (prob.calls - calls))
        out.check(os.path.exists(fname) and open(fname, "rb").read() == b0 and os.stat(fname).st_mtime_ns == t,
                  "file-touched", "the existing checkpoint file was changed by a refused run")
        out.check(sorted(os.listdir(os.path.dirname(fname) or ".")) == ls0, "file-touched", "a refused run left other files behind")
        out.state("refuse", kind, same, early is not None, mode, os.path.islink(fname), fname[:3], s["strat"])
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


def run_case(spec, out):
    (fault if spec["mode"] == "fault" else refuse)(spec, out)
