"""Runs a real checkpointed optimisation under the preloaded fault shim and, at chosen saves, forks one child per
file-system operation that dies there (or gets an error there); the checkpoint file is inspected after each child.

argv: JSON spec. Prints one JSON line with what was observed."""
import ctypes
import errno
import json
import os
import resource
import shutil
import signal
import sys


def main():
    spec = json.loads(sys.argv[1])
    sys.path[:0] = [spec["repo"], spec["here"]]
    import warnings

    warnings.simplefilter("ignore")
    import dill
    import numpy as np
    from poap.controller import Controller

    from pv import objs, sim
    from pySOT.controller import CheckpointController

    np.seterr(all="ignore")
    lib = ctypes.CDLL(None)
    lib.pv_log.restype = ctypes.c_char_p
    lib.pv_count.restype = ctypes.c_long
    lib.pv_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_double]
    roots = spec["roots"]
    for i, r in enumerate(roots):
        lib.pv_root(i, r.encode())
    os.chdir(spec["cwd"])
    fname = spec["fname"]
    res = dict(n={}, viol=[], states=[], ops=[], samples=[])
    rng = np.random.default_rng(spec["seed"])

    def cnt(k, v=1):
        res["n"][k] = res["n"].get(k, 0) + v

    def fail(k, m):
        if len(res["viol"]) < 5:
            res["viol"].append([k, m])

    def tree():
        out = {}
        for r in roots:
            for d, _, fs in os.walk(r):
                for f in fs:
                    p = os.path.join(d, f)
                    out[p] = open(p, "rb").read()
        return out

    def restore(t):
        for p in tree():
            if p not in t:
                os.unlink(p)
        for p, b in t.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, "rb").read() != b:
                with open(p, "wb") as f:
                    f.write(b)

    class Ctl(Controller):
        def run(self, merit=None, filter=None):
            while True:
                p = self.strategy.propose_action()
                if p.action == "terminate":
                    p.accept()
                    self.stage(lambda: self.call_term_callbacks(), True)
                    return self.best_point()
                p.record = self.new_feval(p.args)
                p.accept()
                rec = p.record
                v = prob.eval(rec.params[0])
                r = rng.random()
                if r < 0.85:
                    f = lambda: rec.complete(v)
                    log.append((np.array(rec.params[0]), float(v)))
                else:
                    f = (lambda: rec.kill()) if r < 0.93 else (lambda: rec.cancel())
                self.stage(f, False)

        def stage(self, f, last):
            self.saves = getattr(self, "saves", 0) + 1
            if self.saves in spec["stages"] or (last and spec["at_end"]):
                inject(f, len(log), 0 if last else 1)
            f()
            inspect("after-save", len(log), len(log), fatal=True)

        def __reduce__(self):
            return (object, ())

    def inspect(what, lo, hi, old=True, fatal=False):
        """The checkpoint must be a complete snapshot of lo..hi finished evaluations."""
        cnt("oracle")
        if not os.path.exists(fname):
            if old or fatal:
                fail("missing", "%s: no checkpoint file at %s" % (what, fname))
            return
        try:
            with open(fname, "rb") as fh:
                s = dill.load(fh)
            n = s.num_evals
            x, fx, nf = np.asarray(s.X), np.ravel(s.fX), len([r for r in s.fevals if r.is_completed])
        except Exception as e:
            fail("not-loadable", "%s: the checkpoint (%d bytes) cannot be loaded: %s: %s"
                 % (what, os.path.getsize(fname), type(e).__name__, e))
            return
        if not lo <= n <= hi:
            fail("wrong-snapshot", "%s: snapshot of %d evaluations instead of %s" % (what, n, sorted({lo, hi})))
            return
        L = log[:n]
        if nf != n or x.shape[0] != n or not all(np.array_equal(x[i], L[i][0]) and fx[i] == L[i][1] for i in range(n)):
            fail("wrong-snapshot", "%s: the snapshot of %d evaluations does not hold their points and values" % (what, n))
        return n

    def child(f, arm=None, limit=None):
        """Fork; returns (exit status or -signal, operations seen)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.alarm(60)
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if limit[1] else signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit[0], limit[0]))
                if arm is not None:
                    lib.pv_arm(*arm)
                try:
                    f()
                except OSError:
                    code = 3
                except Exception:
                    code = 4
                ops = lib.pv_log() if arm is not None else b""
                lib.pv_arm(-1, 0, 0, 0.0)
                os.write(w, ops)
            finally:
                os._exit(code)
        os.close(w)
        ops = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            ops += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return (-os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)), ops.decode().split()

    def inject(f, n, step):
        base = tree()
        old = os.path.exists(fname)
        lo = n
        if old:
            with open(fname, "rb") as fh:
                lo = dill.load(fh).num_evals
        code, ops = child(f, (0, 0, 0, 0.0))
        if code != 0:
            fail("save-raised", "an undisturbed save failed (exit %d)" % code)
            return
        inspect("undisturbed", n, n)
        size = os.path.getsize(fname)
        restore(base)
        cnt("stages")
        res["ops"].append(" ".join(ops))
        if not ops:
            fail("no-save", "no file operation during the save")
            return
        # too many writes: all of the last ones, a sample of the rest
        idx = list(range(1, len(ops) + 1))
        if len(idx) > spec["max_ops"]:
            keep = set(idx[:4] + idx[-8:]) | {i for i in idx if ops[i - 1] != "write"}
            idx = sorted(keep | set(int(i) for i in rng.choice(idx, spec["max_ops"] // 2, replace=False)))
        plan = []
        for k in idx:
            plan.append(("killed before operation %d (%s)" % (k, ops[k - 1]), (k, 0, 0, 0.0), None))
            if ops[k - 1] == "write":
                for fr in (0.02, 0.5, 0.999):
                    plan.append(("killed %.3f into write %d" % (fr, k), (k, 2, 0, fr), None))
            e = int(rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]))
            plan.append(("error %s at operation %d (%s)" % (errno.errorcode[e], k, ops[k - 1]), (k, 1, e, 0.0), None))
        for fr in [0.0, 0.1, 0.5, 0.97] + rng.random(4).tolist() + [1.0]:
            lim = int(fr * size) if fr < 1 else size - 1
            plan.append(("disk full after %d bytes" % lim, None, (lim, False)))
            plan.append(("killed when the file reaches %d bytes" % lim, None, (lim, True)))
        plan.append(("killed after the save", "kill", None))
        for what, arm, limit in plan:
            if arm == "kill":
                code, _ = child(lambda: (f(), os.kill(os.getpid(), signal.SIGKILL)))
            else:
                code, _ = child(f, arm, limit)
            cnt("faults")
            cnt("fault-killed" if code < 0 else "fault-error" if code else "fault-survived")
            if code == -signal.SIGALRM:
                fail("hang", what + ": the save did not return within 60 s")
            m = inspect(what, lo, n, old=old)
            res["states"].append("%s|%s|%s" % (what.split(" (")[0] if arm != "kill" else what, "none" if m is None else m - lo, spec["kind"]))
            cnt("left-old" if m == lo and lo != n else "left-new" if m == n else "left-none")
            if len(res["samples"]) < 3:
                res["samples"].append(dict(fault=what, exit=code, snapshot=m, before=lo, after=n, file=spec["kind"]))
            # later saves must cope with whatever the crash left behind
            if rng.random() < spec["p_again"]:
                code, _ = child(f)
                if code != 0:
                    fail("save-after-crash", "%s: the next save failed (exit %d)" % (what, code))
                inspect(what + ", then a complete save", n, n, old=True, fatal=True)
                cnt("saves-after-crash")
            if rng.random() < spec["p_resume"] and os.path.exists(fname):
                code, _ = child(resume)
                cnt("resumes")
                if code != 0:
                    fail("resume", "%s: the run could not be resumed and finished (exit %d)" % (what, code))
            restore(base)
            if len(res["viol"]) >= 3:
                break

    def resume():
        c = Ctl()
        c.stage = lambda f, last: f()
        cc = CheckpointController(c, fname=fname)
        best = cc.resume()
        c.call_term_callbacks()
        s = c.strategy
        assert s.num_evals == s.max_evals, (s.num_evals, s.max_evals)
        assert best.value == np.min(s.fX)

    log = []
    s = sim.Sim(spec["sim"], None)
    st = s.build()
    objs.set_sink(None)
    prob = s.prob
    c = Ctl()
    c.strategy = st
    cc = CheckpointController(c, fname=fname)
    cc.run()
    cnt("runs")
    print("PVRESULT " + json.dumps(res))


main()
