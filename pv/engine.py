"""Runs the cases of one check on all cores, aggregates what the monitors observed and writes the evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

REPO = "/repo"
HERE = "/verif"


class Inconclusive(Exception):
    """The harness could not reach a verdict."""


class Watchdog(Exception):
    pass


class Out:
    """What one case observed."""

    MAXV = 5

    def __init__(self, pid):
        self.pid = pid
        self.n = collections.Counter()  # named counters of monitor evaluations / events
        self.states = set()  # distinct non-trivial states / interleavings observed
        self.viol = []  # (key, message)
        self.samples = []
        self.skipped = collections.Counter()

    def ok(self, name, k=1):
        self.n[name] += k

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())

    def fail(self, key, msg):
        """Record a violation. key names the mechanism (used to match known findings)."""
        if len(self.viol) < self.MAXV:
            self.viol.append((key, str(msg)[:1500]))

    def check(self, cond, key, msg):
        self.n["oracle"] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def skip(self, why):
        self.skipped[why] += 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def dump(self):
        return dict(n=self.n, states=self.states, viol=self.viol, samples=self.samples, skipped=self.skipped)


def in_repo(tb):
    """Does the traceback go through the code under test?"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + os.sep) and os.sep + "pySOT" + os.sep in f:
            return True
        tb = tb.tb_next
    return False


def case_seed(pid, seed, *parts):
    h = hashlib.sha256(repr((pid, seed) + parts).encode()).digest()
    return int.from_bytes(h[:4], "little")


def _alarm(signum, frame):
    raise Watchdog("case exceeded its wall-clock watchdog")


def run_one(args):
    pid, modname, spec, limit = args
    import numpy as np

    out = Out(pid)
    t0 = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        mod = importlib.import_module(modname)
        np.seterr(all="ignore")
        logging.disable(logging.CRITICAL)
        np.random.seed(spec["seed"] % (2 ** 32))
        mod.run_case(spec, out)
    except Watchdog:
        tb = sys.exc_info()[2]
        if in_repo(tb):
            out.fail("hang", "no result after %d s, stuck in\n%s" % (limit, "".join(traceback.format_tb(tb)[-5:])))
        else:
            err = "watchdog: %s" % (spec,)
    except Inconclusive as e:
        err = "inconclusive: %s" % e
    except Exception as e:
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_exception(type(e), e, tb)[-6:])
        if in_repo(tb):
            out.fail("raised:" + type(e).__name__, "valid use raised %s: %s\n%s" % (type(e).__name__, e, text))
        elif isinstance(e, (ValueError, TypeError, IndexError)):
            # the monitor could not even interpret what it was given (wrong shape, type or missing entry)
            out.fail("malformed:" + type(e).__name__, "the result is malformed: %s: %s\n%s" % (type(e).__name__, e, text))
        else:
            err = text
    finally:
        signal.alarm(0)
    return spec, out.dump(), err, time.time() - t0


def load_known(here, pid):
    """Known findings of this property: list of (key, line)."""
    path = os.path.join(here, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                # finding: property=C01 key=<mechanism> <what fails>
                rest = line.split(" ", 2)[2]
                key = rest.split(" ", 1)[0]
                assert key.startswith("key=")
                res.append((key[4:], rest.split(" ", 1)[1]))
    return res


def main(argv, repo, here):
    global REPO, HERE
    REPO, HERE = os.path.realpath(repo), here
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--limit", type=int, default=0, help="only the first N cases (development)")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier
    t0 = time.time()
    try:
        import pySOT
        import pySOT.strategy
        import pySOT.surrogate
        import pySOT.controller

        src = os.path.realpath(pySOT.__file__)
    except Exception:
        tb = traceback.format_exc()
        return finish_import_error(pid, tier, a.seed, tb, here, t0)
    if not src.startswith(REPO + os.sep):
        print("harness error: pySOT imported from %s" % src)
        return 2
    modname = "pv.checks.%s" % pid.lower()
    mod = importlib.import_module(modname)
    limit = getattr(mod, "CASE_LIMIT", 240)

    if a.replay:
        rec = json.load(open(a.replay))
        spec = rec["spec"]
        if spec.get("final"):  # a verdict over the aggregate: repeat the whole check
            return main([pid, "--tier", rec["tier"], "--seed", str(rec["verif_seed"]), "--jobs", str(a.jobs)], repo, here)
        spec, d, err, dt = run_one((pid, modname, spec, limit))
        for k, m in d["viol"]:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            print("  [%s] %s" % (k, m))
        if err:
            print("no verdict:", err)
        return 1 if d["viol"] else (2 if err else 0)

    specs = mod.cases(tier, a.seed)
    for i, s in enumerate(specs):
        s.setdefault("idx", i)
        s.setdefault("seed", case_seed(pid, a.seed, tier, i))
    if a.limit:
        specs = specs[: a.limit]
    n = collections.Counter()
    skipped = collections.Counter()
    states, viols, errs, samples = set(), [], [], []
    times = []
    known = load_known(here, pid)
    seen_known = {}
    ctx = mp.get_context("fork")
    jobs = [(pid, modname, s, limit) for s in specs]
    if a.jobs == 1:
        it = map(run_one, jobs)
        pool = None
    else:
        pool = ctx.Pool(a.jobs, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 200))
        it = pool.imap_unordered(run_one, jobs, chunksize=getattr(mod, "CHUNK", 1))
    stop_at = getattr(mod, "STOP_AT", 20)
    try:
        for spec, d, err, dt in it:
            n.update(d["n"])
            n["cases"] += 1
            skipped.update(d["skipped"])
            states |= d["states"]
            times.append((dt, spec.get("idx")))
            if len(samples) < 6:
                samples.extend(d["samples"][: 6 - len(samples)])
            for k, m in d["viol"]:
                hit = [x for x in known if x[0] == k]
                if hit:
                    seen_known[k] = hit[0][1]
                else:
                    viols.append((spec, k, m))
            if err:
                errs.append((spec, err))
            if len(viols) >= stop_at or len(errs) > 50:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    if not viols and not errs and not a.limit and hasattr(mod, "final"):
        # checks over the aggregate (e.g. statistical); may add violations
        o = Out(pid)
        mod.final(n, o)
        viols += [(dict(final=True), k, m) for k, m in o.viol]

    replays = []
    rdir = os.path.join(here, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for j, (spec, k, m) in enumerate(viols):
        if j >= 10:
            break
        path = os.path.join(rdir, "%s-%d.json" % (pid, j))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, verif_seed=a.seed, key=k, message=m, spec=spec), f, indent=1, default=str)
        replays.append((path, k, m))
    lack = []
    if not a.limit:
        for name, least in getattr(mod, "NEED", {}).items():
            if n[name] < least:
                lack.append("%s=%d < %d" % (name, n[name], least))
    wall = time.time() - t0
    ev = dict(
        property=pid,
        tier=tier,
        seed=a.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=int(n["oracle"]),
            distinct_nontrivial=len(states),
            rule=getattr(mod, "RULE", ""),
            samples=samples,
            cases=int(n["cases"]),
            observed={k: int(v) for k, v in sorted(n.items())},
            skipped={k: int(v) for k, v in skipped.items()},
            errors=len(errs),
        ),
        wall_s=round(wall, 2),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        violations=len(viols),
        reported=[dict(key=k, replay=p, message=m[:400]) for p, k, m in replays],
    )
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, line in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    print(
        "%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct states, %.1fs"
        % (pid, tier, a.seed, n["cases"], n["oracle"], len(states), wall)
    )
    if a.verbose:
        print("  observed:", {k: int(v) for k, v in sorted(n.items())})
        print("  skipped:", dict(skipped))
        times.sort(reverse=True)
        print("  slowest:", times[:5], "sum %.1f" % sum(t for t, _ in times))
    if replays:
        for p, k, m in replays[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  [%s] %s" % (k, m))
        return 1
    if errs:
        print("no verdict: %d cases failed in the harness" % len(errs))
        for s, e in errs[:3]:
            print("  case", {k: v for k, v in s.items() if k in ("idx", "seed")}, "\n", e)
        return 2
    if lack:
        print("no verdict: monitors observed too little:", "; ".join(lack))
        return 2
    return 0


def finish_import_error(pid, tier, seed, tb, here, t0):
    rdir = os.path.join(here, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-import.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, key="import", message=tb, spec=dict(seed=seed)), f)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(
            dict(
                property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=0, distinct_nontrivial=0, rule="import failed", samples=[]),
                wall_s=time.time() - t0, violations=1,
            ), f)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print("  the package cannot be imported:\n" + tb)
    return 1
