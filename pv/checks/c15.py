import random
import threading
import time

import numpy as np

from .. import objs
from ..sim import Sim, gen_spec, key

RULE = "distinct orders of (start, finish, failure) events observed at the workers, per controller and strategy"
ASSUMPTIONS = ["objectives do not modify the point they receive", "wall-clock deadline of 120 s for runs that take about a second"]
NEED = {"thread-runs": 30, "team-runs": 30, "serial-runs": 10, "raised": 100, "overlaps": 200, "intermediate-reports": 200}
CASE_LIMIT = 200


class ObjectiveFailure(Exception):
    pass


def cases(tier, seed):
    q = tier == "quick"
    return [dict(mode="thread") for _ in range(70 if q else 700)] + [dict(mode="team") for _ in range(60 if q else 700)] + \
        [dict(mode="serial") for _ in range(20 if q else 200)]


class Log:
    """Thread-safe event log written at the workers, independent of records and strategy."""

    def __init__(self):
        self.lock = threading.Lock()
        self.events = []
        self.running = 0
        self.peak = 0

    def add(self, what, i, x=None, v=None):
        with self.lock:
            if what == "start":
                self.running += 1
                self.peak = max(self.peak, self.running)
            elif what in ("ok", "raise"):
                self.running -= 1
            self.events.append((what, i, x, v))

    def count(self):
        with self.lock:
            self.n = getattr(self, "n", 0) + 1
            return self.n


def run_case(spec, out):
    from poap.controller import BasicWorkerThread, SerialController, SimTeamController, ThreadController

    rng = np.random.default_rng(spec["seed"])
    mode = spec["mode"]
    W = 1 if mode == "serial" else int(rng.integers(1, 9))
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb", "random"], p=[0.28, 0.25, 0.22, 0.08, 0.07, 0.1]))
    if mode == "thread" and st == "random" and W > 1:
        pass
    s = gen_spec(rng, strat=st, workers=W, dim=int(rng.choice([1, 2, 3])), num_cand=30, faults="any", ints="some",
                 fkind=str(rng.choice(["func", "func", "script", "int", "f32", "neg"])))
    if mode == "serial" and not s["asynchronous"]:
        s["batch"] = 1
    pf = float(rng.choice([0, 0.1, 0.3]))
    log = Log()
    sm = Sim(s, out)
    strategy = sm.build()
    objs.set_sink(None)
    prob = sm.prob
    lag = float(rng.choice([0, 0.0005, 0.003]))
    frng = np.random.default_rng(int(rng.integers(1 << 30)))
    plan = [(frng.random() < pf, float(frng.exponential(lag)) if lag else 0.0) for _ in range(20 * s["max_evals"] + 200)]
    bad = []
    received = []
    reports = []

    def objective(x):
        i = log.count()
        p = np.array(x, dtype=float).copy()
        received.append(x)
        log.add("start", i, p)
        raises, delay = plan[i % len(plan)]
        if delay:
            time.sleep(delay)
        if not np.array_equal(np.asarray(x, dtype=float), p):
            bad.append("the point of evaluation %d changed while it was evaluated" % i)
        if raises:
            log.add("raise", i)
            raise ObjectiveFailure("objective failed")
        v = prob.value(x)
        log.add("ok", i, p, v)
        return v

    if mode == "thread":
        c = ThreadController()
    elif mode == "team":
        drng = np.random.default_rng(int(rng.integers(1 << 30)))
        dk = int(rng.integers(3))
        c = SimTeamController(objective, (lambda r: 1) if dk == 0 else (lambda r: float(drng.exponential(1))) if dk == 1 else
                              (lambda r: float(drng.pareto(0.7))), W)
    else:
        c = SerialController(objective)
    accepted, proposed = [], []
    real = strategy.propose_action

    def propose():
        p = real()
        if p is not None and p.action == "eval":
            proposed.append(key(p.args[0]))
            p.add_callback(lambda q: accepted.append((np.array(q.args[0], dtype=float).copy(), q.record)) if q.accepted else None)
        if len(proposed) > 200000:
            raise RuntimeError("endless proposals")
        return p

    strategy.propose_action = propose
    c.strategy = strategy
    best = None
    if mode == "thread":
        prog = float(rng.choice([0, 0.3, 1.0]))  # workers that report intermediate values and progress

        rrng = random.Random(int(rng.integers(1 << 30)))

        class ReportingWorker(BasicWorkerThread):
            def handle_eval(self, record):
                if prog and rrng.random() < prog:
                    reports.append(1)
                    self.add_message(lambda: record.update(value=-1e6, progress=0.5))
                    self.add_message(record.running)
                BasicWorkerThread.handle_eval(self, record)

        for _ in range(W):
            c.launch_worker(ReportingWorker(c, objective), daemon=True)
        box = {}

        def go():
            try:
                box["best"] = c.run()
            except BaseException as e:
                box["err"] = e

        th = threading.Thread(target=go, daemon=True)
        th.start()
        th.join(120)
        if th.is_alive():
            out.fail("hang", "the threaded run did not finish within 120 s (%d calls logged)" % len(log.events))
            return
        if "err" in box:
            if sm_degenerate(sm, s, strategy):
                out.skip("design does not determine the model")
                return
            raise box["err"]
        best = box["best"]
    else:
        try:
            best = c.run(reraise=False) if mode == "serial" else c.run()
        except Exception:
            if sm_degenerate(sm, s, strategy):
                out.skip("design does not determine the model")
                return
            raise
    out.ok(mode + "-runs")
    ev = log.events
    oks = [e for e in ev if e[0] == "ok"]
    raised = [e for e in ev if e[0] == "raise"]
    starts = [e for e in ev if e[0] == "start"]
    out.ok("objective-calls", len(starts))
    out.ok("raised", len(raised))
    out.ok("intermediate-reports", len(reports))
    out.ok("overlaps", max(0, log.peak - 1) and sum(1 for a, b in zip(ev, ev[1:]) if a[0] == b[0] == "start"))
    out.check(not bad, "point-changed", lambda: bad[0])
    if mode == "thread":
        out.check(log.peak <= W, "too-many-workers", lambda: "%d evaluations at once with %d workers" % (log.peak, W))
    # exactly one call per accepted proposal
    a = sorted(key(x) for x, _ in accepted)
    b = sorted(key(e[2]) for e in starts)
    out.check(a == b, "calls-vs-proposals", lambda: "%d accepted proposals, %d objective calls, points differ" % (len(a), len(b)))
    out.check(len(c.fevals) == len(accepted), "controller-records",
              lambda: "%d records at the controller for %d accepted proposals" % (len(c.fevals), len(accepted)))
    done = [r for r in c.fevals if r.is_completed]
    lost = [r for r in c.fevals if not r.is_done]
    out.check(not lost, "unfinished", lambda: "%d evaluations not finished when the run ended" % len(lost))
    out.check(len(done) == len(oks), "failures-handled",
              lambda: "%d evaluations returned a value, %d records completed" % (len(oks), len(done)))
    out.check(len(c.fevals) - len(done) == len(raised), "failures-handled",
              lambda: "%d evaluations raised, %d records failed" % (len(raised), len(c.fevals) - len(done)))
    f1 = sorted((key(e[2]), float(e[3])) for e in oks)
    f2 = sorted((key(r.params[0]), float(r.value)) for r in done)
    out.check(f1 == f2, "values", "values at the controller differ from the values returned by the objective")
    if s["strat"] != "random":
        f3 = sorted([(key(x), float(v)) for x, v in zip(strategy.X, np.ravel(strategy.fX))])
        want = sorted(f1 + [(key(x), float(v)) for x, v in sm.t.known])
        out.check(f3 == want, "archive",
                  lambda: "archive of %d points, %d evaluations completed and %d known before" % (len(f3), len(f1), len(sm.t.known)))
        f4 = sorted((key(r.params[0]), float(r.value)) for r in strategy.fevals if r.is_completed)
        out.check(f4 == f1, "archive", "the evaluation records kept by the strategy differ from the completed evaluations")
        early = strategy.converged and not s["use_restarts"]
        if not raised and not early:
            out.check(len(oks) == s["max_evals"], "budget", lambda: "%d evaluations, budget %d" % (len(oks), s["max_evals"]))
    else:
        out.check(len(oks) + (len(raised) if False else 0) <= s["max_evals"] and (raised or len(oks) == s["max_evals"]), "budget",
                  lambda: "%d evaluations, budget %d" % (len(oks), s["max_evals"]))
    out.check(len(oks) <= s["max_evals"], "budget", lambda: "%d evaluations, budget %d" % (len(oks), s["max_evals"]))
    if oks:
        out.check(best is not None and best.value == min(e[3] for e in oks), "best",
                  lambda: "returned best %s, smallest value seen %r" % (getattr(best, "value", None), min(e[3] for e in oks)))
        if best is not None:
            hit = [e for e in oks if key(e[2]) == key(best.params[0]) and e[3] == best.value]
            out.check(bool(hit), "best", "the returned record is not one of the evaluations")
    out.state(mode, s["strat"], W, "".join(e[0][0] for e in ev))
    out.sample(dict(controller=mode, strategy=s["strat"], workers=W, asynchronous=s["asynchronous"], peak=log.peak,
                    calls=len(starts), raised=len(raised), order="".join(e[0][0] for e in ev)[:100]))


def sm_degenerate(sm, s, strategy):
    """Too few or degenerate points finished to determine the user's model (every other explanation is a violation)."""
    m = s.get("surrogate", {})
    if m.get("kind") != "rbf" or m["tail"] == "constant":
        return len(strategy.surrogate.X) == 0 if s["strat"] != "random" else False
    X = np.asarray(strategy.surrogate.X)
    if len(X) == 0:
        return True
    U = (X - sm.prob.lb) / (sm.prob.ub - sm.prob.lb)
    return np.linalg.matrix_rank(np.hstack((np.ones((len(U), 1)), U)), tol=1e-8) < sm.prob.dim + 1
