"""Adversarial execution of a real pySOT strategy.

`Sim` builds the real strategy from a JSON-able spec, drives it through the POAP controller protocol with a scripted
adversary (out-of-order completions, rejected proposals, killed and cancelled evaluations, intermediate updates,
workers asking when there is nothing to do, crashes) and keeps an independent client-side record of what happened
(`Tracker`). Monitors subscribe to the events and compare the strategy with the tracker."""
import copy
import os
import shutil
import tempfile

import numpy as np
from poap.controller import Controller

from . import objs

NPS = lambda x: np.asarray(x, dtype=float).ravel()


def key(x):
    return NPS(x).tobytes()


class Crash(BaseException):
    """Simulated death of the process."""


class Stop(Exception):
    """A violation was recorded and the run cannot continue."""


class OutOfScope(Exception):
    """The workload left the scope of the property (recorded as skipped)."""


# ------------------------------------------------------------------------------------------------ workloads
def gen_bounds(rng, dim, style):
    if style == "unit":
        lb, ub = np.zeros(dim), np.ones(dim)
    elif style == "sym":
        lb, ub = -np.ones(dim) * 5, np.ones(dim) * 5
    elif style == "aniso":
        w = 10.0 ** rng.uniform(-0.5, 2.5, dim)
        lb = rng.uniform(-3, 3, dim) * w
        ub = lb + w
    elif style == "neg":
        lb = -rng.uniform(10, 30, dim)
        ub = lb + rng.uniform(2, 9, dim)
    elif style == "far":  # very far from zero
        lb = rng.choice([-1.0, 1.0], dim) * rng.uniform(0.5e6, 2e6, dim)
        ub = lb + rng.uniform(1, 12, dim)
    elif style == "wide":
        w = 10.0 ** rng.uniform(3.5, 6, dim)
        lb = rng.uniform(-1, 1, dim) * w
        ub = lb + w
    else:  # "tight": far from zero, narrow
        lb = rng.uniform(50, 120, dim)
        ub = lb + rng.uniform(0.4, 1.5, dim)
    k = int(rng.choice([1, 2, 3, 9]))
    if style not in ("unit", "sym") and k < 9:  # decimal bounds, as users write them: lb + (ub - lb) need not be ub
        lo, hi = np.round(lb, k), np.round(ub, k)
        if np.all(lo < hi):
            lb, ub = lo, hi
    return lb, ub


def gen_problem(rng, dim=None, ints="some", style=None, fkind=None):
    dim = int(rng.choice([1, 2, 3, 4, 5, 8], p=[0.15, 0.25, 0.2, 0.15, 0.15, 0.1])) if dim is None else dim
    style = style or str(rng.choice(["unit", "sym", "aniso", "neg", "tight", "far", "wide"], p=[0.165] * 5 + [0.125, 0.05]))
    lb, ub = gen_bounds(rng, dim, style)
    iv = []
    if ints == "some" and dim > 1 and rng.random() < 0.35:
        iv = sorted(rng.choice(dim, size=int(rng.integers(1, dim)), replace=False).tolist())
    elif ints == "all":
        iv = list(range(dim))
    for i in iv:
        c = rng.integers(-20, 20)
        h = int(rng.integers(6, 15)) if ints == "some" else int(rng.integers(45, 90))
        frac = rng.choice([0.0, 0.0, 0.3, 0.5, 0.7])
        lb[i], ub[i] = c - frac, c + h + (frac if rng.random() < 0.5 else 0.25 * (frac > 0))
    if len(iv) > 1 and iv[0] % 2 == 0:
        iv = iv[1:] + iv[:1]  # in no particular order
    fkind = fkind or str(
        rng.choice(["func", "func", "offset", "neg", "flat", "improve", "script", "drift", "near", "int", "f32", "huge", "tiny"])
    )
    return dict(dim=dim, lb=lb.tolist(), ub=ub.tolist(), int_var=[int(i) for i in iv], fkind=fkind,
                fseed=int(rng.integers(1 << 30)))


def whole_bounds(p):
    """The problem with integer bounds in arrays of integers."""
    p["lb"], p["ub"] = [int(np.floor(a)) for a in p["lb"]], [int(np.ceil(a)) for a in p["ub"]]
    p["ub"] = [max(b, a + 1) for a, b in zip(p["lb"], p["ub"])]
    p["int_bounds"] = True


def gen_spec(rng, strat=None, asynchronous=None, dim=None, ints="some", fkind=None, style=None, faults="any", extras=None,
             restarts=None, surrogate=None, budget=None, workers=None, reject=True, order=None, pester=None, batch=None,
             design=None, num_cand=None, weights=None, updates=True, cap=None, ncenters=None, heavy=0.1, heavy_dim=False):
    """Draw a workload. faults: 'none', 'adapt' (only adaptive evaluations fail), 'any'."""
    strat = strat or str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb", "random"], p=[0.3, 0.25, 0.25, 0.07, 0.07, 0.06]))
    gp = strat in ("ei", "lcb")
    # a heavy tail: now and then one quantity is far larger than usual
    big = str(rng.choice(["dim", "workers", "batch", "extras", "cand", "weights", "budget", "centers"])) if rng.random() < heavy and not gp else ""
    if big == "dim" and (dim is None or heavy_dim):
        dim = int(rng.integers(9, 22))
    if big == "workers":
        workers = int(rng.integers(12, 40))
    if big in ("batch", "centers"):
        batch = int(rng.integers(9, 20))
        ncenters = batch + int(rng.integers(0, 5))
    if big == "extras" and extras is not False:
        extras = True
    if big == "cand":
        num_cand = int(rng.integers(300, 1200))
    if big == "budget" and budget is None:
        budget = int(rng.integers(80, 200) if rng.random() < 0.75 else rng.integers(200, 420))
    p = gen_problem(rng, dim=dim, ints=ints, style=style, fkind=fkind)
    dim = p["dim"]
    asyn = bool(rng.random() < 0.5) if asynchronous is None else asynchronous
    W = int(rng.choice([1, 2, 3, 4, 6, 9])) if workers is None else workers
    s = dict(strat=strat, prob=p, asynchronous=asyn, W=W, sseed=int(rng.integers(1 << 30)), aseed=int(rng.integers(1 << 30)))
    s["batch"] = int(rng.choice([1, 2, 3, 4, 6, 8], p=[0.2, 0.2, 0.2, 0.2, 0.1, 0.1])) if batch is None else batch
    if asyn and rng.random() < 0.5:
        s["batch"] = None
    if strat == "sop":
        s["ncenters"] = int(ncenters or rng.choice([2, 4, 5, 8]))
        if not asyn:
            s["batch"] = min(s["batch"], s["ncenters"])
    nmin = 2 * (dim + 1) + W + 2
    kind = design or str(rng.choice(["slhd", "slhd", "lhd"]))
    if kind == "lhd" and dim == 1 and p["int_var"]:
        kind = "slhd"  # a random design would often repeat an integer
    if kind == "2fact" and (2 ** dim < nmin or dim > 6):
        kind = "slhd"
    s["design"] = dict(kind=kind, n=2 ** dim if kind == "2fact" else nmin + int(rng.integers(0, 4)), iters=10)
    n0 = s["design"]["n"]
    ne = 0
    extras = (rng.random() < 0.35) if extras is None else extras
    if extras and strat != "random":
        ne = int(rng.integers(5, 14) if big == "extras" else rng.integers(1, 4))
        lb, ub = np.array(p["lb"]), np.array(p["ub"])
        E = lb + rng.uniform(0.02, 0.98, (ne, dim)) * (ub - lb)
        for i in p["int_var"]:
            lo, hi = np.ceil(lb[i]), np.floor(ub[i])
            E[:, i] = np.clip(np.round(E[:, i]), lo, hi)
        s["extra"] = E.tolist()
        form = str(rng.choice(["none", "known", "nan", "mixed", "inf"]))
        v = rng.uniform(-1, 3, ne)
        if rng.random() < 0.3:
            v[int(rng.integers(ne))] = 0.0
        if form == "none":
            s["extra_vals"] = None
        else:
            if form == "nan":
                v[:] = np.nan
            elif form == "inf":
                v[:] = np.where(rng.random(ne) < 0.6, np.inf, -np.inf)
            elif form == "mixed":
                v[rng.random(ne) < 0.5] = np.nan
            s["extra_vals"] = [None if np.isnan(x) else (str(x) if np.isinf(x) else float(x)) for x in v]
            s["extra_shape"] = str(rng.choice(["col", "flat"]))
    if budget is None:
        b = n0 + ne + int(rng.choice([0, 1, 3, 10, 25, 50], p=[0.05, 0.05, 0.1, 0.3, 0.3, 0.2]))
        cheap = gp and rng.random() < 0.45
        if gp:
            b = min(b, n0 + ne + (20 if cheap else 6))
    else:
        cheap = gp and rng.random() < 0.45
        b = n0 + ne + (budget(rng, n0) if callable(budget) else budget)
    s["max_evals"] = int(b)
    s["use_restarts"] = bool(rng.random() < 0.75) if restarts is None else restarts
    if gp:
        s["surrogate"] = dict(kind="gp")
        if cheap:  # predictions that cost nothing, of widely different and sometimes no uncertainty
            s["surrogate"] = dict(kind="cheap", amps=[float(10 ** rng.uniform(-4, 1) * (rng.random() > 0.15))])
        s["tol"] = [None, 1e-3, 0.5][int(rng.choice(3, p=[0.6, 0.2, 0.2]))]
    elif surrogate is not None:
        s["surrogate"] = surrogate
    else:
        k = int(rng.choice(6, p=[0.35, 0.15, 0.15, 0.15, 0.1, 0.1]))
        s["surrogate"] = [
            dict(kind="rbf", kernel="cubic", tail="linear"), dict(kind="rbf", kernel="tps", tail="linear"),
            dict(kind="rbf", kernel="linear", tail="constant"), dict(kind="rbf", kernel="linear", tail="linear"),
            dict(kind="gp"), dict(kind="poly", degree=2)][k]
    s["surrogate"] = dict(s["surrogate"], cap=bool(rng.random() < 0.25) if cap is None else cap)
    s["num_cand"] = int(num_cand or rng.choice([20, 40, 100]))
    s["weights"] = weights if weights is not None else [None, None, [0.3, 0.5, 0.8, 0.95], [0.1, 0.9], [1.0], [0.0, 0.5, 1.0],
                                                            [0.5, 0.5, 0.95], [0.95, 0.3, 0.7, 0.3]][int(rng.integers(8))]
    if big == "weights" and weights is None:
        s["weights"] = np.round(rng.uniform(0, 1, int(rng.integers(7, 15))), 2).tolist()
    s["adv"] = dict(
        ask=str(pester or rng.choice(["eager", "eager", "pester", "lazy"])),
        order=str(order or rng.choice(["fifo", "lifo", "random", "random", "straggler", "window", "old"])),
        p_reject=float(rng.choice([0, 0, 0.1, 0.35])) if reject else 0.0,
        p_fail=0.0 if faults == "none" else float(rng.choice([0, 0.05, 0.15, 0.35])),
        fail_kinds="adapt" if faults == "adapt" else "any",
        p_update=float(rng.choice([0, 0.1, 0.3])) if updates else 0.0,
    )
    return s


# ------------------------------------------------------------------------------------------------ client-side record
class Tracker:
    """What a client observed: nothing here is read from the strategy."""

    def __init__(self, spec):
        self.max_evals = spec["max_evals"]
        self.asynchronous = spec["asynchronous"]
        self.batch = spec["batch"]
        self.run = -1
        self.runs_started = 0
        self.known, self.unknown = [], []
        self.extra_keys = set()
        if spec.get("extra"):
            E = np.array(spec["extra"], dtype=float)
            v = extra_vals(spec)
            for i in range(len(E)):
                self.extra_keys.add(key(E[i]))
                if v is None or not np.all(np.isfinite(np.ravel(v)[i])):
                    self.unknown.append(E[i].copy())
                else:
                    self.known.append((E[i].copy(), float(np.ravel(v)[i])))
        self.completed = []  # infos in completion order
        self.finished = []  # completed and failed, in order
        self.inflight = []
        self.accepted = self.rejected = self.failed = 0
        self.must, self.maybe, self.retry = [], [], []
        self.adaptive_started = False
        self.batch_pts = []  # distinct members of the current synchronous batch offered so far
        self.terminated = False
        self.committed = False  # the whole budget was handed out at some moment: the run is winding down
        self.nask = 0
        self.seq = 0
        self.resumes = 0
        self.st = {}  # state of stateful monitors (travels with checkpoints)

    # -- transitions
    def new_design(self, X):
        self.run += 1
        self.maybe += self.must
        self.must = [np.array(x) for x in X]
        if self.run == 0:
            self.must += [x.copy() for x in self.unknown]
        self.design = np.array(X)
        self.adaptive_started = False
        self.batch_pts = []

    def take(self, pool, x):
        k = key(x)
        for i, y in enumerate(pool):
            if key(y) == k:
                return pool.pop(i)
        return None

    def classify(self, x):
        if self.take(self.must, x) is not None:
            return "init"
        if self.take(self.maybe, x) is not None:
            return "init-retry"
        if self.take(self.retry, x) is not None:
            return "adapt-retry"
        return "adapt"

    def data(self):
        """(X, fX) of the current run, completed and known."""
        k = self.known if self.run == 0 else []
        X = [x for x, _ in k] + [c["x"] for c in self.completed if c["run"] == self.run]
        f = [v for _, v in k] + [c["f"] for c in self.completed if c["run"] == self.run]
        d = self.design.shape[1]
        return np.array(X, dtype=float).reshape(-1, d), np.array(f, dtype=float).reshape(-1, 1)

    def pend(self):
        d = self.design.shape[1]
        return np.array([i["x"] for i in self.inflight], dtype=float).reshape(-1, d)

    def on_resume(self):
        self.resumes += 1
        for i in self.inflight:
            if not self.adaptive_started and i["cls"].startswith("init") and i["run"] == self.run:
                self.must.append(i["x"])
        self.inflight = []
        self.terminated = False
        self.committed = False


def extra_vals(spec):
    v = spec.get("extra_vals")
    if v is None:
        return None
    a = np.array([np.nan if x is None else (float(x) if isinstance(x, str) else x) for x in v], dtype=float)
    return a.reshape(-1, 1) if spec.get("extra_shape") != "flat" else a


class Adv(Controller):
    """The adversary, a POAP controller."""

    def __init__(self, sim):
        Controller.__init__(self)
        self.sim = sim

    def __reduce__(self):  # checkpoints reach the controller through record callbacks
        return (object, ())

    def run(self, merit=None, filter=None):
        self.sim.loop()
        return self.best_point(merit=merit, filter=filter)


class Sim:
    def __init__(self, spec, out, monitors=(), on_error="raise"):
        self.spec, self.out = spec, out
        self.monitors = [m for m in monitors]
        self.prob = objs.Prob(spec["prob"])
        self.t = Tracker(spec)
        self.rng = np.random.default_rng(spec["aseed"])
        self.buf = []  # spied calls since the last event
        self.ctrl = Adv(self)
        self.cc = None
        self.snap = None
        self.events = 0
        self.shape = []  # abstract schedule, for distinct-interleaving counts
        self.crash_at = spec.get("crash_at")
        self.steps = 0
        self.proposals = []  # everything proposed, in order
        self.strategy = None

    # -- construction of the real objects
    def build(self):
        s = self.spec
        objs.set_sink(self.sink)
        np.random.seed(s["sseed"])
        prob = self.prob
        if s["strat"] == "random":
            from pySOT.strategy import RandomStrategy

            st = RandomStrategy(max_evals=s["max_evals"], opt_prob=prob)
            self.t.design = np.zeros((0, prob.dim))
            self.t.run = 0
        else:
            from pySOT.strategy import (DYCORSStrategy, EIStrategy, LCBStrategy, SOPStrategy, SRBFStrategy)

            kw = dict(max_evals=s["max_evals"], opt_prob=prob, exp_design=objs.make_design(s["design"], prob.dim),
                      surrogate=objs.make_surrogate(s["surrogate"], prob), asynchronous=s["asynchronous"],
                      batch_size=s["batch"], use_restarts=s["use_restarts"])
            if s.get("extra"):
                kw["extra_points"] = np.array(s["extra"], dtype=float)
                kw["extra_vals"] = extra_vals(s)
            if s["strat"] in ("srbf", "dycors", "sop"):
                kw["num_cand"] = s["num_cand"]
            if s["strat"] in ("srbf", "dycors"):
                kw["weights"] = s["weights"]
            if s["strat"] == "sop":
                kw["ncenters"] = s["ncenters"]
            if s["strat"] == "ei":
                kw.update(ei_tol=s.get("tol"), dtol=s.get("dtol"))
            if s["strat"] == "lcb":
                kw.update(lcb_tol=s.get("tol"), dtol=s.get("dtol"))
                if s.get("kappa") is not None:
                    kw["kappa"] = s["kappa"]
            self.args = kw
            st = dict(srbf=SRBFStrategy, dycors=DYCORSStrategy, sop=SOPStrategy, ei=EIStrategy, lcb=LCBStrategy)[s["strat"]](**kw)
        self.strategy = self.ctrl.strategy = st
        for k, d in self.drain():
            if k == "design":
                self.t.new_design(d["X"])
        return st

    def sink(self, kind, data):
        if kind == "objective":
            for m in self.monitors:
                if hasattr(m, "on_objective"):
                    m.on_objective(self, data)
        else:
            self.buf.append((kind, data))

    def drain(self):
        b, self.buf = self.buf, []
        return b

    def event(self, kind, **ev):
        self.events += 1
        ev["kind"] = kind
        self.shape.append(kind[0] + (ev.get("cls", "-") or "-")[0])
        for m in self.monitors:
            m.on(self, ev)

    # -- running
    def execute(self):
        """One uninterrupted run under the adversary."""
        try:
            self.build()
            for m in self.monitors:
                if hasattr(m, "start"):
                    m.start(self)
            try:
                self.ctrl.run()
            finally:
                pass
            for m in self.monitors:
                if hasattr(m, "end"):
                    m.end(self)
        except Stop:
            pass
        except OutOfScope as e:
            self.out.skip(str(e))
        finally:
            objs.set_sink(None)
            self.out.ok("events", self.events)
            self.out.ok("proposals", len(self.proposals))
            self.out.ok("completions", len(self.t.completed))
            self.out.ok("failures", self.t.failed)
            self.out.ok("rejections", self.t.rejected)
            self.out.ok("restarts", max(0, self.t.run))
        return self

    def execute_checkpointed(self, fname=None):
        """Run under the real CheckpointController; every Crash is followed by a resume from the file."""
        from pySOT.controller import CheckpointController

        d = tempfile.mkdtemp(prefix="pv-ck-")
        self.fname = fname = os.path.join(d, "sub", "ck.pysot") if fname is None else fname
        os.makedirs(os.path.dirname(fname), exist_ok=True)
        crashes = list(self.spec.get("crashes", []))
        real = {n: getattr(os, n) for n in ("rename", "replace", "link")}

        def dying(f):
            def g(src, dst, *a, **k):
                if os.path.abspath(str(dst)) == os.path.abspath(fname) and self.crash_save is not None:
                    self.crash_save -= 1
                    if self.crash_save <= 0:
                        self.out.ok("crashes-inside-save")
                        raise Crash()
                return f(src, dst, *a, **k)

            return g

        self.crash_save = None
        for n in real:
            setattr(os, n, dying(real[n]))
        try:
            self.build()
            for m in self.monitors:
                if hasattr(m, "start"):
                    m.start(self)
            first = True
            while True:
                self.crash_at = self.crash_save = None
                if crashes:
                    n = crashes.pop(0)
                    if self.spec.get("crash_in_save"):
                        self.crash_save = n
                    else:
                        self.crash_at = self.steps + n
                self.cc = CheckpointController(self.ctrl, fname=fname)
                try:
                    if first:
                        self.best = self.cc.run()
                    else:
                        self.best = self.cc.resume()
                    self.ctrl.call_term_callbacks()
                    break
                except Crash:
                    self.out.ok("crashes")
                    if not os.path.exists(fname):  # died before the first snapshot: a fresh start
                        if self.t.finished and not (self.spec.get("crash_in_save") and len(self.t.finished) == 1):
                            self.out.fail("no-checkpoint", "an evaluation finished but no checkpoint file exists")
                            raise Stop()
                        self.out.ok("crash-before-first-snapshot")
                        self.t = Tracker(self.spec)
                        self.drain()
                        self.prob.calls = 0
                        self.ctrl = Adv(self)
                        self.build()
                        for m in self.monitors:
                            if hasattr(m, "start"):
                                m.start(self)
                        first = True
                        continue
                    self.old = (self.t, self.strategy)
                    self.t = self.snap
                    self.snap = copy.deepcopy(self.t)  # a further crash before the next snapshot returns here
                    self.t.on_resume()
                    self.drain()
                    self.ctrl = Adv(self)  # a new process: nothing survives but the file
                    self.strategy = None
                    first = False
            for m in self.monitors:
                if hasattr(m, "end"):
                    m.end(self)
        except Stop:
            pass
        except OutOfScope as e:
            self.out.skip(str(e))
        finally:
            objs.set_sink(None)
            for n in real:
                setattr(os, n, real[n])
            shutil.rmtree(d, ignore_errors=True)
            self.out.ok("events", self.events)
            self.out.ok("proposals", len(self.proposals))
            self.out.ok("completions", len(self.t.completed))
            self.out.ok("failures", self.t.failed)
            self.out.ok("restarts", max(0, self.t.run))
        return self

    def loop(self):
        if self.strategy is not self.ctrl.strategy:
            self.strategy = self.ctrl.strategy
            self.event("resumed")
        a, rng, t = self.spec["adv"], self.rng, self.t
        cap = 200 * self.spec["max_evals"] + 2000
        W = self.spec["W"]
        blocked = False
        nsteps = 0
        while True:
            nsteps += 1
            self.steps += 1
            if self.crash_at is not None and self.steps >= self.crash_at:
                raise Crash()
            if nsteps > cap:
                self.out.fail("no-progress", "run not finished after %d steps (completed %d of %d, in flight %d)"
                              % (cap, len(t.completed), t.max_evals, len(t.inflight)))
                raise Stop()
            free = W - len(t.inflight)
            if blocked:
                ask = rng.random() < 0.15 and a["ask"] != "eager"
            elif free > 0:
                ask = a["ask"] != "lazy" or rng.random() < 0.5
            else:
                ask = a["ask"] == "pester" and rng.random() < 0.3
            if ask and t.inflight and self.window() and rng.random() < 0.7:
                ask = False
            if ask or not t.inflight:
                r = self.ask(free)
                if r == "none":
                    if not t.inflight:
                        self.out.fail("stuck", "asked while nothing is in flight, the strategy proposed nothing "
                                      "(completed %d of %d)" % (len(t.completed), t.max_evals))
                        raise Stop()
                    blocked = True
                elif r == "terminate":
                    self.after_terminate()
                    return
            else:
                if self.progress():
                    blocked = False

    def propose(self):
        t = self.t
        t.nask += 1
        if len(t.completed) + len(t.inflight) >= t.max_evals:
            t.committed = True
        self.drain()
        try:
            return self.strategy.propose_action()
        except Crash:
            raise
        except Exception as e:
            # a model that cannot be determined by the points the user chose to evaluate is outside every property
            if self.degenerate():
                raise OutOfScope("design does not determine the model (%s)" % type(e).__name__)
            raise

    def degenerate(self):
        s = self.spec["surrogate"] if "surrogate" in self.spec else {}
        if s.get("kind") not in ("rbf", "default-rbf"):
            return False
        X, _ = self.t.data()
        if len(X) == 0:
            return True
        if s["tail"] == "constant":
            return False
        U = (X - self.prob.lb) / (self.prob.ub - self.prob.lb)
        return np.linalg.matrix_rank(np.hstack((np.ones((len(U), 1)), U)), tol=1e-8) < self.prob.dim + 1

    def ask(self, free):
        t, rng, a = self.t, self.rng, self.spec["adv"]
        p = self.propose()
        spied = self.drain()
        restart = False
        for k, d in spied:
            if k == "design":
                self.event("restart", X=d["X"], spied=spied)
                t.new_design(d["X"])
                restart = True
                if self.spec.get("crash_after_restart") and self.cc is not None:
                    self.crash_at = self.steps + self.spec["crash_after_restart"].pop()
                    self.out.ok("crashes-planned-after-restart")
        if p is None or not p:
            self.event("ask", result="none", spied=spied, restart=restart, free=free)
            return "none"
        if p.action == "terminate":
            self.event("ask", result="terminate", spied=spied, restart=restart, free=free)
            self.term = p
            return "terminate"
        x = NPS(p.args[0]).copy()
        self.proposals.append(x)
        if self.spec["strat"] == "random":
            cls = "random"
        else:
            cls = t.classify(x)
        ev = dict(result="eval", x=x, raw=p.args, cls=cls, spied=spied, restart=restart, free=free)
        if cls == "adapt":
            first = not t.adaptive_started
            t.adaptive_started = True
            if not t.asynchronous:
                if len(t.batch_pts) >= t.batch or first:
                    ev["newbatch"] = True
                    ev["oldbatch"] = t.batch_pts
                    t.batch_pts = []
                t.batch_pts.append(x)
        self.event("ask", **ev)
        if free <= 0 or rng.random() < a["p_reject"]:
            p.reject()
            t.rejected += 1
            if cls in ("init", "init-retry"):
                (t.maybe if t.adaptive_started else t.must).append(x)
            elif cls in ("adapt", "adapt-retry") and not t.asynchronous:
                t.retry.append(x)
            self.event("reject", x=x, cls=cls)
        else:
            rec = self.ctrl.new_feval(p.args)
            p.record = rec
            p.accept()
            t.accepted += 1
            t.seq += 1
            info = dict(x=x, cls=cls, run=t.run, seq=t.seq, id=t.seq)
            t.inflight.append(info)
            self.records = getattr(self, "records", {})
            self.records[info["id"]] = rec
            self.event("accept", x=x, cls=cls, info=info, record=rec)
        return "eval"

    def window(self):
        return self.spec["adv"]["order"] == "window" and bool(getattr(self.strategy, "converged", False))

    def pick(self):
        t, o = self.t, self.spec["adv"]["order"]
        n = len(t.inflight)
        if o == "fifo":
            return 0
        if o == "lifo":
            return n - 1
        if o == "window":  # hold evaluations of the initial design until the run has converged
            first = self.window()
            ids = [i for i in range(n) if t.inflight[i]["cls"].startswith("init") == first] or list(range(n))
            return ids[int(self.rng.integers(len(ids)))]
        if o == "old" and self.rng.random() < 0.97:  # evaluations started before the last restart stay in flight
            ids = [i for i in range(n) if t.inflight[i]["run"] == t.run] or list(range(n))
            return ids[int(self.rng.integers(len(ids)))]
        if o == "straggler" and n > 1:
            return 1 + int(self.rng.integers(n - 1)) if self.rng.random() < 0.93 else 0
        return int(self.rng.integers(n))

    def progress(self):
        """Let a running evaluation make progress; True if one finished."""
        t, rng, a = self.t, self.rng, self.spec["adv"]
        info = t.inflight[self.pick()]
        rec = self.records[info["id"]]
        if rng.random() < a["p_update"]:
            k = int(rng.integers(3))
            if k == 0:
                rec.running()
            elif k == 1:
                rec.update(progress=float(rng.random()))
            else:
                rec.update(value=-1e6)  # intermediate estimate
            self.event("update", info=info, record=rec)
            return False
        p_fail = 0.6 if info["cls"].startswith("init") and self.window() and a["p_fail"] else a["p_fail"]
        if rng.random() < p_fail and (a["fail_kinds"] == "any" or info["cls"].startswith("adapt")):
            self.fail_eval(info, rec, "kill" if rng.random() < 0.5 else "cancel")
        else:
            self.complete(info, rec)
        return True

    def remove_inflight(self, info):
        self.t.inflight = [i for i in self.t.inflight if i["id"] != info["id"]]

    def fail_eval(self, info, rec, how):
        t = self.t
        self.remove_inflight(info)
        t.finished.append(dict(info, status=how))
        t.failed += 1
        if info["cls"] in ("init", "init-retry"):
            (t.must if (not t.adaptive_started and info["run"] == t.run) else t.maybe).append(info["x"])
        pre = self.snapshot(info)
        (rec.kill if how == "kill" else rec.cancel)()
        self.event("fail", info=info, record=rec, how=how)
        self.after_done(pre)

    def complete(self, info, rec):
        t = self.t
        v = self.prob.eval(rec.params[0])
        self.remove_inflight(info)
        info["f"] = float(v)
        t.completed.append(info)
        t.finished.append(dict(info, status="completed"))
        pre = self.snapshot(info)
        rec.complete(v)
        self.event("complete", info=info, record=rec, value=v)
        self.after_done(pre)

    def snapshot(self, info):
        """The crash point inside the completion callbacks is the file content: snapshots equal the tracker after it."""
        return None

    def after_done(self, pre):
        if self.cc is not None:
            self.snap = copy.deepcopy(self.t)

    def after_terminate(self):
        t = self.t
        self.term.accept()
        t.terminated = True
        self.event("terminate")
        for _ in range(2):
            p = self.propose()
            self.drain()
            if p is not None and p.action == "eval":
                self.event("ask-after-terminate", x=NPS(p.args[0]))
        if self.cc is not None:
            self.snap = copy.deepcopy(self.t)
