"""Two strategies driven in lockstep: the same events, the same values, the same random numbers. They must propose the same."""
import numpy as np
from poap.controller import Controller

from . import objs


class Hand:
    """A strategy driven through the POAP protocol by hand."""

    def __init__(self, strategy):
        self.s = strategy
        self.c = Controller()
        self.c.strategy = strategy
        self.flight = []

    def ask(self, accept=True):
        p = self.s.propose_action()
        if not p:
            return "none"
        if p.action == "terminate":
            p.accept()
            return "terminate"
        x = np.array(p.args[0], dtype=float).ravel()
        if accept:
            p.record = self.c.new_feval(p.args)
            p.accept()
            p.record.running()
            self.flight.append((p.record, x))
        else:
            p.reject()
        return x

    def end(self, k, how, value=None):
        r, x = self.flight.pop(k)
        if how == "done":
            r.complete(value)
        elif how == "kill":
            r.kill()
        else:
            r.cancel()


class Scripted(objs.ExperimentalDesign):
    """A design whose points are given; later calls delegate to the real one."""

    def __init__(self, X, inner):
        self.dim, self.num_pts = inner.dim, inner.num_pts
        self.X, self.inner = np.array(X), inner

    def generate_points(self, lb=None, ub=None, int_var=None):
        if self.X is not None:
            X, self.X = self.X, None
            return X.copy()
        return self.inner.generate_points(lb=lb, ub=ub, int_var=int_var)


def same(a, b, width):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * width))


class Pair:
    def __init__(self, a, b, prob, out):
        self.a, self.b, self.prob, self.out = a, b, prob, out
        self.width = prob.ub - prob.lb
        self.log = []

    def ask(self, accept, what):
        st = np.random.get_state()
        x = self.a.ask(accept)
        end = np.random.get_state()
        np.random.set_state(st)
        try:
            y = self.b.ask(accept)
        except Exception as e:
            self.out.fail("raised:" + type(e).__name__, "%s: %r after %s" % (what, e, "".join(self.log)[-40:]))
            return None
        np.random.set_state(end)
        self.log.append("a" if accept else "r")
        self.out.ok("twin-asks")
        if not isinstance(x, str):
            self.out.ok("twin-proposals")
        if not same(x, y, self.width):
            self.out.fail("different", "%s: %s proposed, expected %s (after %s)" % (what, y, x, "".join(self.log)[-40:]))
            return None
        return x

    def end(self, k, how, value=None):
        self.a.end(k, how, value)
        self.b.end(k, how, value)
        self.log.append(how[0])


# ------------------------------------------------------------------------------------------------ C12
def construct(s, prob, design=None, seed=0):
    """A strategy for a gen_spec-like dict, fresh objects."""
    from pySOT.strategy import DYCORSStrategy, EIStrategy, LCBStrategy, SOPStrategy, SRBFStrategy

    np.random.seed(seed)
    kw = dict(max_evals=s["max_evals"], opt_prob=prob, exp_design=design or objs.make_design(s["design"], prob.dim),
              surrogate=objs.make_surrogate(s["surrogate"], prob), asynchronous=s["asynchronous"], batch_size=s["batch"],
              use_restarts=s["use_restarts"])
    if s["strat"] in ("srbf", "dycors", "sop"):
        kw["num_cand"] = s["num_cand"]
    if s["strat"] in ("srbf", "dycors"):
        kw["weights"] = s["weights"]
    if s["strat"] == "sop":
        kw["ncenters"] = s["ncenters"]
    if s["strat"] == "ei":
        kw.update(ei_tol=s.get("tol"), dtol=s.get("dtol"))
    if s["strat"] == "lcb":
        kw.update(lcb_tol=s.get("tol"), dtol=s.get("dtol"))
    return dict(srbf=SRBFStrategy, dycors=DYCORSStrategy, sop=SOPStrategy, ei=EIStrategy, lcb=LCBStrategy)[s["strat"]](**kw)


def restart_twin(s, rng, out):
    """After a restart the strategy behaves like a new one with the same design."""
    prob = objs.Prob(s["prob"])
    designs = []
    objs.set_sink(lambda kind, d: designs.append(np.array(d["X"])) if kind == "design" else None)
    base = lambda x: float(np.sum((((x - prob.lb) / (prob.ub - prob.lb)) - 0.4) ** 2))
    shift = s["shift"]
    try:
        live = Hand(construct(s, prob, seed=s["sseed"]))
        W, flight = s["W"], live.flight
        bad = 1.0 if s["strat"] in ("srbf", "dycors") else 0.0
        for n in range(5001):  # first run: no real improvement, so that it converges; stop right after the ask that restarts
            if n == 5000:
                out.skip("no restart")
                return
            x = None
            keep = 1 if s["asynchronous"] and s["late"] else 0
            if len(flight) < W and not (live.s.converged and len(flight) > keep):
                x = live.ask()
                if len(designs) > 1:
                    break
                if not isinstance(x, str):
                    continue
            if flight:
                k = int(rng.integers(len(flight)))
                live.end(k, "done", shift + bad + 0.1 * (not bad) * base(flight[k][1]))
        if isinstance(x, str):
            out.fail("no-proposal", "the ask that restarted answered %s" % x)
            return
        first = flight.pop()
        # the evaluations of the old run end now, with values that would matter
        while live.flight:
            live.end(0, "done", shift - 5.0)
            out.ok("late-completions")
        live.flight.append(first)
        X = designs[-1]
        t2 = dict(s)
        twin = Hand(construct(t2, objs.Prob(s["prob"]), design=Scripted(X, objs.make_design(s["design"], prob.dim)), seed=1))
        nd = len(designs)
        st = np.random.get_state()
        y = twin.ask()
        np.random.set_state(st)
        what = "%s %s after a restart" % (s["strat"], "async" if s["asynchronous"] else "sync")
        if not same(first[1], y, prob.ub - prob.lb):
            out.fail("different", "%s: first proposal %s, expected %s" % (what, first[1], y))
            return
        pair = Pair(twin, live, prob, out)
        out.ok("restart-twins")
        adapt = 0
        for _ in range(s["steps"]):
            if len(pair.a.flight) < W and rng.random() < 0.7:
                x = pair.ask(rng.random() > 0.1, what)
                if x is None:
                    return
                if len(designs) > nd:
                    break  # both restarted: another random design
                if isinstance(x, str):
                    if not pair.a.flight:
                        break
                elif not (X == x).all(axis=1).any():
                    adapt += 1
                    continue
                else:
                    continue
            if pair.a.flight:
                k = int(rng.integers(len(pair.a.flight)))
                v = base(pair.a.flight[k][1]) * s["amp"]
                if rng.random() < 0.07:
                    pair.end(k, "kill" if rng.random() < 0.5 else "cancel")
                else:
                    pair.end(k, "done", v)
        out.ok("twin-adaptive", adapt)
        out.state("twin", s["strat"], s["asynchronous"], "".join(pair.log))
    finally:
        objs.set_sink(None)


# ------------------------------------------------------------------------------------------------ C14
def resume_twin(s, rng, out):
    """A strategy resumed from a snapshot taken while nothing was in flight continues like the one that never crashed."""
    import os
    import tempfile

    import dill

    prob = objs.Prob(s["prob"])
    live = Hand(construct(s, prob, seed=s["sseed"]))
    W = s["W"]
    n0 = s["design"]["n"]

    def step(d, pair=None):
        if len(d.flight) < W and rng.random() < 0.75:
            ok = rng.random() > 0.06
            x = pair.ask(ok, what) if pair else d.ask(ok)
            if x is None:
                return False
            if not isinstance(x, str):
                return True
            if x == "terminate" or not d.flight:
                return False
        if d.flight:
            k = int(rng.integers(len(d.flight)))
            how = "done" if rng.random() < 0.93 else ("kill" if rng.random() < 0.5 else "cancel")
            v = float(prob.value(d.flight[k][1])) if how == "done" else None
            if how == "done":
                prob.calls += 1
            (pair or d).end(k, how, v)
        return True

    what = ""
    stop = int(rng.integers(1, s["pre"]))
    for _ in range(stop):
        if not step(live):
            return
        if s.get("at_convergence") and getattr(live.s, "converged", False):
            break
    while live.flight:  # quiescent moment
        live.end(0, "done", float(prob.value(live.flight[0][1])))
        prob.calls += 1
    if not live.s.num_evals or live.s.terminate:  # the lost evaluations are given back on a resume, the failed ones are not
        return
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "c.pysot")
        live.s.save(f)
        with open(f, "rb") as i:
            b = dill.load(i)
    b.resume()
    what = "%s %s resumed after %d evaluations%s" % (s["strat"], "async" if s["asynchronous"] else "sync", live.s.num_evals,
                                                    " (converged)" if live.s.converged else "")
    if live.s.converged:
        out.ok("twins-at-convergence")
    pair = Pair(live, Hand(b), prob, out)
    out.ok("resume-twins")
    for _ in range(s["steps"]):
        if not step(pair.a, pair):
            break
    out.state("twin", s["strat"], s["asynchronous"], live.s.num_evals, "".join(pair.log))
