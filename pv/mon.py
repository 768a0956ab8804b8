"""Monitors attached to the simulated runs of sim.py. Each one judges the strategy against the client-side tracker."""
import itertools
import math

import numpy as np
from scipy.spatial.distance import cdist
from scipy.stats import norm

from .sim import NPS, Stop, key

REL = 1e-9


def rows(A, d):
    A = np.asarray(A, dtype=float)
    return A.reshape(-1, d)


def same_seq(A, B):
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    return A.shape == B.shape and np.array_equal(A, B)


def multiset(X):
    return sorted(key(x) for x in X)


class Base:
    def on(self, sim, ev):
        f = getattr(self, "on_" + ev["kind"].replace("-", "_"), None)
        if f is not None:
            f(sim, ev)


# ------------------------------------------------------------------------------------------------ C01
class Budget(Base):
    """Completed plus in flight never exceeds the budget; the final count is exact."""

    def on(self, sim, ev):
        t, out, k = sim.t, sim.out, ev["kind"]
        c, f = len(t.completed), len(t.inflight)
        offered = 1 if k == "ask" and ev["result"] == "eval" else 0
        if sim.spec["strat"] == "random" and k != "ask":
            pass
        out.check(c + f + offered <= t.max_evals, "over-budget",
                  lambda: "%s: %d completed + %d in flight + %d offered > budget %d" % (k, c, f, offered, t.max_evals))
        if sim.spec["strat"] != "random" and k in ("accept", "reject", "fail", "complete", "resumed", "terminate"):
            s = sim.strategy
            out.check(s.num_evals == c, "completed-count",
                      lambda: "after %s the strategy counts %s completed evaluations, %d completed" % (k, s.num_evals, c))
            out.check(s.num_evals + s.pending_evals <= t.max_evals, "over-budget",
                      lambda: "strategy counters %s + %s exceed %d" % (s.num_evals, s.pending_evals, t.max_evals))
            out.check(s.pending_evals == f, "pending-count",
                      lambda: "after %s the strategy counts %s pending evaluations, %d are in flight" % (k, s.pending_evals, f))
        out.state(c, f, t.max_evals, k, ev.get("cls"), t.rejected > 0, t.failed > 0)

    def end(self, sim):
        t, out = sim.t, sim.out
        if not t.terminated:
            return
        s = sim.strategy
        early = sim.spec["strat"] != "random" and bool(s.converged) and not sim.spec["use_restarts"]
        n = len(t.completed)
        if not early:
            # a failure after the whole budget was handed out may leave the last evaluations unused
            out.ok("full-runs")
            if t.failed == 0 or n >= t.max_evals:
                out.check(n == t.max_evals, "inexact-budget",
                          lambda: "the run ended after %d completed evaluations, budget %d (failed %d, rejected %d)"
                          % (n, t.max_evals, t.failed, t.rejected))
        else:
            out.ok("early-stops")


# ------------------------------------------------------------------------------------------------ C02
class Progress(Base):
    """Terminates only when idle, proposes nothing afterwards (being stuck and raising are caught by the driver)."""

    def on_ask(self, sim, ev):
        t, out = sim.t, sim.out
        out.state(ev["result"], ev.get("cls"), len(t.inflight), len(t.completed), ev["restart"], sim.spec["strat"])
        if ev["result"] == "terminate":
            out.check(not t.inflight, "terminate-while-pending",
                      lambda: "asked to terminate with %d evaluations in flight" % len(t.inflight))
        if ev["result"] == "none":
            out.check(bool(t.inflight), "stuck", "nothing in flight and nothing proposed")

    def on_ask_after_terminate(self, sim, ev):
        sim.out.fail("eval-after-terminate", "an evaluation was proposed after asking to terminate")

    def end(self, sim):
        t = sim.t
        sim.out.check(t.terminated, "not-terminated", "run ended without a termination proposal")
        sim.out.ok("finished-runs")


# ------------------------------------------------------------------------------------------------ C03
class Feasible(Base):
    def feas(self, sim, x, what):
        p, out = sim.prob, sim.out
        if key(x) in sim.t.extra_keys:
            return
        d = p.d  # the caller's own bounds, not the (possibly modified) object
        lb, ub = np.array(d["lb"]), np.array(d["ub"])
        ok = x.shape == (d["dim"],) and np.all(np.isfinite(x))
        out.check(ok, "malformed-point", lambda: "%s %s is not a finite vector of dimension %d" % (what, x, d["dim"]))
        if not ok:
            raise Stop()
        out.check(np.all(x >= lb) and np.all(x <= ub), "out-of-bounds",
                  lambda: "%s %s outside [%s, %s]" % (what, x.tolist(), lb.tolist(), ub.tolist()))
        iv = d["int_var"]
        out.check(all(float(x[i]).is_integer() for i in iv), "not-integral",
                  lambda: "%s %s not integral in %s" % (what, x.tolist(), iv))
        on = np.concatenate((x == lb, x == ub))
        out.state(sim.spec["strat"], what, d["dim"], len(iv), bool(on.any()), bool(np.any(lb % 1)), sim.spec["prob"]["fseed"])

    def on_ask(self, sim, ev):
        if ev["result"] == "eval":
            sim.out.ok("point-" + ("initial" if ev["cls"].startswith("init") else "chosen"))
            sim.out.check(len(ev["raw"]) == 1, "malformed-point", "proposal carries several arguments")
            self.feas(sim, np.asarray(ev["raw"][0], dtype=float), "proposal")

    def on_objective(self, sim, d):
        self.feas(sim, np.asarray(d["x"], dtype=float), "objective call")


# ------------------------------------------------------------------------------------------------ C04
class History(Base):
    """X, fX, fevals, Xpend and the counters equal what the client saw, after every event."""

    def start(self, sim):
        self.verify(sim, "start")

    def on(self, sim, ev):
        if ev["kind"] in ("ask", "restart"):
            if ev["kind"] == "ask" and ev["result"] != "eval":
                self.verify(sim, "ask")
            return
        self.verify(sim, ev["kind"])
        if ev["kind"] in ("complete", "fail", "update"):
            sim.out.state(ev["kind"], len(sim.t.completed), len(sim.t.inflight), ev["info"]["run"] - sim.t.run,
                          ev["info"]["cls"], sim.spec["strat"], sim.spec["asynchronous"])

    def verify(self, sim, why):
        t, out, s = sim.t, sim.out, sim.strategy
        d = sim.prob.dim
        X = np.array([x for x, _ in t.known] + [c["x"] for c in t.completed], dtype=float).reshape(-1, d)
        f = np.array([v for _, v in t.known] + [c["f"] for c in t.completed], dtype=float).reshape(-1, 1)
        out.check(np.shape(s.X) == X.shape and np.array_equal(s.X, X), "archive-points",
                  lambda: "after %s the archive holds %s points, expected %s; first difference %s"
                  % (why, np.shape(s.X), X.shape, first_diff(s.X, X)))
        out.check(np.shape(s.fX) == f.shape and np.array_equal(s.fX, f), "archive-values",
                  lambda: "after %s archive values %s, expected %s" % (why, np.ravel(s.fX)[-4:], f.ravel()[-4:]))
        out.check(multiset(s.Xpend) == multiset([i["x"] for i in t.inflight]), "pending-set",
                  lambda: "after %s the pending set has %d points, %d are in flight" % (why, len(s.Xpend), len(t.inflight)))
        got = (s.num_evals, s.pending_evals, s.accepted_count, s.rejected_count)
        want = (len(t.completed), len(t.inflight), t.accepted, t.rejected)
        out.check(got == want, "counters", lambda: "after %s (completed, pending, accepted, rejected) = %s, expected %s"
                  % (why, got, want))
        fe = s.fevals
        okf = len(fe) == len(t.finished)
        if okf:
            for r, i in zip(fe, t.finished):
                if not (key(r.params[0]) == key(i["x"]) and r.is_done
                        and r.is_completed == (i["status"] == "completed")
                        and (not r.is_completed or float(r.value) == i["f"])):
                    okf = False
        out.check(okf, "finished-list", lambda: "after %s the list of finished evaluations has %d entries, %d finished"
                  % (why, len(fe), len(t.finished)))
        if len(out.viol):
            raise Stop()


def first_diff(A, B):
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    n = min(len(A), len(B))
    for i in range(n):
        if not np.array_equal(A[i], B[i]):
            return i, A[i].tolist(), B[i].tolist()
    return n, None, None


# ------------------------------------------------------------------------------------------------ C05
class SurrogateData(Base):
    def start(self, sim):
        self.verify(sim, "start")

    def on(self, sim, ev):
        if ev["kind"] in ("restart",):
            return
        self.verify(sim, ev["kind"])
        if ev["kind"] in ("complete", "fail"):
            i = ev["info"]
            sim.out.state(ev["kind"], i["cls"], i["run"] - sim.t.run, len(sim.t.data()[0]), sim.spec["strat"],
                          len(sim.t.inflight))
            if ev["kind"] == "complete":
                sim.out.ok("stale-completions" if i["run"] != sim.t.run else "current-completions")

    def verify(self, sim, why):
        t, out = sim.t, sim.out
        g = sim.strategy.surrogate
        X, f = t.data()
        A = sorted((key(x), float(v)) for x, v in zip(X, f.ravel()))
        ok = np.shape(g.X) == X.shape and np.shape(g.fX) == f.shape and g.num_pts == len(X)
        B = sorted((key(x), float(v)) for x, v in zip(np.asarray(g.X), np.ravel(g.fX))) if ok else None
        out.check(ok and A == B, "surrogate-data",
                  lambda: "after %s (run %d) the surrogate holds %s points (num_pts %s), the current run has %d"
                  % (why, t.run, np.shape(g.X), g.num_pts, len(X)))
        if len(out.viol):
            raise Stop()


# ------------------------------------------------------------------------------------------------ C06
class InitialDesign(Base):
    def start(self, sim):
        t, out = sim.t, sim.out
        out.check(t.run == 0, "no-design", "no design was generated at the start")
        self.known(sim)

    def known(self, sim):
        t, out, s = sim.t, sim.out, sim.strategy
        if t.known:
            d = sim.prob.dim
            n = len(t.known)
            out.check(np.shape(s.X)[0] >= n and same_seq(s.X[:n], [x for x, _ in t.known])
                      and np.array_equal(np.ravel(s.fX[:n]), [v for _, v in t.known]), "known-extra-archive",
                      lambda: "known extra points are not in the archive")
            if t.run == 0:
                ks = set((key(x), float(v)) for x, v in zip(s.surrogate.X, np.ravel(s.surrogate.fX)))
                out.check(all((key(x), v) in ks for x, v in t.known), "known-extra-surrogate",
                          "known extra points are not in the surrogate")
            out.ok("known-extra-checks")

    def on_ask(self, sim, ev):
        t, out = sim.t, sim.out
        if ev["restart"]:
            out.ok("restart-designs")
            if ev["result"] == "eval":
                out.check(ev["cls"] in ("init", "init-retry"), "restart-order", "a restart did not begin with its design")
        if ev["result"] != "eval":
            if ev["result"] == "none" and t.asynchronous:
                # budget may be committed; otherwise design points must be handed out
                if not t.committed and not (sim.strategy.converged and not sim.spec["use_restarts"]):
                    out.check(not t.must, "design-withheld", "design points left but nothing was proposed")
            return
        c, k = ev["cls"], key(ev["x"])
        if c in ("init", "init-retry"):
            out.ok("initial-offers")
            kn = set(key(x) for x, _ in t.known)
            return
        out.check(k not in set(key(x) for x, _ in t.known), "known-extra-evaluated", "a known extra point was offered")
        out.check(k not in t.extra_keys, "extra-again",
                  lambda: "extra point offered again (run %d)" % t.run)
        out.ok("adaptive-offers")
        out.check(not t.must, "adaptive-before-initial",
                  lambda: "adaptive point offered in run %d while %d initial points were never handed out successfully"
                  % (t.run, len(t.must)))
        if not t.asynchronous and c == "adapt":
            pend = [i for i in t.inflight if i["cls"].startswith("init")]
            out.check(not pend, "adaptive-while-initial-pending", "synchronous adaptive phase began with initial evaluations pending")
        out.state(c, t.run, len(t.inflight), len(t.completed), t.failed, t.rejected, sim.spec["design"]["kind"])
        if len(out.viol):
            raise Stop()

    def on_accept(self, sim, ev):
        self.known(sim)

    def on_restart(self, sim, ev):
        t, out = sim.t, sim.out
        # the design handed to the strategy has the promised size
        out.check(len(ev["X"]) == sim.spec["design"]["n"], "design-size", "restart design has the wrong size")

    def end(self, sim):
        t, out = sim.t, sim.out
        if t.terminated and t.run == 0 and not t.adaptive_started:
            n0 = sim.spec["design"]["n"] + len(t.unknown)
            conv = bool(getattr(sim.strategy, "converged", False)) and not sim.spec["use_restarts"]
            out.check(t.committed or conv or not t.must, "initial-left", "the run ended with initial points left")


# ------------------------------------------------------------------------------------------------ C07
class Dispatch(Base):
    def on_ask(self, sim, ev):
        t, out, s = sim.t, sim.out, sim.spec
        committed = t.committed
        nq = sum(1 for k, _ in ev["spied"] if k == "predict")
        if t.asynchronous:
            if ev["result"] == "none":
                adapt = sum(1 for i in t.inflight if i["cls"] == "adapt")
                sop = s["strat"] == "sop" and t.adaptive_started and adapt >= s["ncenters"]
                conv = bool(sim.strategy.converged) and not s["use_restarts"]
                out.ok("async-none")
                out.check(committed or sop or conv, "worker-turned-away",
                          lambda: "asynchronous worker got nothing: completed %d, in flight %d, budget %d"
                          % (len(t.completed), len(t.inflight), t.max_evals))
            elif ev["result"] == "eval" and ev["cls"] == "adapt":
                out.ok("async-adaptive")
                out.check(nq > 0, "stale-proposal", "asynchronous adaptive point proposed without consulting the model")
                n = len(t.data()[0])
                for k, d in ev["spied"]:
                    if k == "predict":
                        out.check(d["n"] == n, "stale-model", lambda: "model consulted with %d points, %d are known" % (d["n"], n))
                out.state("async", len(t.inflight), n, t.run, s["strat"])
            return
        # synchronous
        if ev["result"] == "eval" and ev["cls"] in ("adapt", "adapt-retry"):
            if ev.get("newbatch"):
                out.ok("batches")
                out.check(not t.inflight and not t.retry, "early-batch",
                          lambda: "new batch generated while %d evaluations are pending and %d rejected points wait"
                          % (len(t.inflight), len(t.retry)))
                out.check(nq > 0, "oversized-batch", lambda: "point %d handed out without a new batch (batch size %d)"
                          % (len(ev["oldbatch"]) + 1, t.batch))
                out.state("sync", t.batch, len(t.data()[0]), t.run, s["strat"], t.failed, t.rejected)
            else:
                out.check(nq == 0, "undersized-batch",
                          lambda: "the model was consulted after %d of %d batch points" % (len(t.batch_pts) - (ev["cls"] == "adapt"), t.batch))
                if ev["cls"] == "adapt-retry":
                    out.ok("batch-retries")
        elif ev["result"] == "none":
            out.ok("sync-none")
            # points of the batch (or the design) that nobody evaluates must be offered
            out.check(committed or not t.retry, "rejected-point-kept", "a rejected batch point was not offered again")
            if 0 < len(t.batch_pts) < t.batch and not committed:
                out.fail("undersized-batch", "only %d of %d batch points were offered" % (len(t.batch_pts), t.batch))
            out.check(bool(t.inflight), "stuck", "nothing proposed while nothing is in flight")
        elif ev["result"] == "terminate":
            conv = bool(sim.strategy.converged) and not s["use_restarts"]
            out.check(committed or (not t.retry and len(t.batch_pts) in (0, t.batch)) or conv, "undersized-batch",
                      "terminated in the middle of a batch with budget left")


# ------------------------------------------------------------------------------------------------ C08, C09, C30 helpers
def unit(v):
    lo, hi = v.min(), v.max()
    return np.ones(v.shape) if hi == lo else (v - lo) / (hi - lo)


def plan_greedy(sel, cand, pred, ref, weights, dtol, tol=1e-7):
    """Is this order of selected points a sequence of minimisers of the merit? Returns (ok, message)."""
    s = unit(pred.copy())
    d = cdist(cand, ref).min(axis=1)
    used = np.zeros(len(cand), dtype=bool)
    for x, w in zip(sel, weights):
        merit = w * s + (1 - w) * (1 - unit(d))
        valid = (d >= dtol) & ~used
        hit = np.where((cand == x).all(axis=1))[0]
        if len(hit) == 0:
            return False, "selected point is not a candidate"
        if valid.any():
            best = merit[valid].min()
            good = [h for h in hit if valid[h] and merit[h] <= best + tol]
            if not good:
                h = hit[0]
                return False, "merit %.9g (valid %s) instead of %.9g for weight %s" % (merit[h], bool(valid[h]), best, w)
            used[good[0]] = True
        else:
            used[hit[0]] = True
        d = np.minimum(d, cdist(cand, x[None, :]).ravel())
    return True, ""


def order_ok(sel, f):
    """Try the orders in which a batch may have been selected (the last offered first, then all)."""
    n = len(sel)
    orders = [list(range(n))[::-1], list(range(n))]
    if n <= 4:
        orders += [list(p) for p in itertools.permutations(range(n))]
    msg = None
    for o in orders:
        ok, m = f([sel[i] for i in o])
        if ok:
            return True, ""
        msg = msg or m
    return False, msg


class BatchMonitor(Base):
    """Collects generation steps: the model queries of the generating ask, the reference points, and the points chosen."""

    def reset_batch(self, sim):
        self.t = sim.t

    def on_ask(self, sim, ev):
        t = sim.t
        st = t.st.setdefault("batch-" + type(self).__name__, dict(cur=None))
        if ev["result"] != "eval" or ev["cls"] != "adapt":
            if ev["result"] == "eval" and ev["restart"]:
                self.flush(sim, st)
            return
        gen = t.asynchronous or ev.get("newbatch")
        if gen:
            self.flush(sim, st)
            X, f = t.data()
            st["cur"] = dict(X=X, f=f, pend=t.pend(), spied=[(k, d) for k, d in ev["spied"] if k in ("predict", "predict_std")],
                             sel=[], n=1 if t.asynchronous else t.batch, ncomp=len(t.completed), run=t.run,
                             nknown=len(t.known), ninf=len(t.inflight))
        if st["cur"] is None:
            return
        st["cur"]["sel"].append(ev["x"])
        if len(st["cur"]["sel"]) == st["cur"]["n"]:
            cur, st["cur"] = st["cur"], None
            self.generation(sim, cur)

    def flush(self, sim, st):
        # incomplete batch: the budget ended first
        st["cur"] = None

    def generation(self, sim, g):
        raise NotImplementedError


def joined(q, n):
    """The recorded model queries of one generation, cut into n equal parts (one per centre or per point) however many calls
    they were made in; None if that cannot be done."""
    if not q:
        return None
    X = np.vstack([d["X"] for d in q])
    y = np.concatenate([np.ravel(d["y"]) for d in q])
    if n < 1 or len(X) % n or len(y) != len(X):
        return None
    k = len(X) // n
    return [dict(X=X[i * k:(i + 1) * k], y=y[i * k:(i + 1) * k], n=q[0]["n"]) for i in range(n)]


class Separation(BatchMonitor):
    """C08"""

    def generation(self, sim, g):
        out, s, p = sim.out, sim.spec, sim.prob
        strat = s["strat"]
        ref = np.vstack((g["X"], g["pend"]))
        if strat in ("ei", "lcb"):
            dtol = s["dtol"] if s.get("dtol") is not None else 1e-3 * np.linalg.norm(p.ub - p.lb)
        else:
            dtol = 1e-3
        Q = [d for k, d in g["spied"] if k == "predict"]
        C = np.vstack([d["X"] for d in Q]) if Q else np.zeros((0, p.dim))
        sel = g["sel"]
        own = False
        if strat == "sop":  # every centre has its own candidates
            Q = joined(Q, len(sel))
            if Q is None:
                out.skip("sop queries not divisible by the points")
                return
            Q = [d["X"] for d in Q]
            own = True
        out.ok("generations")

        def test(order):
            R = ref
            for i, x in enumerate(order):
                d = cdist(x[None, :], R).min()
                if d < dtol * (1 - 1e-12):
                    Ci = Q[i] if own else C
                    if own and not (Ci == x).all(axis=1).any():
                        return False, "not a candidate of its centre"
                    if len(Ci) and (cdist(Ci, R).min(axis=1) >= dtol).any():
                        return False, "distance %.3g < %.3g to a point evaluated, pending or in the same batch" % (d, dtol)
                    out.ok("excused-no-candidate")
                R = np.vstack((R, x[None, :]))
            return True, ""

        ok, msg = order_ok(sel, test)
        out.check(ok, "too-close", lambda: "%s: %s (batch of %d, %d evaluated, %d pending)" % (strat, msg, len(sel), len(g["X"]), len(g["pend"])))
        near = cdist(C, ref).min(axis=1) < dtol if len(C) else np.zeros(0)
        if near.any():
            out.ok("generations-with-close-candidates")
        out.state(strat, len(sel), len(g["X"]), len(g["pend"]), bool(near.any()), s["prob"]["fseed"])


class Merit(BatchMonitor):
    """C09"""

    def generation(self, sim, g):
        out, s, p, t = sim.out, sim.spec, sim.prob, sim.t
        strat = s["strat"]
        if strat not in ("srbf", "dycors", "sop"):
            return
        st = t.st.setdefault("merit-w", dict(run=-1, i=0))
        W = s["weights"] or [0.3, 0.5, 0.8, 0.95]
        ref = np.vstack((g["X"], g["pend"]))
        n = len(g["sel"])
        q = [d for k, d in g["spied"] if k == "predict"]
        out.ok("generations")
        if strat == "sop":
            self.sop(sim, g, ref, q)
            return
        if len(q) != 1:
            # not a single evaluation of all candidates: join them
            X = np.vstack([d["X"] for d in q])
            y = np.concatenate([np.ravel(d["y"]) for d in q])
        else:
            X, y = q[0]["X"], np.ravel(q[0]["y"])
        if g["run"] != st["run"] and st["run"] < 0:
            st["run"], st["i"] = g["run"], 0
        new_run = g["run"] != st["run"]
        starts = [st["i"]] + (list(range(len(W))) if new_run else [])
        if s.get("crashes"):
            starts = list(range(len(W)))
        msg0 = None
        for i0 in starts:
            ws = [W[(i0 + j) % len(W)] for j in range(n)]
            ok, msg = order_ok(g["sel"], lambda o: plan_greedy(o, X, y, ref, ws, 1e-3))
            if ok:
                break
            msg0 = msg0 or msg
        out.check(ok, "merit", lambda: "%s: selected point is not the merit minimiser: %s (weights %s, batch %d)" % (strat, msg0, ws, n))
        st["run"], st["i"] = g["run"], (i0 + n) % len(W)
        out.state(strat, n, len(ref), tuple(ws), s["prob"]["fseed"])

    def sop(self, sim, g, ref, q):
        out = sim.out
        q = joined(q, len(g["sel"]))
        if q is None:
            out.skip("sop queries not divisible by the points")
            return

        def test(order):
            R = ref
            for x, d in zip(order, q):
                ok, m = plan_greedy([x], d["X"], np.ravel(d["y"]), R, [1.0], 1e-3)
                if not ok:
                    return False, m
                R = np.vstack((R, x[None, :]))
            return True, ""

        ok, msg = order_ok(g["sel"], test)
        out.check(ok, "merit", lambda: "sop: %s" % msg)
        out.state("sop", len(g["sel"]), len(ref), sim.spec["prob"]["fseed"])


# ------------------------------------------------------------------------------------------------ C10
def ei_value(mu, sd, fbest):
    g = (fbest - mu) / np.where(sd > 0, sd, 1.0)
    return np.where(sd > 0, sd * (g * norm.cdf(g) + norm.pdf(g)), np.maximum(fbest - mu, 0.0))


class Acquisition(Base):
    """Every proposal of EI/LCB is the best point its search examined; nothing is proposed only when none is good enough."""

    def on_ask(self, sim, ev):
        t, out, s = sim.t, sim.out, sim.spec
        mu = [d for k, d in ev["spied"] if k == "predict"]
        sd = [d for k, d in ev["spied"] if k == "predict_std"]
        st = t.st.setdefault("acq", dict(cur=None))
        gen = bool(mu)
        if gen:
            if not sd or not np.array_equal(np.vstack([d["X"] for d in mu]), np.vstack([d["X"] for d in sd])):
                out.skip("mean and deviation queried separately")
                return
            X, f = (st["pre"] if ev["restart"] else t.data())
            pend = t.pend()
            fall = np.array([v for _, v in t.known] + [c["f"] for c in t.completed])
            st["cur"] = dict(mu=mu, sd=sd, X=X, f=f, pend=pend, fall=fall, sel=[])
            if ev["restart"] or ev["result"] != "eval":
                self.gave_up(sim, st["cur"])
                st["cur"] = None
                return
        if ev["result"] == "eval" and ev["cls"] == "adapt" and st["cur"] is not None:
            st["cur"]["sel"].append(ev["x"])
            if len(st["cur"]["sel"]) == (1 if t.asynchronous else t.batch):
                g, st["cur"] = st["cur"], None
                ok, msg = order_ok(g["sel"], lambda o: self.plan(sim, g, o))
                out.check(ok, "not-best", lambda: "%s: %s" % (s["strat"], msg))
                out.ok("generations")
                if t.run > 0:
                    out.ok("generations-after-a-restart")
                out.state(s["strat"], len(g["X"]), len(g["pend"]), len(g["sel"]), s["prob"]["fseed"])

    def on_restart(self, sim, ev):
        # data of the run that has just converged
        sim.t.st.setdefault("acq", dict(cur=None))["pre"] = sim.t.data()

    def crit(self, sim, g, X, mu, sd, R):
        """Criterion to minimise (EI negated), with the worst value for close points; NaN-free."""
        s, p = sim.spec, sim.prob
        dtol = s["dtol"] if s.get("dtol") is not None else 1e-3 * np.linalg.norm(p.ub - p.lb)
        mu, sd = np.ravel(mu), np.ravel(sd)
        if s["strat"] == "ei":
            v = -ei_value(mu, sd, g["f"].min())
        else:
            v = mu - (s.get("kappa") if s.get("kappa") is not None else 2.0) * sd
        if dtol > 0:
            d = cdist(X, R).min(axis=1)
            v = np.where(d < dtol, 0.0 if s["strat"] == "ei" else np.inf, v)
        return v

    def target(self, sim, g):
        s = sim.spec
        tol = s.get("tol")
        if tol is None:
            tol = 1e-6 * (g["fall"].max() - g["fall"].min())
        return -tol if s["strat"] == "ei" else g["fall"].min() - tol

    def plan(self, sim, g, order):
        R = np.vstack((g["X"], g["pend"]))
        ch, sds = joined(g["mu"], len(order)), joined(g["sd"], len(order))
        if ch is None or sds is None:
            return True, ""
        tgt = self.target(sim, g)
        scale = max(1e-12, float(np.ptp(g["fall"])))
        for x, a, b in zip(order, ch, sds):
            X, mu, sd = a["X"], a["y"], b["y"]
            v = self.crit(sim, g, X, mu, sd, R)
            hit = np.where((X == x).all(axis=1))[0]
            if len(hit) == 0:
                return False, "proposed point was not examined"
            best = np.min(v)
            if not v[hit].min() <= best + 1e-9 * max(scale, abs(best) if np.isfinite(best) else 0):
                return False, "criterion %.9g at the proposed point, %.9g at another examined point" % (v[hit].min(), best)
            if not v[hit].min() <= tgt + 1e-9 * scale:
                return False, "criterion %.9g misses the improvement tolerance (%.9g)" % (v[hit].min(), tgt)
            R = np.vstack((R, x[None, :]))
        sim.out.ok("examined", int(sum(len(d["X"]) for d in g["mu"])))
        return True, ""

    def gave_up(self, sim, g):
        """Nothing was proposed: no examined point of the last search may meet the tolerance."""
        out, t = sim.out, sim.t
        out.ok("give-ups")
        tgt = self.target(sim, g)
        R = np.vstack((g["X"], g["pend"]))
        n = 1 if t.asynchronous else t.batch
        if n == 1:
            X = np.vstack([d["X"] for d in g["mu"]])
            v = self.crit(sim, g, X, np.concatenate([np.ravel(d["y"]) for d in g["mu"]]),
                          np.concatenate([np.ravel(d["y"]) for d in g["sd"]]), R)
            scale = max(1e-12, float(np.ptp(g["fall"])))
            out.check(np.min(v) >= tgt - 1e-9 * scale, "premature-convergence",
                      lambda: "gave up although an examined point has criterion %.9g, target %.9g" % (np.min(v), tgt))


# ------------------------------------------------------------------------------------------------ C11
class Radius(Base):
    """Executable model of the radius rule, fed with the completions the client saw."""

    def new(self, sim):
        d = sim.prob.dim
        if sim.t.asynchronous:
            ft = max(d, 4)
        else:
            p = sim.t.batch
            ft = max(math.ceil(d / p), math.ceil(4 / p))
        return dict(run=sim.t.run, r=0.2, best=np.inf, s=0, fail=0, ft=ft, since=sim.t.seq, queue=[], conv=False, amb=False)

    def start(self, sim):
        sim.t.st["radius"] = self.new(sim)
        self.compare(sim, "start")

    def on_restart(self, sim, ev):
        m = sim.t.st["radius"]
        sim.out.check(m["conv"], "restart-without-convergence", lambda: "restart although the rule has not converged: %s" % m)
        sim.out.ok("restarts-judged")
        self.fresh = True

    def on_ask(self, sim, ev):
        if ev["restart"]:
            sim.t.st["radius"] = self.new(sim)
            self.compare(sim, "restart")

    def on_complete(self, sim, ev):
        i = ev["info"]
        m = sim.t.st["radius"]
        if i["cls"].startswith("adapt") and i["run"] == sim.t.run and i["seq"] > m["since"]:
            m["queue"].append(i["f"])
            if sim.t.asynchronous:
                self.step(sim, m)
        else:
            if i["cls"].startswith("adapt"):
                sim.out.ok("stale-records")
        self.maybe_batch(sim, m)
        self.compare(sim, "complete")

    def on_fail(self, sim, ev):
        self.maybe_batch(sim, sim.t.st["radius"])
        self.compare(sim, "fail")

    def on_reject(self, sim, ev):
        self.compare(sim, "reject")

    def on_accept(self, sim, ev):
        self.compare(sim, "accept")

    def on_update(self, sim, ev):
        self.compare(sim, "update")

    def maybe_batch(self, sim, m):
        t = sim.t
        if not t.asynchronous and m["queue"] and not t.inflight and not t.retry and len(t.batch_pts) == t.batch:
            self.step(sim, m)

    def step(self, sim, m):
        f = min(m["queue"])
        m["queue"] = []
        thr = m["best"] - 1e-3 * abs(m["best"]) if np.isfinite(m["best"]) else np.inf
        if np.isfinite(thr) and abs(f - thr) <= 1e-12 * max(abs(f), abs(thr)):
            m["amb"] = True  # on the threshold to rounding: either answer is right
        if f < thr or not np.isfinite(m["best"]):
            m["best"] = f
            m["s"] = max(1, m["s"] + 1)
            m["fail"] = 0
            what = "success"
        else:
            m["s"] = min(-1, m["s"] - 1)
            m["fail"] += 1
            what = "failure"
        sim.out.ok("steps-" + what)
        if m["s"] <= -m["ft"]:
            m["r"] /= 2
            m["s"] = 0
            m["since"] = sim.t.seq
            sim.out.ok("halvings")
        elif m["s"] >= 3:
            if m["r"] < 0.2:
                sim.out.ok("doublings")
            m["r"] = min(0.2, 2 * m["r"])
            m["s"] = 0
            m["since"] = sim.t.seq
        if m["fail"] >= 4 * m["ft"] or m["r"] <= 0.2 * 2.0 ** -6:
            sim.out.ok("converged-by-radius" if m["r"] <= 0.2 * 2.0 ** -6 else "converged-by-failures")
            m["conv"] = True
        sim.out.state(sim.spec["strat"], m["ft"], m["s"], m["fail"], m["r"], sim.t.asynchronous, len(sim.t.inflight))

    def compare(self, sim, why):
        m, s, out = sim.t.st["radius"], sim.strategy, sim.out
        if m["amb"]:
            out.skip("improvement on the threshold to rounding")
            raise Stop()
        out.check(abs(s.sampling_radius - m["r"]) <= 1e-12, "radius",
                  lambda: "after %s the radius is %s, the rule gives %s (%s)" % (why, s.sampling_radius, m["r"], m))
        out.check(bool(s.converged) == m["conv"], "convergence",
                  lambda: "after %s converged=%s, the rule gives %s (%s)" % (why, s.converged, m["conv"], m))
        if len(out.viol):
            raise Stop()

    def end(self, sim):
        sim.out.ok("judged-runs")


class RadiusUse(BatchMonitor):
    """The candidates really are drawn with that radius: no candidate further than its truncated reach is a coarse test;
    the distribution itself is C30's subject."""

    def generation(self, sim, g):
        pass


# ------------------------------------------------------------------------------------------------ C12
class Restart(Base):
    """Restart only after convergence, from scratch, keeping history and budget; stop when restarts are disabled."""

    def start(self, sim):
        self.rad = Radius() if sim.spec["strat"] in ("srbf", "dycors") else None
        if self.rad:
            self.rad.start(sim)

    def tol(self, sim):
        return Acquisition()

    def on(self, sim, ev):
        t, out, s, k = sim.t, sim.out, sim.strategy, ev["kind"]
        if self.rad and k not in ("terminate", "resumed", "ask-after-terminate"):
            if k != "restart":
                Base.on(self.rad, sim, ev)
        conv = self.model_converged(sim, ev)
        if k == "restart":
            out.ok("restarts-judged")
            out.check(sim.spec["use_restarts"], "restart-disabled", "restarted although restarts are disabled")
            out.check(conv is not False, "restart-without-convergence", "restarted although the run had not converged")
            out.check(t.asynchronous or not t.inflight, "restart-while-pending",
                      lambda: "synchronous restart with %d evaluations pending" % len(t.inflight))
            out.state("restart", sim.spec["strat"], t.asynchronous, len(t.inflight), len(t.completed), t.run)
            self.before = (np.array(s.X), np.array(s.fX), s.num_evals)
            ok = any(kk == "reset" for kk, _ in ev["spied"])
        if k == "ask":
            wasconv = t.st.get("c12-conv", False)
            if ev["restart"]:
                t.st["c12-conv"] = False
                out.check(ev["result"] == "eval" and ev["cls"].startswith("init"), "restart-proposal",
                          "the restart did not propose a point of the new design")
                d = sim.prob.dim
                A, f = s.surrogate.X, s.surrogate.fX
                out.check(len(A) == 0 and s.surrogate.num_pts == 0, "restart-surrogate",
                          lambda: "the surrogate holds %d points right after a restart" % len(A))
                n = len(t.completed) + len(t.known)
                out.check(len(s.X) == n and len(s.fX) == n and s.num_evals == len(t.completed), "restart-history",
                          lambda: "after the restart the archive has %d points, %d were evaluated; %d counted of %d"
                          % (len(s.X), n, s.num_evals, len(t.completed)))
                out.check(not bool(s.converged), "restart-converged", "still marked converged after the restart")
                if hasattr(s, "sampling_radius"):
                    out.check(s.sampling_radius == 0.2, "restart-radius", "radius %s after restart" % s.sampling_radius)
                X = t.design
                prev = t.st.setdefault("designs", [])
                # freshly generated design
                if sim.spec["design"]["kind"] != "2fact" and not len(sim.prob.int_var) and sim.prob.dim > 1:
                    # few points in 2D have few Latin hypercubes: a coincidence is no alarm, five equal designs in a row are
                    big = sim.prob.dim > 2 and len(X) >= 10
                    twins = [multiset(X) == multiset(P) for P in prev[-4:]]
                    out.check(not (any(twins) if big else len(twins) == 4 and all(twins)), "restart-same-design",
                              "the restart reused an earlier design")
                prev.append(X)
            elif wasconv:
                out.ok("asks-after-convergence")
                if not t.committed:
                    if sim.spec["use_restarts"]:
                        # must restart now (async) or when idle (sync); before that nothing may be proposed
                        out.check(not t.asynchronous and bool(t.inflight) and ev["result"] == "none", "no-restart",
                                  lambda: "converged, restarts enabled, in flight %d, answer %s" % (len(t.inflight), ev["result"]))
                    else:
                        out.check(ev["result"] == ("none" if t.inflight else "terminate"), "no-stop",
                                  lambda: "converged, restarts disabled, in flight %d, answer %s" % (len(t.inflight), ev["result"]))
                        out.ok("stops-judged")
                        out.state("stop", sim.spec["strat"], t.asynchronous, len(t.inflight), len(t.completed))
            elif ev["result"] == "none" and conv and not t.committed:
                # converged during this very ask (EI, LCB)
                out.check((not sim.spec["use_restarts"] and bool(t.inflight)) or (not t.asynchronous and bool(t.inflight)), "no-restart",
                          "converged while asked but neither restarted nor stopped")
        if k in ("complete", "fail", "ask") and not (k == "ask" and ev["restart"]):
            if self.model_converged(sim, ev):
                t.st["c12-conv"] = True
        if len(out.viol):
            raise Stop()

    def model_converged(self, sim, ev):
        """True / False / None (unknown)."""
        t = sim.t
        if self.rad:
            return t.st["radius"]["conv"]
        if sim.spec["strat"] in ("ei", "lcb"):
            if ev["kind"] in ("ask", "restart"):
                mu = [d for k, d in ev["spied"] if k == "predict"]
                sd = [d for k, d in ev["spied"] if k == "predict_std"]
                if not mu or not sd or not np.array_equal(np.vstack([d["X"] for d in mu]), np.vstack([d["X"] for d in sd])):
                    return t.st.get("c12-conv", False)
                if ev["kind"] == "ask" and ev["restart"]:
                    return False
                a = Acquisition()
                X, f = t.data()
                fall = np.array([v for _, v in t.known] + [c["f"] for c in t.completed])
                g = dict(X=X, f=f, fall=fall)
                n = 1 if t.asynchronous else t.batch
                if n > 1:
                    return ev["kind"] == "restart" or (None if ev["result"] != "eval" else False)
                v = a.crit(sim, g, np.vstack([d["X"] for d in mu]), np.concatenate([np.ravel(d["y"]) for d in mu]),
                           np.concatenate([np.ravel(d["y"]) for d in sd]), np.vstack((X, t.pend())))
                tgt, scale = a.target(sim, g), max(1e-12, float(np.ptp(fall)))
                b = np.min(v)
                if abs(b - tgt) <= 1e-9 * scale:
                    return None
                return bool(b > tgt)
            return t.st.get("c12-conv", False)
        return False  # SOP never converges

    def end(self, sim):
        t, s = sim.t, sim.spec
        sim.out.ok("judged-runs")


# ------------------------------------------------------------------------------------------------ C14
class ResumeState(Base):
    """State right after a resume equals the state right after the last snapshot, minus what was in flight."""

    def pub(self, s):
        d = dict(num_evals=s.num_evals, accepted=s.accepted_count, rejected=s.rejected_count, converged=bool(s.converged),
                 X=np.array(s.X).tobytes(), fX=np.array(s.fX, dtype=float).tobytes(),
                 SX=np.array(s.surrogate.X).tobytes(), Sf=np.array(s.surrogate.fX, dtype=float).tobytes(), max_evals=s.max_evals)
        if hasattr(s, "sampling_radius"):
            d["radius"] = s.sampling_radius
        return d

    def save(self, sim):
        sim.t.st["pub"] = self.pub(sim.strategy)

    def on_complete(self, sim, ev):
        self.save(sim)

    def on_fail(self, sim, ev):
        self.save(sim)

    def on_terminate(self, sim, ev):
        self.save(sim)

    def on_resumed(self, sim, ev):
        out, t = sim.out, sim.t
        now, was = self.pub(sim.strategy), t.st.get("pub")
        out.ok("resumes")
        if was is not None:
            bad = [k for k in was if was[k] != now[k]]
            out.check(not bad, "resume-state", lambda: "differs from the snapshot after resume: %s" % bad)
        out.check(not bool(sim.strategy.terminate) or len(t.completed) >= t.max_evals, "resume-terminated",
                  "the resumed run refuses to use its remaining budget")
        lost = [x for x in t.must]
        out.state("resume", sim.spec["strat"], t.asynchronous, len(t.completed), len(t.must), t.run, t.adaptive_started,
                  t.resumes, len(t.retry), len(t.batch_pts))
        if not t.adaptive_started:
            out.ok("resumes-in-initial-design")
        if t.run > 0:
            out.ok("resumes-after-restart")

    def end(self, sim):
        t, out = sim.t, sim.out
        if t.terminated and t.completed:
            b = sim.best
            m = min(c["f"] for c in t.completed)
            out.check(b is not None and float(b.value) == m, "resume-best",
                      lambda: "best value returned %s, best completed %s" % (getattr(b, "value", None), m))
            hit = [c for c in t.completed if c["f"] == m and key(c["x"]) == key(b.params[0])] if b is not None else []
            out.check(bool(hit), "resume-best", "the best record is not one of the completed evaluations")
            out.ok("finished-resumed-runs") if t.resumes else None


# ------------------------------------------------------------------------------------------------ C24
class Sop(Base):
    """Centres, ranks and memory of the Pareto-centre strategy, re-derived from the completed evaluations."""

    SIG = 0.2

    @staticmethod
    def ranks(U, f):
        """1 for points dominated by no other in (value, minus distance to the nearest other point), and so on."""
        n = len(f)
        D = cdist(U, U)
        D[D == 0] = np.inf
        g = -D.min(axis=1)
        if n == 1:
            return np.ones(1)
        dom = (f[:, None] < f[None, :]) & (g[:, None] < g[None, :])
        r = np.full(n, np.inf)
        left = np.ones(n, dtype=bool)
        k = 1
        done = 0
        while left.any() and done < 100:
            front = left & ~dom[left].any(axis=0)
            r[front] = k
            done += front.sum()
            left &= ~front
            k += 1
        return r

    def table(self, sim):
        t, p = sim.t, sim.prob
        X = np.array([c["x"] for c in t.completed]).reshape(-1, p.dim)
        f = np.array([c["f"] for c in t.completed], dtype=float)
        return X, (X - p.lb) / (p.ub - p.lb), f

    def centers(self, sim):
        return [dict(i=int(c.index), p=None if c.new_point is None else np.array(c.new_point, dtype=float).ravel(), done=c.new_index is not None,
                     x=np.array(c.xc, dtype=float)) for c in sim.strategy.centers]

    def memory(self, sim):
        return [(float(e.sigma), int(e.nfail), int(e.ntabu)) for e in sim.strategy.evals]

    def start(self, sim):
        sim.t.st["sop"] = dict(mem=[], cen=[], ncomp=0, new=[], amb=False)

    def on(self, sim, ev):
        st = sim.t.st["sop"]
        if st["amb"]:
            return
        k = ev["kind"]
        if k in ("complete", "fail"):
            self.finished(sim, ev, st)
        elif k == "ask":
            self.asked(sim, ev, st)
        if k in ("complete", "fail", "ask", "reject", "accept"):
            st["cen"] = self.centers(sim)

    # -- memory
    def finished(self, sim, ev, st):
        t, out = sim.t, sim.out
        mem = st["mem"]  # expected memory
        info = ev["info"]
        upd = []
        if ev["kind"] == "complete":
            mem.append((self.SIG, 0, 0))
            if info["cls"].startswith("adapt"):
                hit = [c for c in st["cen"] if not c["done"] and c["p"] is not None and np.array_equal(c["p"], info["x"])]
                if len(hit) > 1:
                    st["amb"] = True
                    out.skip("two proposals at the same point")
                    return
                out.check(len(hit) == 1, "no-centre", lambda: "the completed adaptive point %s belongs to no centre" % info["x"])
                if not hit:
                    st["amb"] = True
                    return
                st["new"].append((hit[0]["i"], len(mem) - 1))
        if t.asynchronous:
            if st["new"]:
                upd, st["new"] = st["new"], []
        elif info["cls"].startswith("adapt") and not t.inflight and not t.retry and len(t.batch_pts) == t.batch:
            upd, st["new"] = st["new"], []
        if upd:
            X, U, f = self.table(sim)
            r = self.ranks(U, f)
            for ci, ni in upd:
                s, nf, nt = mem[ci]
                if r[ni] != 1:
                    mem[ci] = (s / 2.0, nf + 1, nt)
                    out.ok("centre-failures")
                else:
                    out.ok("centre-successes")
            for i, (s, nf, nt) in enumerate(mem):
                if nt >= 5:
                    mem[i] = (self.SIG, 0, 0)
                    out.ok("tabu-ended")
                elif nt > 0:
                    mem[i] = (s, nf, nt + 1)
            for ci, _ in upd:
                if mem[ci][1] > 3:
                    mem[ci] = (self.SIG, 0, 1)
                    out.ok("tabu-started")
            out.ok("memory-updates")
        got = self.memory(sim)
        if not out.check(len(got) == len(mem), "memory-size", lambda: "%d points in memory, %d completed" % (len(got), len(mem))):
            st["amb"] = True
            return
        bad = [i for i in range(len(mem)) if got[i][1:] != mem[i][1:] or abs(got[i][0] - mem[i][0]) > 1e-12]
        out.check(not bad, "memory", lambda: "after %s of %s (processed %s): memory of point %d is (radius, failures, tabu) %s, expected %s"
                  % (ev["kind"], info["cls"], upd, bad[0], got[bad[0]], mem[bad[0]]))
        for e, c in zip(sim.strategy.evals, t.completed):
            if not (np.array_equal(np.ravel(e.x), c["x"]) and float(e.fx) == c["f"]):
                out.fail("memory-point", "memory holds %s -> %r for the completed evaluation %s -> %r" % (e.x, e.fx, c["x"], c["f"]))
                break
        out.state("mem", tuple(sorted(m[1:] for m in mem if m[1:] != (0, 0))), t.asynchronous)
        if bad:
            st["amb"] = True

    # -- centres
    def asked(self, sim, ev, st):
        t, out, s = sim.t, sim.out, sim.spec
        if ev["result"] != "eval" or ev["cls"] != "adapt":
            return
        cen = self.centers(sim)
        q = [d for k, d in ev["spied"] if k == "predict"]
        if not q:
            if t.asynchronous:
                out.skip("adaptive proposal without model query")
            return
        X, U, f = self.table(sim)
        mem = st["mem"]
        n = len(f)
        kept = [c for c in st["cen"] if not c["done"]]
        ok = out.check([c["i"] for c in cen[: len(kept)]] == [c["i"] for c in kept] and len(cen) == s["ncenters"], "centre-list",
                       lambda: "centres %s, expected to keep %s and to have %d" % ([c["i"] for c in cen], [c["i"] for c in kept], s["ncenters"]))
        out.check(all(0 <= c["i"] < n and np.array_equal(c["x"], X[c["i"]]) for c in cen), "not-evaluated", "a centre is not an evaluated point")
        if not ok:
            return
        new = [c["i"] for c in cen[len(kept):]]
        used = set(c["i"] for c in kept)
        if new:
            self.chosen(sim, new, used, U, f, mem, n)
        # the proposals of this generation: every query belongs to a centre that was free before
        free = [c for c in cen if c["p"] is not None and not any(c["i"] == o["i"] and o["p"] is not None and np.array_equal(o["p"], c["p"]) for o in st["cen"] if not o["done"])]
        npts = 1 if t.asynchronous else t.batch
        if not out.check(len(free) == npts, "proposals", lambda: "%d new points of centres for %d proposals" % (len(free), npts)):
            return
        mine = [c for c in free if np.array_equal(c["p"], ev["x"])]
        out.check(len(mine) >= 1, "not-from-centre", lambda: "the proposal %s is not the new point of a centre" % ev["x"])
        out.ok("generations")
        q = joined(q, len(free))
        if q is not None:
            for c, d in zip(free, q):
                self.query(sim, c, d["X"], mem[c["i"]], X)
        dup = [c["i"] for c in cen if c["p"] is not None and not c["done"]]
        if len(dup) > 1:
            out.ok("several-in-flight")
        if n >= s["ncenters"] + 3 and len(set(dup)) == len(dup):
            out.ok("distinct-centres")
        out.state("gen", tuple(sorted(dup)), n, t.asynchronous, s["prob"]["fseed"])
        out.sample(dict(evaluated=n, centres=[c["i"] for c in cen], chosen=new, memory=[m for m in mem if m[1:] != (0, 0)][:4]))

    def chosen(self, sim, new, used, U, f, mem, n):
        out, p, s = sim.out, sim.prob, sim.spec
        n0 = s["design"]["n"]
        d_thresh = 1.0 - float(n - n0) / float(s["max_evals"] - n0)
        r = self.ranks(U, f)

        def keyof(i):
            if i in used:
                return (2, 0, 0)
            if mem[i][2] > 0:
                return (1, 0, 0)
            return (0, r[i], f[i])

        keys = [keyof(i) for i in range(n)]
        thr = [self.SIG * 0.5 ** mem[i][1] * d_thresh / math.sqrt(p.dim) for i in range(n)]

        def refused(i, S, slack):
            return any(np.linalg.norm(U[i] - U[j]) < thr[j] * (1 + slack) for j in S)

        best = set(np.flatnonzero(f == f.min()).tolist())
        out.ok("centre-updates")
        if not (best & used):
            out.check(new[0] in best, "best-not-centre",
                      lambda: "the best evaluated point %s (value %r, memory %s) is in no centre's use but %d (value %r) is chosen"
                      % (sorted(best), f.min(), [mem[b] for b in best], new[0], f[new[0]]))
            if any(mem[b][2] > 0 for b in best):
                out.ok("best-while-tabu")
        else:
            low = min(keys)
            out.check(keys[new[0]] == low or new[0] in best, "order", lambda: "first new centre %d has %s, %s was available" % (new[0], keys[new[0]], low))
        S = [new[0]]
        for j, c in enumerate(new[1:], 1):
            if c in S:
                left = [i for i in range(n) if i not in S and not refused(i, S, 1e-9)]
                out.ok("repeated-centres")
                out.check(not left, "repeated", lambda: "centre %d is used twice although %s satisfy the radius rule" % (c, left[:5]))
                continue
            out.check(not refused(c, S, -1e-9), "radius-rule", lambda: "centre %d is closer than the threshold to a centre chosen before (%s), thresholds %s"
                      % (c, S, [thr[i] for i in S]))
            better = [i for i in range(n) if i not in S and keys[i] < keys[c]]
            wrong = [i for i in better if not refused(i, S, 1e-9)]
            if better:
                out.ok("radius-refusals")
            out.check(not wrong, "order", lambda: "centre %d with (status, rank, value) %s chosen, %d with %s was available and far enough"
                      % (c, keys[c], wrong[0], keys[wrong[0]]))
            S.append(c)

    def query(self, sim, c, C, m, X):
        """The candidates are perturbations of the centre, drawn with its radius."""
        out, p = sim.out, sim.prob
        x = X[c["i"]]
        same = C == x
        pp = self.prob(sim)
        pp = pp + (1 - pp) ** p.dim / p.dim  # probability that a coordinate is perturbed
        out.check(same.any(axis=0).all() or pp ** len(C) > 1e-14, "not-around-centre",
                  lambda: "no candidate keeps coordinates of the centre %s: kept %s" % (x, same.mean(axis=0)))
        out.ok("queries")
        cont = [j for j in range(p.dim) if j not in set(map(int, p.int_var))]
        t, n0 = sim.t, sim.spec["design"]["n"]
        if p.dim > 1 and sim.spec["max_evals"] - n0 >= 2 and len(t.completed) + len(t.known) + len(t.inflight) >= n0 and pp < 1 - 1e-9:
            from scipy.stats import binomtest

            for j in cont:
                k = int((~same[:, j]).sum())
                r = binomtest(k, len(C), pp).pvalue
                out.check(r > 1e-13, "perturbation-probability",
                          lambda: "coordinate %d perturbed in %d of %d candidates, expected a fraction of %.4f (p-value %.2g)" % (j, k, len(C), pp, r))
                out.ok("frequency-tests")
                out.ok("freq-k", k)
                out.ok("freq-e", len(C) * pp)
                out.ok("freq-v", len(C) * pp * (1 - pp))
        u = pit(C[:, cont], x[cont], m[0] * (p.ub - p.lb)[cont], p.lb[cont], p.ub[cont])
        # the centre's radius, judged in aggregate per number of failures
        h = np.histogram(u, bins=8, range=(0, 1))[0]
        for b in range(8):
            out.ok("pit nfail=%d bin=%d" % (min(m[1], 4), b), int(h[b]))

    def prob(self, sim):
        t, s = sim.t, sim.spec
        n0 = s["design"]["n"]
        n = len(t.completed) + len(t.known) + len(t.inflight) - n0 + 1.0
        if n < 1:  # initial points were lost: the schedule starts at certainty
            return 1.0
        return max(min(20.0 / sim.prob.dim, 1) * (1 - np.log(n) / np.log(max(2, s["max_evals"] - n0))), 1.0 / sim.prob.dim)


def pit(C, x, sd, lb, ub):
    """Probability transform of the perturbed coordinates of C under the normal law around x truncated to the bounds."""
    C = np.asarray(C, dtype=float)
    a, b = norm.cdf((lb - x) / sd), norm.cdf((ub - x) / sd)
    u = (norm.cdf((C - x) / sd) - a) / (b - a)
    return u[C != x]


def uniform_bins(n, out, prefix, key, names, bins=8, least=200):
    """Chi-square test of histogram counters against the uniform law, error probability 1e-10."""
    from scipy.stats import chi2

    for name in names:
        h = np.array([n["%s%s bin=%d" % (prefix, name, b)] for b in range(bins)], dtype=float)
        N = h.sum()
        if N < least:
            continue
        x2 = ((h - N / bins) ** 2 / (N / bins)).sum()
        out.check(chi2.sf(x2, bins - 1) > 1e-10, key, lambda: "%s%s: histogram %s of %d probability transforms is not uniform (chi2 %.1f)"
                  % (prefix, name, h.astype(int).tolist(), N, x2))


# ------------------------------------------------------------------------------------------------ C30
def int_pit(rng, k, c, sd, lb, ub, law="normal", drop=None):
    """Randomised probability transform of rounded steps; drop: the value c cannot be told from 'not perturbed' and is left out."""
    k = np.asarray(k, dtype=float)
    lo, hi = math.ceil(lb), math.floor(ub)

    def F(x):
        if law == "uniform":
            return (np.clip(x, lb, ub) - lb) / (ub - lb)
        a, b = norm.cdf((lb - c) / sd), norm.cdf((ub - c) / sd)
        return (norm.cdf((np.clip(x, lb, ub) - c) / sd) - a) / (b - a)

    L = F(np.where(k <= lo, lb, k - 0.5))
    H = F(np.where(k >= hi, ub, k + 0.5))
    if drop is not None:
        dl, dh = F(lb if drop <= lo else drop - 0.5), F(ub if drop >= hi else drop + 0.5)
        m = dh - dl
        keep = k != drop
        L, H, k = L[keep], H[keep], k[keep]
        if m > 1 - 1e-6:
            return np.zeros(0)
        up = k > drop
        L, H = (L - m * up) / (1 - m), (H - m * up) / (1 - m)
    return np.clip(L + rng.random(len(L)) * (H - L), 0, 1)


def bins(out, prefix, u):
    h = np.histogram(u, bins=8, range=(0, 1))[0]
    for b in range(8):
        out.ok("%s bin=%d" % (prefix, b), int(h[b]))


def judge_candidates(out, rng, kind, C, x, radius, prob, subset, lb, ub, ints, tag, group):
    """C: candidate matrix around the incumbent x. Exact support checks, per-call goodness of fit at 1e-12, counters for the aggregate."""
    from scipy.stats import binomtest, kstest

    d = len(x)
    n = len(C)
    subset = list(subset)
    ints = set(int(i) for i in ints)
    for j in range(d):
        if j not in subset:
            if not out.check(np.all(C[:, j] == x[j]), "outside-subset", lambda: "%s: coordinate %d outside the subset %s was changed" % (tag, j, subset)):
                return
    slack = 1e-13 * (np.abs(lb) + np.abs(ub))
    out.check(np.all(C >= lb - slack) and np.all(C <= ub + slack), "bounds", lambda: "%s: candidates leave the bounds" % tag)
    out.check(all(np.all(C[:, j] == np.round(C[:, j])) for j in ints), "not-integral", lambda: "%s: non-integral candidates" % tag)
    out.ok("candidate-sets")
    out.ok("candidates", n)
    q = None
    ds = len(subset)
    if kind == "dycors":
        p = 1.0 if ds == 1 else min(max(prob, 0.0), 1.0) if prob == prob else 0.0
        q = p + (1 - p) ** ds / ds
        diff = C[:, subset] != x[subset]
        if not (ints & set(subset)):
            K = diff.sum(axis=1)
            out.check(np.all(K >= 1), "nothing-perturbed", lambda: "%s: a candidate equals the incumbent" % tag)
            if ds > 1:
                from scipy.stats import binom

                ks = np.arange(1, ds + 1)
                pm = binom.pmf(ks, ds, p)
                pm[0] += (1 - p) ** ds
                cdf = np.concatenate(([0], np.cumsum(pm)))
                u = cdf[K - 1] + rng.random(n) * (cdf[K] - cdf[K - 1]) if np.all(K >= 1) else np.zeros(0)
                bins(out, "count %s" % group, np.clip(u, 0, 1))
                out.ok("count-tests")
        if ds > 1 and q < 1 - 1e-9:
            for a, j in enumerate(subset):
                if j in ints:
                    continue
                k = int(diff[:, a].sum())
                r = binomtest(k, n, q).pvalue
                out.check(r > 1e-13, "perturbation-probability",
                          lambda: "%s: coordinate %d perturbed in %d of %d candidates, expected a fraction of %.4f (p-value %.2g)" % (tag, j, k, n, q, r))
                pos = "first" if a == 0 else ("last" if a == ds - 1 else "middle")
                out.ok("freq-k %s %s" % (group, pos), k)
                out.ok("freq-e %s %s" % (group, pos), n * q)
                out.ok("freq-v %s %s" % (group, pos), n * q * (1 - q))
                out.ok("frequency-tests")
    for a, j in enumerate(subset):
        if kind == "uniform":
            if j in ints:
                u = int_pit(rng, C[:, j], x[j], 1.0, lb[j], ub[j], law="uniform")
            else:
                u = (C[:, j] - lb[j]) / (ub[j] - lb[j])
        else:
            sd = radius * (ub[j] - lb[j])
            if j in ints:
                sd = max(sd, 1.0)
                u = int_pit(rng, C[:, j], x[j], sd, lb[j], ub[j], drop=x[j] if kind == "dycors" and q < 1 - 1e-12 else None)
            else:
                u = pit(C[:, j], x[j], sd, lb[j], ub[j])
                if kind == "srbf":
                    out.check(len(u) == n, "not-perturbed", lambda: "%s: coordinate %d kept in %d of %d candidates" % (tag, j, n - len(u), n))
        bins(out, "step %s %s" % (group, "int" if j in ints else "cont"), u)
        if len(u) >= 30:
            r = kstest(u, "uniform").pvalue
            out.ok("step-tests")
            out.check(r > 1e-12, "step-distribution", lambda: "%s: steps of coordinate %d (incumbent %r in [%r, %r], integer %s) do not follow the documented law with radius %r (p-value %.2g)"
                      % (tag, j, x[j], lb[j], ub[j], j in ints, radius, r))
    if n > 1 and not ints and len(subset) > 0 and kind != "dycors":
        out.check(len(np.unique(C, axis=0)) == n, "repeated-candidates", lambda: "%s: repeated candidates" % tag)


class CandidateLaw(Base):
    """C30 in whole runs: the candidates of every generation against the client-side incumbent."""

    def on_ask(self, sim, ev):
        t, out, s, p = sim.t, sim.out, sim.spec, sim.prob
        if ev["result"] != "eval" or ev["cls"] != "adapt" or s["strat"] not in ("srbf", "dycors"):
            return
        q = joined([d for k, d in ev["spied"] if k == "predict"], 1)
        if q is None:
            return
        X, f = t.data()
        f = f.ravel()
        best = np.flatnonzero(f == f.min())
        if len(best) > 1 and len(np.unique(X[best], axis=0)) > 1:
            out.ok("tied-incumbents")
            return
        x = X[best[0]]
        C = q[0]["X"]
        out.check(len(C) == s["num_cand"], "number-of-candidates", lambda: "%d candidates, %d requested" % (len(C), s["num_cand"]))
        prob = None
        if s["strat"] == "dycors":
            if t.known:
                return
            n0 = s["design"]["n"]
            n = len(t.completed) + len(t.inflight) - n0 + 1.0
            N = s["max_evals"] - n0
            if N < 2 or n < 1:
                out.ok("degenerate-probability")
                return
            prob = max(min(20.0 / p.dim, 1.0) * (1 - math.log(n) / math.log(N)), 1.0 / p.dim)
            out.state("prob", p.dim, int(n), N, t.run > 0)
        self.rng = getattr(self, "rng", None) or np.random.default_rng(s["aseed"])
        rad = float(sim.strategy.sampling_radius)
        out.ok("generations")
        judge_candidates(out, self.rng, s["strat"], C, x, rad, prob, range(p.dim), p.lb, p.ub, p.int_var,
                         "%s run %d, %d completed, %d in flight" % (s["strat"], t.run, len(t.completed), len(t.inflight)), "run-" + s["strat"] + ("-extra" if s.get("extra") else "-again" if t.run > 0 else "-pending" if t.inflight else ""))
        out.state(s["strat"], p.dim, len(X), len(t.inflight), rad, s["prob"]["fseed"])
