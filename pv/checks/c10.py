import numpy as np
from scipy.integrate import quad
from scipy.stats import norm

from .. import direct as dr
from .. import objs
from ..mon import Acquisition
from ..sim import gen_spec
from ..simcheck import run_sim

RULE = "distinct (strategy, evaluated, pending, batch, problem) searches recomputed, and distinct direct criterion evaluations"
NEED = {"generations": 100, "direct-values": 630, "certain-values": 30, "give-ups": 5, "ga-batches": 30, "ga-nothing-proposed": 30}


def cases(tier, seed):
    n = 70 if tier == "quick" else 900
    m = 60 if tier == "quick" else 800
    g = 60 if tier == "quick" else 900
    return [dict(mode="run") for _ in range(n)] + [dict(mode="again") for _ in range(n // 3)] + [dict(mode="thresh") for _ in range(n // 2)] + [dict(mode="direct") for _ in range(m)] + [dict(mode="ga") for _ in range(g)]


def make(rng, spec):
    st = str(rng.choice(["ei", "lcb"]))
    if spec["mode"] == "thresh":
        # the first run converges at once on values spread far wider than those of the later runs; default improvement threshold
        s = gen_spec(rng, strat=st, fkind="shrink", dim=int(rng.choice([1, 2, 3])), faults="adapt", order="random", restarts=True,
                     workers=int(rng.choice([1, 2, 3])), batch=int(rng.choice([1, 2])), ints="some", extras=False,
                     budget=lambda r, n0: n0 + int(r.integers(3, 12)))
        s["prob"]["jump"] = s["design"]["n"]
        s["surrogate"] = dict(kind="cheap", amps=[float(10 ** rng.uniform(-5, 1)), float(10 ** rng.uniform(-5, 1)), 0.0, float(10 ** rng.uniform(-5, 1))])
        s["tol"], s["dtol"] = None, None
        if rng.random() < 0.5:  # the points of the first run stay in flight during the second one
            q = s["prob"]
            s["adv"]["order"], s["asynchronous"], s["W"] = "old", True, int(rng.integers(3, 7))
            s["dtol"] = float(rng.choice([0.05, 0.15]) * max(b - a for a, b in zip(q["lb"], q["ub"])))
        return s
    if spec["mode"] == "again":
        # the first run converges at once on nearly equal values; the runs after it see far worse and varied ones
        s = gen_spec(rng, strat=st, fkind="jump", dim=int(rng.choice([1, 2, 3])), faults="adapt", order="random", restarts=True,
                     workers=int(rng.choice([1, 2])), batch=int(rng.choice([1, 2])), ints="some", extras=False,
                     budget=lambda r, n0: n0 + int(r.integers(3, 8)))
        s["prob"]["jump"] = s["design"]["n"]
        s["tol"] = float(rng.choice([0.05, 0.3]))
        s["kappa"] = [None, 1.0][int(rng.integers(2))]
        return s
    s = gen_spec(rng, strat=st, fkind=str(rng.choice(["func", "func", "script", "offset", "neg", "drift", "huge", "tiny"])),
                 dim=int(rng.choice([1, 2, 3, 4])), heavy_dim=True, faults="adapt", order="random", workers=int(rng.choice([1, 2, 4])),
                 batch=int(rng.choice([1, 2, 3])), ints="some")
    s["tol"] = [None, None, 1e-3, 0.3, 0.0][int(rng.integers(5))]
    p = s["prob"]
    f = [None, None, 0.0, 0.02, 0.1][int(rng.integers(5))]
    s["dtol"] = None if f is None else float(f * max(b - a for a, b in zip(p["lb"], p["ub"])))
    if st == "lcb":
        s["kappa"] = [None, 0.0, 1.0, 3.0][int(rng.integers(4))]
    return s


class FakeModel:
    """Gaussian predictions chosen by the harness."""

    def __init__(self, rng, dim):
        self.a, self.b = rng.normal(size=dim), rng.uniform(0.2, 3, size=dim)
        self.sc = 10 ** rng.uniform(-3, 3)
        self.sd = 10 ** rng.uniform(-2, 1)

    certain = False  # no uncertainty at some points

    def predict(self, X):
        return (self.sc * (np.sin(X @ self.a) + 0.1 * X @ self.b)).reshape(-1, 1)

    def predict_std(self, X):
        s = (self.sc * self.sd * (0.05 + np.abs(np.cos(X @ self.b)))).reshape(-1, 1)
        return np.where(X[:, :1] > 0.5, 0.0, s) if self.certain else s


def direct(spec, out):
    from pySOT.auxiliary_problems import ei_merit, lcb_merit

    rng = np.random.default_rng(spec["seed"])
    d = int(rng.integers(1, 5))
    m = FakeModel(rng, d)
    m.certain = bool(rng.random() < 0.25)
    n = int(rng.integers(1, 40))
    XX = rng.uniform(-2, 2, (int(rng.integers(1, 20)), d))
    fX = m.sc * rng.normal(size=(int(rng.integers(1, 15)), 1))
    X = rng.uniform(-2, 2, (n, d))
    if n > 3:
        X[: n // 4] = XX[rng.integers(len(XX), size=n // 4)] + rng.choice([0, 1e-3, 0.1]) * rng.normal(size=(n // 4, d))
    dtol = float(rng.choice([0, 0.05, 0.3, 1.0]))
    exact = rng.random() < 0.3  # on a lattice, where a distance can equal the tolerance
    if exact:
        XX, X = rng.integers(-2, 3, XX.shape).astype(float), rng.integers(-3, 4, X.shape).astype(float)
        dtol = float(rng.choice([0, 1, 2]))
    kappa = float(rng.choice([0, 0.5, 2, 4]))
    fb = fX.min()
    D = np.sqrt(((X[:, None, :] - XX[None, :, :]) ** 2).sum(axis=2)).min(axis=1)
    mu, sd = m.predict(X).ravel(), m.predict_std(X).ravel()
    X0, f0, XX0 = X.copy(), fX.copy(), XX.copy()
    ei = np.asarray(ei_merit(X=X, surrogate=m, fX=fX, XX=XX, dtol=dtol))
    kw = {} if rng.random() < 0.3 else dict(kappa=kappa)
    kap = kw.get("kappa", 2.0)
    lcb = np.asarray(lcb_merit(X=X, surrogate=m, fX=fX, XX=XX, dtol=dtol, **kw))
    out.check(np.array_equal(X, X0) and np.array_equal(fX, f0) and np.array_equal(XX, XX0), "inputs-modified", "inputs modified")
    out.check(ei.size == n and lcb.size == n, "shape", lambda: "sizes %s %s for %d points" % (ei.shape, lcb.shape, n))
    ei, lcb = ei.ravel(), lcb.ravel()
    for i in range(n):
        z = (fb - mu[i]) / sd[i] if sd[i] > 0 else 0.0
        near = dtol > 0 and D[i] < dtol
        if dtol > 0 and abs(D[i] - dtol) < 1e-12:
            if not (exact and D[i] == dtol):
                continue
            out.ok("at-the-tolerance")
        if near:
            e, l = 0.0, np.inf
        else:
            l = mu[i] - kap * sd[i]
            # E[max(fb - Y, 0)], integrated numerically, not with the closed formula
            e = 0.0
            if sd[i] == 0:
                e = max(fb - mu[i], 0.0)
                out.ok("certain-values")
            elif z > -38:
                e = sd[i] * (sum(quad(norm.cdf, a, min(b, z))[0] for a, b in ((-38, -8), (-8, 0), (0, 8)) if z > a) + max(0.0, z - 8))
        out.ok("direct-values")
        out.check(abs(ei[i] - e) <= (1e-6 * sd[i] * max(1, abs(z)) if sd[i] > 0 else 1e-12 * abs(fb - mu[i])), "ei-value",
                  lambda: "EI %.12g, expectation %.12g (mu %g sd %g best %g dist %g dtol %g)" % (ei[i], e, mu[i], sd[i], fb, D[i], dtol))
        out.check(lcb[i] == l or abs(lcb[i] - l) <= 1e-9 * max(abs(mu[i]), sd[i]), "lcb-value",
                  lambda: "LCB %.12g instead of %.12g (dist %g dtol %g)" % (lcb[i], l, D[i], dtol))
    out.state(d, n, dtol, kap, round(float(fb), 6))
    out.sample(dict(direct=True, n=n, dtol=dtol, kappa=kap, first_ei=float(ei[0]), first_lcb=float(lcb[0])))


def ga(spec, out):
    """A batch search at tolerances that all, some or none of its points meet."""
    rng = np.random.default_rng(spec["seed"])
    g = dr.ga(rng)
    R, mu, sd = g["run"](g["n"], 1e300)
    ch = dr.chunks(mu, sd, g["n"])
    if R is None or ch is None:
        out.skip("searches of the batch cannot be told apart")
        return

    def values(R, ch):
        S, vals = np.vstack((g["X"], g["P"])), []
        for x, (A, a, b) in zip(R, ch):
            v = g["crit"](A, a, b, S)
            hit = (A == x).all(axis=1)
            out.check(bool(hit.any()), "not-best", lambda: "%s: a returned point was not examined" % g["tag"])
            if not hit.any():
                return None
            best = v.min()
            tol = 1e-9 * max(abs(best), np.ptp(a), 1e-300) if np.isfinite(best) else 0
            out.check(v[hit].min() <= best + tol, "not-best",
                      lambda: "%s: criterion %.9g at the returned point, %.9g at another examined point" % (g["tag"], v[hit].min(), best))
            vals.append(float(v[hit].min()))
            S = np.vstack((S, x[None, :]))
        return vals

    vals = values(R, ch)
    out.ok("ga-batches")
    if vals is None or not np.all(np.isfinite(vals)):
        return
    srt = sorted(set(vals))
    gaps = [(a, b) for a, b in zip(srt, srt[1:]) if b - a > 1e-6 * (abs(a) + abs(b))]
    tols = [0.5 * (a + b) for a, b in gaps] + [srt[0] - 0.1 * abs(srt[0]) - 1e-6 * (srt[0] == 0), srt[-1] + 0.1 * abs(srt[-1])]
    for tol in tols:
        R2, mu2, sd2 = g["run"](g["n"], tol)
        if R2 is not None:
            out.ok("ga-proposed")
            ch2 = dr.chunks(mu2, sd2, g["n"])
            v2 = values(R2, ch2) if ch2 else None
            if v2:
                bad = [v for v in v2 if v > tol + 1e-9 * abs(tol)]
                out.check(not bad, "misses-tolerance", lambda: "%s: proposed points with criteria %s, tolerance %.9g" % (g["tag"], v2, tol))
        else:
            out.ok("ga-nothing-proposed")
            # the points of a batch that was given up are unknown; one search of the same kind decides for one point
            j2 = dr.joint(mu2, sd2)
            if j2 is None:
                out.skip("searches of the batch cannot be told apart")
            elif g["n"] == 1:
                best = g["crit"](*j2, np.vstack((g["X"], g["P"]))).min()
                out.check(best >= tol - 1e-9 * abs(tol), "premature-convergence", lambda: "%s: nothing proposed although %.9g meets %.9g" % (g["tag"], best, tol))
            else:
                # the first search that failed ended the batch
                k = len(ch[0][0])
                if len(j2[0]) % k == 0:
                    S = np.vstack((g["X"], g["P"]))
                    for i in range(len(j2[0]) // k - 1):
                        Aj, aj, bj = (v[i * k:(i + 1) * k] for v in j2)
                        S = np.vstack((S, Aj[int(np.argmin(g["crit"](Aj, aj, bj, S)))][None, :]))
                    A, a, b = (v[-k:] for v in j2)
                    best = g["crit"](A, a, b, S).min()
                    allb = min(g["crit"](np.vstack([q[0] for q in mu2]), np.concatenate([q[1] for q in mu2]), np.concatenate([q[1] for q in sd2]), S).min(), best)
                    out.check(best >= tol - 1e-9 * abs(tol) or allb >= tol - 1e-9 * abs(tol), "premature-convergence",
                              lambda: "%s: gave up a batch although the last search found %.9g for %.9g" % (g["tag"], best, tol))
    out.state("ga", g["tag"])


def run_case(spec, out):
    if spec["mode"] == "ga":
        return ga(spec, out)
    if spec["mode"] == "direct":
        return direct(spec, out)
    run_sim(spec, out, make, [Acquisition()])
