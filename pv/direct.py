"""Direct calls of the auxiliary searches (candidate_*, ei_ga, lcb_ga) with hostile data; every model query is recorded."""
import numpy as np
from scipy.spatial.distance import cdist

from . import mon, objs
from .sim import gen_problem


def model(rng, prob):
    from pySOT.surrogate import Surrogate

    r = np.random.default_rng(int(rng.integers(1 << 30)))
    w = prob.ub - prob.lb
    A, ph = r.normal(size=(4, prob.dim)) * 5, r.uniform(0, 6, 4)
    sc = float(10 ** r.uniform(-3, 3))
    flat = r.random() < 0.15

    class Model(Surrogate):
        def __init__(self):
            self.mu, self.sd = [], []

        def f(self, X):
            u = (X - prob.lb) / w
            return sc * (0 if flat else 1) * np.sin(u @ A.T + ph).sum(axis=1) + sc

        def g(self, X):
            u = (X - prob.lb) / w
            return sc * (0.02 + 0.3 * np.abs(np.sin(u @ A[::-1].T)).mean(axis=1))

        def predict(self, xx):
            X = np.atleast_2d(np.array(xx, dtype=float))
            y = self.f(X).reshape(-1, 1)
            self.mu.append((X, y.ravel().copy()))
            return y

        def predict_std(self, xx):
            X = np.atleast_2d(np.array(xx, dtype=float))
            y = self.g(X).reshape(-1, 1)
            self.sd.append((X, y.ravel().copy()))
            return y

        def predict_deriv(self, xx):
            raise NotImplementedError

        def _fit(self):
            pass

    return Model()


def data(rng, crowd, large=False):
    """A problem, evaluated points, pending points (often more of them), a starting incumbent. Crowded: on few distinct places."""
    dim = int(rng.choice([1, 2, 3, 4, 8, 12, 16, 20])) if large else int(rng.choice([1, 1, 2, 2, 3, 5]))
    ints = str(rng.choice(["none", "some", "all"]))
    pd = gen_problem(rng, dim=dim, ints=ints)
    if crowd:
        for j in range(dim):
            c = float(np.round(pd["lb"][j]))
            pd["lb"][j], pd["ub"][j] = (c, c + int(rng.integers(2, 6))) if j in pd["int_var"] else (c, c + float(rng.choice([2e-3, 6e-3, 2e-2, 1])))
    prob = objs.Prob(pd)

    def pts(n):
        X = prob.lb + rng.random((n, dim)) * (prob.ub - prob.lb)
        for j in prob.int_var:
            X[:, j] = np.clip(np.round(X[:, j]), np.ceil(prob.lb[j]), np.floor(prob.ub[j]))
        on = rng.random((n, dim)) < 0.1
        for j in range(dim):
            if j not in prob.int_var:
                X[on[:, j], j] = rng.choice([prob.lb[j], prob.ub[j]])
        return X

    n, k = int(rng.choice([1, 2, 5, 12, 30])), int(rng.choice([0, 1, 3, 8, 20]))
    if large:
        n, k = int(rng.integers(150, 600)), int(rng.choice([0, 10, 70]))
    X, P = pts(n), pts(k)
    f = rng.permutation(n).astype(float)
    if k and rng.random() < 0.6:  # pending close to the best point, where the next candidates come from
        b = X[int(np.argmin(f))]
        P = np.clip(b + rng.normal(size=P.shape) * 0.1 * (prob.ub - prob.lb), prob.lb, prob.ub)
        for j in prob.int_var:
            P[:, j] = np.clip(np.round(P[:, j]), np.ceil(prob.lb[j]), np.floor(prob.ub[j]))
    return prob, X, f, P


def feasible(out, prob, x, what):
    d = prob.d
    lb, ub = np.array(d["lb"]), np.array(d["ub"])
    out.check(x.shape == (d["dim"],) and bool(np.all(np.isfinite(x))), "malformed-point", lambda: "%s returned %s" % (what, x))
    out.check(bool(np.all(x >= lb) and np.all(x <= ub)), "out-of-bounds", lambda: "%s returned %s outside [%s, %s]" % (what, x.tolist(), lb.tolist(), ub.tolist()))
    out.check(all(float(x[i]).is_integer() for i in d["int_var"]), "not-integral", lambda: "%s returned %s, not integral in %s" % (what, x.tolist(), d["int_var"]))


def candidates(rng, crowd=False):
    """One candidate search; returns everything an oracle needs."""
    import pySOT.auxiliary_problems as ap

    large = bool(rng.random() < 0.06)
    prob, X, f, P = data(rng, crowd, large)
    dim = prob.dim
    kind = str(rng.choice(["srbf", "dycors", "uniform"]))
    m = model(rng, prob)
    npts = int(rng.choice([1, 1, 2, 3, 5, 8]))
    W = [float(v) for v in rng.choice([0.0, 0.3, 0.5, 0.8, 1.0], npts)]
    dtol = float(rng.choice([1e-3, 1e-3, 1e-2, 0.5, 0.0]))
    kw = dict(num_pts=npts, opt_prob=prob, surrogate=m, X=X, fX=f.reshape(-1, 1), weights=W, num_cand=int(rng.choice([20, 60, 150]) if not large else rng.choice([500, 1500, 4000])), dtol=dtol,
              Xpend=P if len(P) or rng.random() < 0.5 else None)
    if large and rng.random() < 0.5:
        del kw["num_cand"]
    if rng.random() < 0.5:
        kw["subset"] = [int(i) for i in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]
    if kind != "uniform":
        kw["sampling_radius"] = float(rng.choice([0.2, 0.05, 0.003]))
    if kind == "dycors":
        kw["prob_perturb"] = float(rng.choice([0.1, 0.5, 1.0]))
    R = np.asarray(dict(srbf=ap.candidate_srbf, dycors=ap.candidate_dycors, uniform=ap.candidate_uniform)[kind](**kw), dtype=float)
    tag = "candidate_%s(%d points, dim %d, ints %s, subset %s, %d evaluated, %d pending, dtol %g)" % (
        kind, npts, dim, prob.d["int_var"], kw.get("subset"), len(X), len(P), dtol)
    return dict(kind=kind, prob=prob, X=X, f=f, P=P, W=W, dtol=dtol, n=npts, R=np.atleast_2d(R), C=np.vstack([a for a, _ in m.mu]),
                y=np.concatenate([b for _, b in m.mu]), tag=tag)


def ga(rng, npts=None, crowd=False):
    """One EI or LCB search of several points, at a tolerance only some of the points of the batch can meet."""
    import pySOT.auxiliary_problems as ap

    prob, X, f, P = data(rng, crowd)
    kind = str(rng.choice(["ei", "lcb"]))
    npts = npts or int(rng.choice([1, 2, 3, 4]))
    m = model(rng, prob)
    f = m.f(X) + 0.05 * rng.normal(size=len(X))
    fr = float(rng.choice([0, 0.02, 0.2, 0.5]))
    dtol = fr * float((prob.ub - prob.lb).max())
    kw = dict(num_pts=npts, opt_prob=prob, surrogate=m, X=X, fX=f.reshape(-1, 1), Xpend=P if len(P) or rng.random() < 0.5 else None, dtol=dtol)
    kap = 2.0
    if kind == "lcb" and rng.random() < 0.5:
        kap = kw["kappa"] = float(rng.choice([0.0, 1.0, 3.0]))
    fn = ap.ei_ga if kind == "ei" else ap.lcb_ga
    default = bool(rng.random() < 0.5)  # no target at all

    def run(n, tol):
        """tol: the criterion (minimised) must reach it."""
        m.mu, m.sd = [], []
        np.random.seed(7)
        arg = {"ei_tol": -tol} if kind == "ei" else ({} if tol == 1e300 and default else {"lcb_target": tol})
        R = fn(**dict(kw, num_pts=n, **arg))
        return None if R is None else np.atleast_2d(np.asarray(R, dtype=float)), m.mu, m.sd

    def crit(A, mu, sd, R):
        v = -mon.ei_value(mu, sd, f.min()) if kind == "ei" else mu - kap * sd
        d = cdist(A, R).min(axis=1)
        return np.where(d < dtol, 0.0 if kind == "ei" else np.inf, v) if dtol > 0 else v

    tag = "%s_ga(%d points, dim %d, ints %s, %d evaluated, %d pending, dtol %g)" % (kind, npts, prob.dim, prob.d["int_var"], len(X), len(P), dtol)
    return dict(kind=kind, prob=prob, X=X, f=f, P=P, n=npts, dtol=dtol, run=run, crit=crit, tag=tag)


def joint(mu, sd):
    """All queries of a search, in order, however many calls they were made in: (points, means, deviations) or None."""
    if not mu or not sd:
        return None
    A, B = np.vstack([q[0] for q in mu]), np.vstack([q[0] for q in sd])
    if not np.array_equal(A, B):
        return None
    return A, np.concatenate([q[1] for q in mu]), np.concatenate([q[1] for q in sd])


def chunks(mu, sd, n):
    """The queries of each of the n searches, or None when they cannot be told apart."""
    j = joint(mu, sd)
    if j is None or len(j[0]) % n:
        return None
    k = len(j[0]) // n
    return [tuple(v[i * k:(i + 1) * k] for v in j) for i in range(n)]
