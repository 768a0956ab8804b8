import numpy as np

from .. import oracles, sur
from ..simcheck import plain_cases

RULE = "distinct (model, kernel or degree, dimension, number of points, transformation, staged additions) fits compared with the oracle"
NEED = {"gp-models": 120, "gp-fitted-hyperparameters": 6, "poly-models": 120, "predictions": 2000, "group-sizes": 60}
CHUNK = 4
cases = plain_cases(1600, 6000)


def kernels(rng, dim):
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, Matern, RationalQuadratic, WhiteKernel

    ls = rng.uniform(0.2, 1.0, dim)
    k = int(rng.integers(4))
    base = [lambda: RBF(ls), lambda: Matern(ls, nu=2.5), lambda: Matern(ls, nu=1.5), lambda: RationalQuadratic(0.5, 1.0)][k]()
    c, noise = float(rng.choice([0.5, 1.0, 3.0])), float(rng.choice([1e-4, 1e-3, 1e-2]))
    return ConstantKernel(c) * base + WhiteKernel(noise), "%d/%g/%g" % (k, c, noise)


def run_case(spec, out):
    from sklearn.gaussian_process import GaussianProcessRegressor

    from pySOT.surrogate import GPRegressor, PolyRegressor

    rng = np.random.default_rng(spec["seed"])
    dim, lb, ub = sur.domain(rng, int(rng.integers(1, 6)))
    n = int(rng.integers(2, 30 if rng.random() < 0.9 else 260))
    X = sur.points(rng, lb, ub, n, 0.02)
    f = sur.values(rng, X, lb, ub)
    if rng.random() < 0.05:
        f[:] = 3.5
    tr = [None, oracles.capped, lambda v: np.arctan(v), lambda v: 2 * v - 3][int(rng.integers(4))]
    g = f if tr is None else np.asarray(tr(f.copy())).reshape(-1, 1)
    Q = np.vstack((sur.points(rng, lb, ub, 7), X[:2], lb + 1.2 * (ub - lb)))
    if rng.random() < 0.03:
        Q = np.vstack((Q, lb + rng.random((sur.many(rng, 4200) - len(Q), dim)) * (ub - lb)))
    if rng.random() < 0.5:
        fitted = rng.random() < 0.08
        if fitted:
            m, kn = GPRegressor(dim=dim, lb=lb, ub=ub, output_transformation=tr, n_restarts_optimizer=1), "default"
            out.ok("gp-fitted-hyperparameters")
        else:
            k, kn = kernels(rng, dim)
            alpha = float(rng.choice([1e-10, 1e-6]))
            gp = GaussianProcessRegressor(kernel=k, optimizer=None, alpha=alpha)
            m = GPRegressor(dim=dim, lb=lb, ub=ub, output_transformation=tr, gp=gp)
            out.check(m.model is gp, "model-replaced", "the model does not use the regressor it was given")
        what, kind = "gp", kn
        out.ok("gp-models")
    else:
        deg = int(rng.integers(1, 5 if dim < 4 else 4))
        m = PolyRegressor(dim=dim, lb=lb, ub=ub, output_transformation=tr, degree=deg)
        what, kind, fitted = "poly", deg, False
        out.ok("poly-models")
    staged = rng.random() < 0.4
    if staged:
        j = int(rng.integers(1, n))
        m.add_points(X[:j], f[:j])
        if not fitted and j > 1:
            m.predict(Q[:1])
        m.add_points(X[j:], f[j:])
    else:
        m.add_points(X, f)
    mode = int(rng.integers(2))
    if what == "gp":
        if mode:
            s, p = np.asarray(m.predict_std(Q)), np.asarray(m.predict(Q))
        else:
            p, s = np.asarray(m.predict(Q)), np.asarray(m.predict_std(Q))
        one = np.asarray(m.predict(Q[0]))
        sone = np.asarray(m.predict_std(Q[0]))
        out.check(one.shape == (1, 1) and sone.shape == (1, 1), "shape", lambda: "one point gives shapes %s, %s" % (one.shape, sone.shape))
        kern = m.model.kernel_ if fitted else k
        o = oracles.GP(kern, lb, ub, X, g, 1e-10 if fitted else alpha)
        out.check(s.shape == (len(Q), 1), "shape", lambda: "standard deviation of shape %s" % (s.shape,))
        es = np.abs(s.ravel() ** 2 - o.std(Q) ** 2).max() / o.sd ** 2
        lim = (1e-13 * o.cond + 1e-8) * max(1.0, float(np.max(kern.diag(o.U))))
        out.check(es <= lim and np.all(s >= 0), "wrong-std",
                  lambda: "variance off by %.3g of that of the data (tolerance %.3g, kernel %s)" % (es, lim, kern))
    else:
        p = np.asarray(m.predict(Q))
        one = np.asarray(m.predict(Q[0]))
        out.check(one.shape == (1, 1), "shape", lambda: "one point gives shape %s" % (one.shape,))
        o = oracles.Ridge(deg, lb, ub, X, g)
    out.check(p.shape == (len(Q), 1), "shape", lambda: "prediction of shape %s" % (p.shape,))
    q = o.predict(Q)
    scale = np.abs(g - g.mean()).max() + 1e-6 + 1e-7 * np.abs(g).max()
    e = np.abs(p.ravel() - q).max()
    out.ok("predictions", len(Q))
    out.check(e <= 1e-5 * scale, "wrong-prediction",
              lambda: "%s(%s) dim %d n %d: predictions off by %.3g (spread of the data %.3g)" % (what, kind, dim, n, e, scale))
    if rng.random() < 0.12:  # the number of queries is without influence
        B = lb + rng.random((2060, dim)) * (ub - lb)
        for fn in ["predict", "predict_std"] if what == "gp" else ["predict"]:
            whole = np.asarray(getattr(m, fn)(B))
            for _ in range(5):
                j = sur.many(rng, len(B))
                part = np.asarray(getattr(m, fn)(B[-j:]))
                out.check(part.shape == (j, 1) and whole.shape == (len(B), 1) and np.abs(part - whole[-j:]).max() <= 1e-6 * scale, "shape",
                          lambda: "%s.%s of %d points gives shape %s, or other values than for %d points" % (what, fn, j, part.shape, len(B)))
        out.ok("group-sizes")
    out.state(what, kind, dim, n, tr is None, staged)
    out.sample(dict(model=what, detail=str(kind), dim=dim, points=n, largest_difference=float(e)))
