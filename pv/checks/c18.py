import numpy as np

from pySOT.surrogate import GPRegressor

from .. import sur
from ..simcheck import plain_cases

RULE = "distinct operation histories (surrogate type, sequence of add/predict/reset operations with their sizes) replayed on the list model"
NEED = {"adds": 1000, "predictions": 800, "resets": 80, "scaled-models": 100, "same-size-again": 30, "repeated-points": 200, "learned-models": 60}
CHUNK = 4
cases = plain_cases(1000, 5000)
FORMS = ["float", "int", "f64", "f32", "0d", "arr1", "arr11", "i64", "bool"]


def scalar(rng, v, form):
    """(argument, value that must be stored)."""
    if form == "int":
        return int(round(v)), float(int(round(v)))
    if form == "bool":
        return bool(v > 0), float(v > 0)
    if form == "f64":
        return np.float64(v), v
    if form == "f32":
        return np.float32(v), float(np.float32(v))
    if form == "i64":
        return np.int64(round(v)), float(round(v))
    if form == "0d":
        return np.array(v), v
    if form == "arr1":
        return np.array([v]), v
    if form == "arr11":
        return np.array([[v]]), v
    return v, v


class Recorder:
    def __init__(self):
        self.calls = []

    def __call__(self, f):
        self.calls.append(np.array(f))
        return f


def learned(rng, out, dim, lb, ub):
    """The default Gaussian process, which learns its kernel: refilled after a reset it predicts as a new one."""
    kw = dict(n_restarts_optimizer=int(rng.integers(0, 2)))
    m, sizes = GPRegressor(dim, lb, ub, **kw), []
    q = lb + rng.random((6, dim)) * (ub - lb)
    for r in range(int(rng.integers(2, 5))):
        X = sur.points(rng, lb, ub, int(rng.integers(4, 16)), 0.02)
        F = sur.values(rng, X, lb, ub)
        if rng.random() < 0.4:
            F = rng.standard_normal(F.shape) * 10.0 ** rng.uniform(-3, 3)
        if r:
            m.reset()
        first = int(rng.integers(1, len(X)))
        for a, b in ([(0, first), (first, len(X))] if rng.random() < 0.5 else [(0, len(X))]):
            m.add_points(X[a:b].copy(), F[a:b].copy())
        sizes.append(len(X))
        new = GPRegressor(dim, lb, ub, **kw)
        new.add_points(X.copy(), F.copy())
        k = int(rng.integers(1 << 30))
        got = []
        for g in (m, new):
            np.random.seed(k)
            got.append(np.column_stack((g.predict(q), g.predict_std(q))))
        d = np.abs(got[0] - got[1]).max()
        out.check(d <= 1e-5 * (np.abs(F).max() + np.ptp(F) + 1e-12), "not-all-data",
                  lambda: "a Gaussian process refilled after resets (data sets of %s points) predicts other than a new one, by %.3g" % (sizes, d))
        out.ok("learned-models")


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    dim, lb, ub = sur.domain(rng, int(rng.integers(1, 6)))
    kind = str(rng.choice(["rbf", "gp", "poly"], p=[0.5, 0.25, 0.25]))
    rec = Recorder()
    seed = int(rng.integers(1 << 30))
    fac, desc = sur.make(np.random.default_rng(seed), kind, dim, lb, ub, tr=rec)
    plain, _ = sur.make(np.random.default_rng(seed), kind, dim, lb, ub)
    m = fac()
    need = dim + 1 if desc.get("tail") == "linear" else 1
    X, F, hist = np.zeros((0, dim)), np.zeros((0, 1)), []
    fitted = 0  # number of points at the last prediction

    def same():
        out.check(np.array_equal(np.asarray(m.X), X) and np.asarray(m.X).shape == X.shape, "wrong-X",
                  lambda: "after %s the model holds %s points %s, expected %s" % (hist, m.num_pts, np.asarray(m.X)[-2:].tolist(), X[-2:].tolist()))
        out.check(np.array_equal(np.asarray(m.fX), F) and np.asarray(m.fX).shape == F.shape, "wrong-fX",
                  lambda: "after %s the model holds values %s, expected %s" % (hist, np.ravel(m.fX)[-3:], F.ravel()[-3:]))
        out.check(m.num_pts == len(X), "wrong-count", lambda: "num_pts %s, %d points added" % (m.num_pts, len(X)))

    same()
    big = (200 if rng.random() < 0.8 else 800) if rng.random() < 0.15 else 60
    pool = sur.points(rng, lb, ub, big, 0.04 if big == 60 else 0.002 if big == 200 else 0.0)
    vals = sur.values(rng, pool, lb, ub)
    if np.abs(vals).max() < 1e-2:
        vals = vals / np.abs(vals).max()
    nxt = again = 0
    q_all = lb + rng.random((5, dim)) * (ub - lb)
    for _ in range(int(rng.integers(4, 14))):
        op = str(rng.choice(["one", "block", "predict", "reset"], p=[0.34, 0.2, 0.36, 0.1]))
        if op == "predict" and len(X) < max(need, 1):
            op = "block"
        if again:
            op = "block"
        if op in ("one", "block") and nxt > big - 15:
            op = "predict"
        ncalls = len(rec.calls)
        if op == "one":
            form = FORMS[int(rng.integers(len(FORMS)))]
            a, v = scalar(rng, float(vals[nxt, 0]), form)
            x = pool[nxt].copy() if rng.random() < 0.6 else pool[nxt:nxt + 1].copy()
            m.add_points(x, a)
            X, F = np.vstack((X, pool[nxt])), np.vstack((F, v))
            nxt += 1
            hist.append("1" + form)
        elif op == "block":
            k = int(rng.integers(1, 6 if rng.random() < 0.8 else 31)) + (need if len(X) < need else 0)
            if big > 60 and rng.random() < 0.5:
                k = int(rng.integers(30, 90 if big == 200 else 330))
            k = again or k  # as many points as the last fit before the reset had
            k, again = min(k, big - nxt), 0
            fv = vals[nxt:nxt + k].copy()
            m.add_points(pool[nxt:nxt + k].copy(), fv if rng.random() < 0.5 else fv.ravel())
            X, F = np.vstack((X, pool[nxt:nxt + k])), np.vstack((F, vals[nxt:nxt + k]))
            nxt += k
            hist.append("b%d" % k)
        elif op == "reset":
            m.reset()
            X, F = X[:0], F[:0]
            if need <= fitted <= big - 40 and rng.random() < 0.6:
                again = fitted
                out.ok("same-size-again")
            fitted = 0
            nxt = int(rng.integers(0, 20))
            hist.append("R")
            out.ok("resets")
        if op in ("one", "block", "reset"):
            out.ok("adds")
            out.check(len(rec.calls) == ncalls, "refit-on-add", lambda: "the model was refitted while points were added (%s)" % hist)
            same()
            continue
        hist.append("p")
        q = sur.points(rng, lb, ub, int(rng.integers(1, 6)))
        if rng.random() < 0.3:
            q = np.vstack((q, X[:1]))
        nq = len(q)
        early = None  # another query may be the first one after new data
        if rng.random() < 0.4:
            if kind == "gp":
                early = np.array(m.predict_std(q))
            elif kind == "rbf":
                early = np.array(m.predict_deriv(q))
        p = np.array(m.predict(q))
        out.ok("predictions", nq)
        out.check(p.shape == (nq, 1), "shape", lambda: "%s prediction of shape %s for %d points" % (kind, p.shape, nq))
        if fitted != len(X):
            out.check(len(rec.calls) > ncalls and rec.calls[-1].size == len(X), "stale-fit",
                      lambda: "%d points, last fit used %s" % (len(X), rec.calls[-1].size if rec.calls else None))
        fitted = len(X)
        ref = plain()
        ref.add_points(X.copy(), F.copy())
        r = np.asarray(ref.predict(q))
        scale = np.abs(F).max() + 1e-12
        tol = 1e-5 * scale
        out.check(np.abs(p - r.reshape(p.shape)).max() <= tol, "not-all-data",
                  lambda: "%s after %s: predictions differ from a new model with the same %d points by %.3g"
                  % (desc, hist, len(X), np.abs(p.ravel() - r.ravel()).max()))
        if early is not None:
            late = np.asarray(ref.predict_std(q) if kind == "gp" else ref.predict_deriv(q))
            width = 1.0 if kind == "gp" else (ub - lb)
            wide = scale if kind == "gp" else max(scale, np.abs(late * width).max())
            out.ok("first-queries")
            out.check(np.abs((early - late) * width).max() <= 1e-3 * wide, "not-all-data",
                      lambda: "%s after %s: %s queried before any prediction differs from a new model by %.3g"
                      % (desc, hist, "standard deviation" if kind == "gp" else "derivative", np.abs((early - late) * width).max()))
        rows = np.vstack([np.asarray(m.predict(q[i] if rng.random() < 0.5 else q[i:i + 1])) for i in range(nq)])
        out.check(rows.shape == (nq, 1) and np.abs(rows - p).max() <= 1e-8 * scale, "grouping",
                  lambda: "%s predictions depend on the grouping of the queries: %s %s" % (kind, rows.ravel(), p.ravel()))
        if rng.random() < 0.04:
            B = lb + rng.random((4110, dim)) * (ub - lb)
            pick = np.unique(np.append(rng.integers(len(B), size=20), [0, len(B) - 1]))
            for fn in ["predict"] + dict(gp=["predict_std"], rbf=["predict_deriv"]).get(kind, []):
                f = getattr(m, fn)
                cols = dim if fn == "predict_deriv" else 1
                if cols > 1:  # slow
                    B, pick = B[:1030], pick[pick < 1030]
                big_q, few = np.asarray(f(B)), np.asarray(f(B[pick]))
                tol_q = 1e-6 * max(scale, np.abs(few).max())
                out.check(big_q.shape == (len(B), cols) and np.abs(big_q[pick] - few).max() <= tol_q, "grouping",
                          lambda: "%s.%s of %d points at once differs from that of few" % (kind, fn, len(B)))
                for _ in range(6):
                    k = sur.many(rng, len(B))
                    part = np.asarray(f(B[:k]))
                    out.check(part.shape == (k, cols) and np.abs(part - big_q[:k]).max() <= tol_q, "grouping",
                              lambda: "%s.%s of %d points gives %s values, or others than in a group of %d" % (kind, fn, k, part.shape, len(B)))
            out.ok("many-queries")
        out.check(np.array_equal(np.asarray(m.predict(q)), p), "not-repeatable", "a repeated prediction differs")
        if kind == "gp":
            s = np.array(m.predict_std(q))
            out.check(s.shape == (nq, 1), "shape", lambda: "standard deviation of shape %s" % (s.shape,))
            srow = np.vstack([np.asarray(m.predict_std(q[i])) for i in range(nq)])
            out.check(np.abs(s - srow).max() <= 1e-6 * scale, "grouping", "standard deviations depend on the grouping of the queries")
            out.check(np.abs(s - np.asarray(ref.predict_std(q))).max() <= 1e-4 * scale, "not-all-data",
                      "standard deviations differ from a new model with the same points")
        if kind == "rbf":
            g = np.asarray(m.predict_deriv(q))
            out.check(g.shape == (nq, dim), "shape", lambda: "derivative of shape %s" % (g.shape,))
        same()
        # axis scaling and shift of everything
        a, b = 10.0 ** rng.uniform(-2, 2, dim), rng.uniform(-5, 5, dim)
        fac2, _ = sur.make(np.random.default_rng(seed), kind, dim, a * lb + b, a * ub + b)
        m2 = fac2()
        m2.add_points(a * X + b, F.copy())
        p2 = np.asarray(m2.predict(a * q + b))
        out.ok("scaled-models")
        out.check(np.abs(p2.ravel() - p.ravel()).max() <= 1e-4 * scale, "not-equivariant",
                  lambda: "%s: predictions change by %.3g when data, queries and bounds are scaled together" % (desc, np.abs(p2.ravel() - p.ravel()).max()))
    if len(X) >= max(need, 1):  # repeated observations of known points are kept as they are
        k = int(rng.integers(1, 4))
        i = rng.integers(len(X), size=k)
        xs, fs = X[i].copy(), F[i] + (rng.standard_normal((k, 1)) if rng.random() < 0.7 else 0.0)
        if k == 1 and rng.random() < 0.7:
            m.add_points(xs[0].copy(), float(fs[0, 0]))
        else:
            m.add_points(xs.copy(), fs.copy())
        X, F = np.vstack((X, xs)), np.vstack((F, fs))
        hist.append("d%d" % k)
        out.ok("repeated-points", k)
        same()
        if kind == "poly":
            ref = plain()
            ref.add_points(X.copy(), F.copy())
            out.check(np.abs(np.asarray(m.predict(q_all)).ravel() - np.asarray(ref.predict(q_all)).ravel()).max() <= 1e-5 * (np.abs(F).max() + 1e-12), "not-all-data",
                      lambda: "%s after %s: predictions differ from a new model with the same points" % (desc, hist))
    if kind == "gp" and rng.random() < 0.25:
        learned(rng, out, dim, lb, ub)
    out.state(kind, dim, tuple(hist))
    out.sample(dict(model=desc, dim=dim, history=hist))
