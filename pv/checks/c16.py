import numpy as np

from .. import oracles, sur
from ..objs import KERNELS, TAILS
from ..simcheck import plain_cases

RULE = "distinct (kernel, tail, dimension, grouping of additions, positions of predictions, regularisation) fitting histories compared"
NEED = {"predictions": 2000, "reproduced-data": 100, "polynomials": 60, "custom-objects": 40, "after-reset": 30}
CHUNK = 8
cases = plain_cases(2600, 15000)


def run_case(spec, out):
    from pySOT.surrogate import RBFInterpolant

    rng = np.random.default_rng(spec["seed"])
    dim, lb, ub = sur.domain(rng)
    k, t = sur.PAIRS[int(rng.integers(len(sur.PAIRS)))]
    ntail = 1 if t == "constant" else dim + 1
    n = ntail + int(rng.integers(0, 35 if rng.random() < 0.88 else 150))
    eta = [None, 0.0, 1e-10, 1e-3, 0.5][int(rng.integers(5))]
    sep = float(rng.choice([0.03, 0.05, 0.0], p=[0.45, 0.45, 0.1]))
    X = sur.points(rng, lb, ub, n, sep)
    poly = rng.random() < 0.25
    if poly:
        a, b = rng.normal() * 5, rng.normal(size=dim) * (t == "linear")
        lin = lambda Z: (a + ((Z - lb) / (ub - lb)) @ b).reshape(-1, 1)
        f = lin(X)
    else:
        f = sur.values(rng, X, lb, ub)
    kern, tail = KERNELS[k](), TAILS[t](dim)
    kw = dict(dim=dim, lb=lb.copy(), ub=ub.copy())
    if eta is not None:
        kw["eta"] = eta
    # any subset of kernel and tail may be given; the default is cubic with a linear tail
    default = (k, t) == ("cubic", "linear")
    if not (default and rng.random() < 0.5):
        kw["kernel"] = kern
        out.ok("custom-objects")
    if not (t == "linear" and rng.random() < 0.5):
        kw["tail"] = tail
    m = RBFInterpolant(**kw)
    if "kernel" in kw:
        out.check(m.kernel is kern, "kernel-replaced", "the model does not use the kernel it was given")
    if "tail" in kw:
        out.check(m.tail is tail, "tail-replaced", "the model does not use the tail it was given")
    if eta is not None:
        out.check(m.eta == eta, "eta-replaced", lambda: "eta %r instead of %r" % (m.eta, eta))
    if rng.random() < 0.3:  # dirty start, then reset
        Z = sur.points(rng, lb, ub, ntail + 4, 0.02)
        m.add_points(Z, rng.normal(size=(len(Z), 1)))
        if rng.random() < 0.7:
            try:
                m.predict(Z[:2])
            except Exception:
                pass
        m.reset()
        out.ok("after-reset")
    groups = sur.chunks(rng, n, ntail)
    done, hist = 0, []
    Q = np.vstack((sur.points(rng, lb, ub, 6), X[:2]))
    if rng.random() < 0.2:  # the interpolant is not confined to the box
        Q = np.vstack((Q, lb + rng.uniform(-0.3, 1.3, (4, dim)) * (ub - lb)))
        out.ok("outside-queries")
    if rng.random() < 0.03:
        Q = np.vstack((Q, lb + rng.random((sur.many(rng, 4200) - len(Q), dim)) * (ub - lb)))
        out.ok("many-queries")
    for g in groups:
        xs, fs = X[done:done + g], f[done:done + g]
        if g == 1 and rng.random() < 0.7:
            m.add_points(xs[0], float(fs[0, 0]))
        else:
            m.add_points(xs, fs if rng.random() < 0.5 else fs.ravel())
        done += g
        last = done == n
        if last or rng.random() < 0.5:
            r = rng.random()
            o = oracles.RBF(k, t, lb, ub, X[:done], f[:done], eta if eta is not None else m.eta)
            hist.append("p")
            if not np.isfinite(o.cond) or o.cond > 1e12:
                out.skip("ill-conditioned data")
                try:
                    m.predict(Q)
                except Exception:
                    return
                continue
            if r < 0.2 and not last:
                m.predict_deriv(Q[:1])
                continue
            p = np.asarray(m.predict(Q))
            tol = o.tol(20 if len(groups) > 1 else 1)
            out.check(p.shape == (len(Q), 1), "shape", lambda: "prediction of shape %s" % (p.shape,))
            q = o.predict(Q)
            out.ok("predictions", len(Q))
            e = np.abs(p.ravel() - q).max()
            out.check(e <= tol, "wrong-prediction",
                      lambda: "%s/%s dim %d eta %s groups %s: predictions differ from the interpolation system by %.3g (tolerance %.3g)"
                      % (k, t, dim, eta, groups, e, tol))
            if eta in (0.0, 1e-10):
                i = rng.integers(done, size=min(done, 5))
                pd = np.asarray(m.predict(X[i])).ravel()
                lim = tol + (eta or 0) * np.abs(o.c).max() * 1.01
                out.ok("reproduced-data", len(i))
                out.check(np.abs(pd - f[i, 0]).max() <= lim, "data-not-reproduced",
                          lambda: "data off by %.3g (tolerance %.3g)" % (np.abs(pd - f[i, 0]).max(), lim))
            if poly:
                out.ok("polynomials")
                e2 = np.abs(p - lin(Q)).max()
                out.check(e2 <= tol + 1e-9 * o.scale, "polynomial-not-reproduced",
                          lambda: "polynomial of the tail off by %.3g (tolerance %.3g)" % (e2, tol))
        else:
            hist.append("-")
    out.state(k, t, dim, eta, tuple(groups), "".join(hist))
    out.sample(dict(kernel=k, tail=t, dim=dim, points=n, eta=eta, groups=groups, predicted="".join(hist)))
