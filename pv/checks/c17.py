import numpy as np

from .. import oracles, sur
from ..objs import KERNELS, TAILS
from ..simcheck import plain_cases

RULE = "distinct (kernel, tail, dimension, domain, number of query points, kind of query point) gradients compared"
NEED = {"gradients": 1500, "at-data-points": 110, "kernel-derivatives": 500, "tail-derivatives": 100, "many-queries": 10}
CHUNK = 8
cases = plain_cases(1300, 8000)


def fd(m, x, w):
    """Central differences of the model's own prediction, two step sizes, Richardson extrapolated."""
    d = len(x)
    G, err = np.zeros(d), np.zeros(d)
    for i in range(d):
        g = []
        for h in (2e-4, 1e-4):
            e = np.zeros(d)
            e[i] = h * w[i]
            a, b = np.asarray(m.predict(np.vstack((x + e, x - e)))).ravel()
            g.append((a - b) / (2 * h * w[i]))
        G[i] = (4 * g[1] - g[0]) / 3
        err[i] = abs(g[1] - g[0])
    return G, err


def functions(spec, out, rng):
    """Kernels and tails on their own."""
    for k in KERNELS:
        K = KERNELS[k]()
        shape = [(int(rng.integers(1, 6)), int(rng.integers(1, 6))), (int(rng.integers(1, 9)), 1), (1, 1)][int(rng.integers(3))]
        R = 10.0 ** rng.uniform(-3, 0.5, shape)
        if rng.random() < 0.3:
            R.flat[0] = 0.0
        R0 = R.copy()
        v, dv = np.asarray(K.eval(R)), np.asarray(K.deriv(R))
        out.check(np.array_equal(R, R0), "inputs-modified", lambda: "%s kernel changed the distances" % k)
        out.check(v.shape == R.shape and dv.shape == R.shape, "shape", "kernel values have another shape")
        h = 1e-5 * np.maximum(R0, 1e-3)
        num = (np.asarray(K.eval(R0 + h)) - np.asarray(K.eval(np.maximum(R0 - h, 0)))) / (h + np.minimum(h, R0))
        pos = R0 > 0
        out.ok("kernel-derivatives", R.size)
        out.check(np.allclose(v, oracles.phi(k, R0), rtol=1e-12, atol=1e-15), "kernel-value", lambda: "%s kernel values differ from the formula" % k)
        out.check(np.allclose(dv[pos], num[pos], rtol=1e-5, atol=1e-7), "kernel-derivative",
                  lambda: "%s kernel derivative %s, differences %s at %s" % (k, dv[pos][:4], num[pos][:4], R0[pos][:4]))
        out.check(np.allclose(dv, oracles.dphi(k, R0), rtol=1e-10, atol=1e-12), "kernel-derivative",
                  lambda: "%s kernel derivative differs from the formula at %s" % (k, R0.ravel()[:5]))
    d = int(rng.integers(1, 7))
    for t in TAILS:
        T = TAILS[t](d)
        x = rng.normal(size=(1, d))
        xin = x.copy() if rng.random() < 0.5 else x.ravel().copy()
        D = np.asarray(T.deriv(xin))
        P = np.asarray(T.eval(np.vstack((x, x + 1, 2 * x))))
        out.check(np.array_equal(np.ravel(xin), x.ravel()), "inputs-modified", "tail changed its input")
        out.check(P.shape == (3, T.dim_tail), "shape", lambda: "%s tail values of shape %s" % (t, P.shape))
        N = np.stack([(np.asarray(T.eval(x + 1e-4 * e)) - np.asarray(T.eval(x - 1e-4 * e))).ravel() / 2e-4 for e in np.eye(d)])
        out.ok("tail-derivatives")
        out.check((D.shape == N.shape and np.allclose(D, N, atol=1e-6)) or (D.shape == N.T.shape and np.allclose(D, N.T, atol=1e-6)),
                  "tail-derivative", lambda: "%s tail derivative %s, differences %s" % (t, D.tolist(), N.tolist()))


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    functions(spec, out, rng)
    dim, lb, ub = sur.domain(rng)
    fac, desc = sur.make(rng, "rbf", dim, lb, ub, eta=[None, 0.0, 1e-3][int(rng.integers(3))])
    k, t = desc["kernel"], desc["tail"]
    ntail = 1 if t == "constant" else dim + 1
    n = ntail + int(rng.integers(0, 25 if rng.random() < 0.9 else 120))
    X = sur.points(rng, lb, ub, n, 0.05)
    f = sur.values(rng, X, lb, ub)
    m = fac()
    o = oracles.RBF(k, t, lb, ub, X, f, m.eta)
    if not o.cond < 1e9:
        out.skip("ill-conditioned data")
        return
    first = ntail + int(rng.integers(0, n - ntail + 1))
    m.add_points(X[:first], f[:first])
    if first < n:
        if rng.random() < 0.5:
            m.predict(X[:1])
        m.add_points(X[first:], f[first:])
    w = ub - lb
    nq = int(rng.choice([1, 1, 2, 5])) if rng.random() < 0.94 else sur.many(rng, 1500)
    kinds, Q = [], []
    for _ in range(nq):
        kind = str(rng.choice(["inner", "inner", "data", "near", "bound"]))
        x = lb + rng.uniform(0.02, 0.98, dim) * w
        if kind == "data":
            x = X[rng.integers(n)].copy()
        elif kind == "near":
            x = X[rng.integers(n)] + 0.01 * w * rng.normal(size=dim)
        elif kind == "bound":
            i = rng.integers(dim)
            x[i] = [lb[i], ub[i]][int(rng.integers(2))]
        kinds.append(kind)
        Q.append(x)
    Q = np.array(Q)
    Qin = Q.copy() if nq > 1 or rng.random() < 0.5 else Q[0].copy()
    Q0 = Qin.copy()
    before = (m.X.copy(), m.fX.copy(), m.num_pts)
    order = rng.random() < 0.5
    p0 = np.array(m.predict(Q)) if order else None
    G = np.asarray(m.predict_deriv(Qin))
    out.check(np.array_equal(Qin, Q0), "inputs-modified", "predict_deriv changed its input")
    p1 = np.array(m.predict(Q))
    out.check(np.array_equal(Q, np.atleast_2d(Q0)), "inputs-modified", "predict changed its input")
    out.check(p0 is None or np.array_equal(p0, p1), "model-modified", "predictions change after a derivative query")
    out.check(np.array_equal(np.asarray(m.predict_deriv(Q)), G), "model-modified", "a second derivative query gives another result")
    out.check(np.array_equal(m.X, before[0]) and np.array_equal(m.fX, before[1]) and m.num_pts == before[2], "model-modified",
              "a query changed the data of the model")
    out.check(G.shape == (nq, dim), "shape", lambda: "derivative of shape %s for %d points in dimension %d" % (G.shape, nq, dim))
    GA = o.gradient(Q)
    gs = np.abs(GA * w).max() + o.scale
    if nq > 5:
        out.ok("many-queries")
    for i in range(nq) if nq <= 5 else sorted({0, nq - 1} | set(rng.integers(nq, size=10).tolist())):
        out.ok("gradients", dim)
        if kinds[i] == "data":
            out.ok("at-data-points")
        # scaled to the unit box
        ea = np.abs((G[i] - GA[i]) * w).max()
        rough = kinds[i] == "data" and k == "linear"  # kink: the difference of one-sided slopes is not the claim
        out.check(ea <= 1e-6 * gs + o.tol(1e3), "wrong-gradient",
                  lambda: "%s/%s dim %d at a %s point: reported %s, gradient of the interpolant %s" % (k, t, dim, kinds[i], G[i].tolist(), GA[i].tolist()))
        g, e = fd(m, Q[i], w)
        lim = 20 * np.abs(e * w).max() + 1e-5 * gs + 1e5 * o.tol()
        if kinds[i] in ("data", "near") and k != "cubic":
            lim += 0.01 * gs
        ef = np.abs((G[i] - g) * w).max()
        out.check(rough or ef <= lim, "wrong-gradient",
                  lambda: "%s/%s dim %d at a %s point: reported %s, differences of the prediction %s" % (k, t, dim, kinds[i], G[i].tolist(), g.tolist()))
        out.state(k, t, dim, round(float(np.log10(w.max() / w.min())), 1), nq, kinds[i])
    out.sample(dict(kernel=k, tail=t, dim=dim, range=w.tolist(), query=kinds, reported=G[0].tolist(), differences=g.tolist()))
