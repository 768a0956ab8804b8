"""Random data, domains and surrogates for the model checks."""
import numpy as np
from pySOT.surrogate import GPRegressor, PolyRegressor, RBFInterpolant

from .objs import KERNELS, TAILS, make_gp_model
from .sim import gen_bounds

PAIRS = [("cubic", "linear"), ("tps", "linear"), ("linear", "constant"), ("linear", "linear")]


def domain(rng, dim=None):
    dim = int(rng.integers(1, 7)) if dim is None else dim
    lb, ub = gen_bounds(rng, dim, str(rng.choice(["unit", "sym", "aniso", "neg", "tight"])))
    return dim, lb, ub


def points(rng, lb, ub, n, sep=0.0):
    """n points, at least sep apart in the unit box (best effort), sometimes on the boundary."""
    d = len(lb)
    U = []
    tries = 0
    while len(U) < n:
        u = rng.random(d)
        if rng.random() < 0.1:
            i = rng.integers(d)
            u[i] = float(rng.integers(2))
        tries += 1
        if all(np.sqrt(((u - v) ** 2).sum()) >= sep for v in U) or tries > 200 * n:
            U.append(u)
    U = np.array(U).reshape(n, d)
    return lb + U * (ub - lb)


def values(rng, X, lb, ub):
    U = (X - lb) / (ub - lb)
    a = rng.normal(size=U.shape[1])
    k = int(rng.integers(5))
    f = np.sin(3 * U @ a) + (U ** 2).sum(axis=1)
    if k == 1:
        f = rng.normal(size=len(U))
    if k == 2:
        f = 1000 + 300 * f
    if k == 3:
        f = 1e-4 * f
    if k == 4:
        f = np.round(3 * f) / 3
    return f.reshape(-1, 1)


def make(rng, kind, dim, lb, ub, tr=None, eta=None, degree=None, pair=None):
    """(fresh-surrogate factory, description)."""
    if kind == "rbf":
        k, t = pair or PAIRS[int(rng.integers(len(PAIRS)))]
        kw = {} if eta is None else dict(eta=eta)
        return (lambda: RBFInterpolant(dim=dim, lb=lb, ub=ub, kernel=KERNELS[k](), tail=TAILS[t](dim), output_transformation=tr, **kw),
                dict(kind=kind, kernel=k, tail=t))
    if kind == "gp":
        ls = float(rng.choice([0.3, 0.6, 1.0]))
        return lambda: GPRegressor(dim=dim, lb=lb, ub=ub, gp=make_gp_model(dim, ls), output_transformation=tr), dict(kind=kind, ls=ls)
    deg = degree or int(rng.integers(1, 4))
    return lambda: PolyRegressor(dim=dim, lb=lb, ub=ub, degree=deg, output_transformation=tr), dict(kind=kind, degree=deg)


def chunks(rng, n, first):
    """Random grouping of n points, the first group at least `first`."""
    out = [min(n, first + int(rng.integers(0, 4)))]
    while sum(out) < n:
        out.append(min(n - sum(out), int(rng.choice([1, 1, 1, 2, 3, 7]))))
    return out


def many(rng, top):
    """A large number of queries, often next to a round number."""
    base = [v for v in (64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096) if v < top]
    if rng.random() < 0.3:
        return int(rng.integers(30, top))
    return int(rng.choice(base)) + int(rng.integers(-1, 2))
