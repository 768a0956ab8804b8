import numpy as np

from ..sim import gen_bounds
from ..simcheck import plain_cases

RULE = "distinct (start option, dimension, population, generations, integer set, objective, generations that improved) runs observed through the objective"
NEED = {"runs": 210, "generations": 2000, "improvements": 500, "refused": 100, "int-runs": 60}
CHUNK = 4
cases = plain_cases(700, 6000)


def objective(rng, dim, lb, ub, kind):
    c = lb + rng.random(dim) * (ub - lb)
    a = rng.normal(size=dim)
    if kind == "corner":  # minimum outside the box
        c = ub + (ub - lb)

    def f(X):
        u = (X - c) / (ub - lb)
        if kind == "flat":
            return np.zeros(len(X)) + 2.5
        if kind == "steps":
            return np.round(3 * (u ** 2).sum(axis=1))
        if kind == "rugged":
            return np.sin(17 * (u * a).sum(axis=1)) + (u ** 2).sum(axis=1)
        if kind == "negative":
            return -1e6 - 10 * np.cos(9 * u.sum(axis=1))
        if kind == "wall":  # infinite on part of the box
            return np.where((u * a).sum(axis=1) > 0.05, np.inf, (u ** 2).sum(axis=1))
        if kind == "int":
            return np.round(50 * (u ** 2).sum(axis=1)).astype(int)
        return (u ** 2).sum(axis=1)

    return f


def run_case(spec, out):
    from pySOT.utils import GeneticAlgorithm

    rng = np.random.default_rng(spec["seed"])
    dim = int(rng.integers(1, 7)) if rng.random() < 0.93 else int(rng.integers(7, 26))
    lb, ub = gen_bounds(rng, dim, str(rng.choice(["unit", "sym", "aniso", "neg", "tight"])))
    ints = np.array([], dtype=int)
    if rng.random() < 0.4:
        k = int(rng.integers(1, dim + 1))
        ints = np.sort(rng.choice(dim, k, replace=False))
        a = rng.integers(-10, 5, k)
        frac = rng.choice([0.0, 0.3, 0.5], k)
        lb[ints], ub[ints] = a - frac, a + rng.integers(1, 25, k) + rng.choice([0.0, 0.4, 0.5], k)
        out.ok("int-runs")
    if rng.random() < 0.08:  # bounds in arrays of integers
        lb, ub = np.floor(lb).astype(int), np.ceil(ub).astype(int)
        ub = np.maximum(ub, lb + 1)
        out.ok("integer-bounds")
    pop = int(rng.integers(2 * (dim + 1), 40 + 2 * (dim if dim > 6 else 0) if rng.random() < 0.75 else 160))
    even = pop + pop % 2
    gens = int(rng.choice([0, 1, 2, 5, 12, 25])) if rng.random() < 0.95 else int(rng.integers(60, 130))
    kind = str(rng.choice(["bowl", "corner", "flat", "steps", "rugged", "negative", "int", "wall"]))
    f = objective(rng, dim, lb, ub, kind)
    col = str(rng.choice(["column", "row", "buffer"]))
    buf = np.zeros((even, 1))
    log = []

    def fun(X):
        X = np.asarray(X)
        v = f(X.copy())
        log.append((X.copy(), np.array(v, dtype=float)))
        if col == "row":
            return v
        if col == "buffer" and X.shape[0] == even:
            buf[:, 0] = v
            return buf
        return v.reshape(-1, 1)

    start = str(rng.choice(["SLHD", "LHD", "Random", "given"]))
    kw = {}
    given = None
    if start == "given":
        U = rng.random((even, dim))
        U[rng.random((even, dim)) < 0.15] = 0.0
        U[rng.random((even, dim)) < 0.15] = 1.0
        given = np.clip(lb + U * (ub - lb), lb, ub)
        if np.all(np.ceil(lb) <= np.floor(ub)) and rng.random() < 0.4:  # an array of integers is a population, too
            given = np.clip(np.round(given), np.ceil(lb), np.floor(ub)).astype([int, np.int32][int(rng.integers(2))])
            out.ok("integer-arrays")
        if rng.random() < 0.3:
            given = np.asfortranarray(given)
        if rng.random() < 0.3:
            given.setflags(write=False)
        kw["start"] = given
    elif start != "SLHD" or rng.random() < 0.7:
        kw["start"] = start
    if len(ints):
        kw["int_var"] = ints if rng.random() < 0.5 else list(map(int, ints))
    elif rng.random() < 0.5:
        kw["int_var"] = [None, [], np.array([])][int(rng.integers(3))]
    keep = [x.copy() for x in (lb, ub)] + [None if given is None else given.copy()]
    name = "dim %d pop %d generations %d start %s objective %s ints %s" % (dim, pop, gens, start, kind, ints.tolist())

    # populations of the wrong size or outside the bounds are refused
    if rng.random() < 0.6:
        bad = np.clip(lb + rng.random((even, dim)) * (ub - lb), lb, ub)
        how = int(rng.integers(5))
        if how == 0:
            bad = bad[:-1]
        elif how == 1:
            bad = np.vstack((bad, bad[:2]))
        elif how == 2:
            bad = np.hstack((bad, bad[:, :1]))
        elif how == 3:
            i, j = int(rng.integers(even)), int(rng.integers(dim))
            bad[i, j] = lb[j] - 1e-3 * (ub[j] - lb[j])
        else:
            i, j = int(rng.integers(even)), int(rng.integers(dim))
            bad[i, j] = ub[j] + 1e-3 * (ub[j] - lb[j])
        k2 = dict(kw)
        k2["start"] = bad
        try:
            GeneticAlgorithm(fun, dim, lb, ub, pop_size=pop, num_gen=gens, **k2).optimize()
            out.fail("accepted-bad-start", "%s: initial population with defect %d accepted" % (name, how))
        except ValueError:
            out.ok("refused")
        log.clear()

    ga = GeneticAlgorithm(fun, dim, lb, ub, pop_size=pop, num_gen=gens, **kw)
    for rep in range(1 + int(rng.random() < 0.3)):  # the object can be used again
        log.clear()
        x, v = ga.optimize()
        x, v = np.array(x, dtype=float), float(np.asarray(v).ravel()[0])
        out.ok("runs")
        out.ok("generations", len(log))
        if not out.check(len(log) == gens + 1, "generations", lambda: "%s: %d populations evaluated" % (name, len(log))):
            return
        best = np.inf
        imp = 0
        for g, (X, V) in enumerate(log):
            if not out.check(X.shape == (even, dim), "population-size", lambda: "%s: population %d has shape %s" % (name, g, X.shape)):
                return
            out.check(np.all(X >= lb) and np.all(X <= ub), "outside", lambda: "%s: population %d leaves the bounds" % (name, g))
            if len(ints):
                out.check(np.all(X[:, ints] == np.round(X[:, ints])), "not-integral", lambda: "%s: population %d is not integral" % (name, g))
            out.check(V.min() <= best, "worse", lambda: "%s: best of population %d is %r, before %r" % (name, g, V.min(), best))
            imp += V.min() < best and g > 0
            best = min(best, V.min())
        out.ok("improvements", imp)
        out.check(v == best, "not-the-minimum", lambda: "%s: returned value %r, smallest evaluated %r" % (name, v, best))
        out.check(x.shape == (dim,), "shape", lambda: "%s: point of shape %s" % (name, x.shape))
        out.check(float(f(x.reshape(1, -1))[0]) == v or abs(float(f(x.reshape(1, -1))[0]) - v) <= 1e-12 * (1 + abs(v)), "point-value",
                  lambda: "%s: the returned point has value %r, returned %r" % (name, f(x.reshape(1, -1)), v))
        out.check(any(np.any(np.all(X == x, axis=1)) for X, _ in log), "not-evaluated", lambda: "%s: the returned point was never evaluated" % name)
        if given is not None:
            want = given.astype(float)
            X0 = log[0][0]
            c = [j for j in range(dim) if j not in set(ints)]
            out.check(np.array_equal(X0[:, c], want[:, c]), "start-ignored", lambda: "%s: the first population is not the given one" % name)
            if len(ints):
                out.check(np.all(np.abs(X0[:, ints] - want[:, ints]) < 1.0 + 1e-9), "start-ignored", lambda: "%s: the first population is not the given one" % name)
    out.check(np.array_equal(lb, keep[0]) and np.array_equal(ub, keep[1]) and (given is None or np.array_equal(given, keep[2])), "inputs-changed",
              lambda: "%s: arguments were modified" % name)
    out.state(start, dim, even, gens, kind, tuple(ints), imp)
    out.sample(dict(run=name, best=v, generations_that_improved=int(imp)))
