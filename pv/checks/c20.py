import numpy as np

from ..simcheck import plain_cases
from ..sim import gen_bounds

RULE = "distinct (design, dimension, size, iterations, domain style, integer set) generated designs checked point by point, and groups of the best-of-iterations test"
NEED = {"designs": 680, "contests-lhd": 2000, "contests-slhd": 2000, "mapped-with-ints": 110}
CHUNK = 4
KS = (2, 3, 10)


def cases(tier, seed):
    big = tier != "quick"
    out = [dict(i=i, kind="structure") for i in range(4000 if big else 500)]
    out += [dict(i=i, kind="contest") for i in range(500 if big else 120)]
    return out


def is_full_rank(X):
    return np.linalg.matrix_rank(X) == X.shape[1]


def structure(rng, out):
    from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial

    which = str(rng.choice(["lhd", "slhd", "slhd", "lhd", "two"]))
    dim = int(rng.integers(1, 9)) if which != "two" else int(rng.integers(1, 8))
    if which != "two" and rng.random() < 0.1:
        dim = int(rng.integers(9, 25))
    n = 2 * (dim + 1) + int(rng.integers(0, 12)) if which != "two" else 2 ** dim
    if which != "two" and rng.random() < 0.1:
        n += int(rng.integers(20, 120))
    its = int(rng.choice([20, 50, 100]))
    few = which != "two" and rng.random() < 0.2  # so few designs are tried that there may be no valid one
    if few:
        its, dim = int(rng.choice([1, 1, 2])), int(rng.integers(2, 5))
        n = int(rng.integers(dim + 1, 2 * dim + 3))
    if which == "lhd":
        des = LatinHypercube(dim, n, iterations=its) if rng.random() < 0.5 else LatinHypercube(dim=dim, num_pts=n, iterations=its)
    elif which == "slhd":
        des = SymmetricLatinHypercube(dim, n, iterations=its)
    else:
        des = TwoFactorial(dim)
    out.check(des.num_pts == n and des.dim == dim, "settings", lambda: "num_pts %s dim %s for %s(%d, %d)" % (des.num_pts, des.dim, which, dim, n))
    style = "unit"
    for rep in range(3):
        lb = ub = iv = None
        if rep == 1:
            # ignored unless both bounds are given
            if rng.random() < 0.5:
                lb = -np.ones(dim)
            else:
                ub = 3 * np.ones(dim)
        args = dict(lb=lb, ub=ub)
        ints = np.array([], dtype=int)
        if rep == 2:
            style = str(rng.choice(["unit", "sym", "aniso", "neg", "tight"])) if not few else "sym"
            lb, ub = gen_bounds(rng, dim, style)
            if rng.random() < 0.5:
                k = int(rng.integers(1, dim + 1))
                ints = np.sort(rng.choice(dim, k, replace=False))
                a = rng.integers(-20, 5, k) - (np.round(rng.uniform(0, 0.9, k), 1) if which == "two" else 0)
                w = rng.integers(1 if which == "two" else 2 * n, 4 * n + 2, k)
                w = w + (a != np.round(a))
                lb[ints], ub[ints] = a, a + w
            form = int(rng.integers(3))
            iv = ints if len(ints) and form else (list(map(int, ints)) if len(ints) else [None, [], np.array([])][form])
            if rng.random() < 0.1:  # bounds in arrays of integers
                lb, ub = np.floor(lb).astype(int), np.ceil(ub).astype(int)
                ub = np.maximum(ub, lb + 1)
                out.ok("integer-bounds")
            args = dict(lb=lb, ub=ub, int_var=iv)
            if len(ints):
                out.ok("mapped-with-ints")
        keep = {k: (None if v is None else np.array(v)) for k, v in args.items()}
        try:
            X = des.generate_points(**args)
        except ValueError:
            if not few:
                raise
            out.ok("no-valid-design")
            continue
        X = np.asarray(X, dtype=float)
        if few:
            out.ok("few-designs")
        out.ok("designs")
        name = "%s(dim=%d, num_pts=%d, iterations=%s) in %s" % (which, dim, n, its, style if rep == 2 else "unit box")
        if not out.check(X.shape == (n, dim), "size", lambda: "%s: shape %s" % (name, X.shape)):
            return
        out.check(all(v is None and args[k] is None or np.array_equal(v, np.asarray(args[k])) for k, v in keep.items()), "inputs-changed", name)
        out.check(len(np.unique(X, axis=0)) == n, "duplicates", lambda: "%s: repeated points" % name)
        out.check(is_full_rank(X) if which != "two" or rep < 2 else True, "rank", lambda: "%s: not of full column rank\n%s" % (name, X))
        if rep < 2:
            L, U = np.zeros(dim), np.ones(dim)
        else:
            L, U = lb, ub
        out.check(np.all(X >= L) and np.all(X <= U), "outside", lambda: "%s: points outside the domain" % name)
        for j in ints:
            out.check(np.all(X[:, j] == np.round(X[:, j])), "not-integral", lambda: "%s: coordinate %d is not integral" % (name, j))
        V = (X - L) / (U - L)
        cont = [j for j in range(dim) if j not in set(ints)]
        for j in range(dim):
            v = np.sort(V[:, j])
            # rounding moves an integer coordinate by at most half a unit
            sl = 1e-9 if j in cont else 0.5 / (U[j] - L[j]) + 1e-9
            if which == "lhd":
                lo, hi = np.arange(n) / n, (np.arange(n) + 1) / n
                out.check(np.all(v >= lo - sl) and np.all(v <= hi + sl), "not-a-latin-hypercube",
                          lambda: "%s: coordinate %d does not have one point in each slice: %s" % (name, j, v))
                if rng.random() < 0.2:
                    out.state("lhd-offset", j in cont, np.round(4 * (v * n - np.arange(n))).tolist())
            elif which == "slhd":
                lev = np.arange(n) / (n - 1.0)
                out.check(np.all(np.abs(v - lev) <= sl), "levels", lambda: "%s: coordinate %d does not use each level once: %s" % (name, j, v))
            elif j in ints:
                lo, hi = np.ceil(L[j]), np.floor(U[j])
                out.check(np.all((X[:, j] == lo) | (X[:, j] == hi)) and np.sum(X[:, j] == lo) * 2 == n, "corners",
                          lambda: "%s: coordinate %d takes the values %s, extreme integers %g and %g" % (name, j, np.unique(X[:, j]), lo, hi))
            else:
                out.check(np.all(np.minimum(np.abs(v), np.abs(v - 1)) < 1e-9) and abs(v.mean() - 0.5) < 1e-9, "corners", lambda: "%s: %s" % (name, v))
        if which == "slhd":
            # symmetric about the centre: the mirror image of the set is the set
            C = cont if len(ints) else list(range(dim))
            if C:
                key = lambda A: sorted(map(tuple, np.round(A[:, C] * (n - 1)).astype(int)))
                out.check(key(V) == key(1 - V), "not-symmetric", lambda: "%s: not symmetric about the centre\n%s" % (name, V))
            for j in ints:
                pass  # the level check above already pins integer coordinates to within rounding
        if which == "two" and not len(ints):
            got = set(map(tuple, np.round(V).astype(int)))
            out.check(len(got) == n, "corners", lambda: "%s: %d distinct corners" % (name, len(got)))
        out.state(which, dim, n, its, style, tuple(ints))
        if which != "two" and n >= 12 and dim >= 4 and rep == 0:
            Y = np.asarray(des.generate_points())
            out.check(not np.array_equal(X, Y), "not-regenerated", lambda: "%s: a second call returned the same design" % name)
            out.ok("regenerated")
    # no valid design exists on a lattice smaller than the design
    if which != "two" and dim <= 3 and rng.random() < 0.3 and n > 2 ** dim:
        try:
            des.generate_points(lb=np.zeros(dim), ub=np.ones(dim), int_var=np.arange(dim))
            out.fail("impossible", "%s: %d distinct points in a lattice of %d" % (name, n, 2 ** dim))
        except ValueError:
            out.ok("impossible-refused")
    out.sample(dict(design=which, dim=dim, num_pts=n, iterations=its))


def contest(rng, out):
    """One design picked from K against the best of K single designs: a fair coin if and only if K designs are tried."""
    from scipy.spatial.distance import pdist

    from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube

    cls, which = [(LatinHypercube, "lhd"), (SymmetricLatinHypercube, "slhd")][int(rng.integers(2))]
    mode = str(rng.choice(["unit", "cube", "ints", "slab"]))
    reps = 100
    dim = int(rng.integers(2, 4))
    n = 2 * (dim + 1) + int(rng.integers(0, 5))
    args = {}
    if mode == "cube":
        args = dict(lb=-7.0 * np.ones(dim), ub=11.0 * np.ones(dim))
    if mode == "slab":
        # one side much longer than the others: the distances of the mapped points are ordered differently
        side = np.ones(dim)
        side[int(rng.integers(dim))] = 25.0
        args = dict(lb=-side, ub=2 * side)
    if mode == "ints":
        args = dict(lb=-np.ones(dim) * n, ub=np.ones(dim) * n, int_var=np.arange(1, dim))

    def score(its):
        try:
            X = np.asarray(cls(dim, n, iterations=its).generate_points(**args), dtype=float)
        except ValueError:
            return -1.0
        return float(pdist(X).min())

    for K in KS:
        win = 0.0
        m = reps if K < 10 else 40
        for _ in range(m):
            a, b = score(K), max(score(1) for _ in range(K))
            if abs(a - b) <= 1e-9 * max(a, b):
                win += float(rng.random() < 0.5)
            elif a > b:
                win += 1
        out.ok("contests-%s" % which, m)
        out.ok("played %s K=%d %s" % (which, K, mode), m)
        out.ok("won %s K=%d %s" % (which, K, mode), int(win))
        out.ok("oracle", m)
        out.state("contest", which, K, mode, n, dim)


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    (structure if spec["kind"] == "structure" else contest)(rng, out)


def final(n, out):
    tot = {}
    for k in list(n):
        if k.startswith("played "):
            g = k[7:]
            h = " ".join(g.split()[:2])
            for name in (g, h):
                a = tot.setdefault(name, [0, 0])
                a[0] += n[k]
                a[1] += n["won " + g]
    for g, (p, w) in sorted(tot.items()):
        # two-sided binomial test at error probability 1e-10 (normal tail bound 6.5 sigma)
        lim = 3.25 * np.sqrt(p) + 1
        out.check(abs(w - p / 2.0) <= lim, "best-of",
                  lambda: "%s: the design picked from K beat the best of K single designs in %d of %d contests (half expected, tolerance %.0f)" % (g, w, p, lim))
