import numpy as np

from .. import objs, oracles, sur
from ..mon import Acquisition, Base, CandidateLaw, History, Merit, Radius, Sop, SurrogateData, multiset
from ..objs import KERNELS, TAILS, Prob, make_gp_model
from ..sim import gen_spec
from ..simcheck import run_sim

RULE = "distinct (data set size, ties, position of the median) cappings, (model, transformation, grouping of additions) fits, and (strategy, transformation, history) runs"
NEED = {"cappings": 1450, "capping-ties": 300, "capping-even": 500, "fits": 700, "fits-after-more-data": 300, "in-place-transformations": 150, "transform-calls": 700,
        "runs": 50, "recorded-refits": 650, "refits-checked": 800, "gp-spreads": 100}
CHUNK = 4


def cases(tier, seed):
    big = tier != "quick"
    return ([dict(i=i, kind="median") for i in range(1000 if big else 80)] + [dict(i=i, kind="model") for i in range(8000 if big else 500)]
            + [dict(i=i, kind="run") for i in range(1500 if big else 130)])


def median(rng, out):
    from pySOT.surrogate.output_transformations import identity, median_capping

    for _ in range(40):
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 40])) if rng.random() < 0.97 else int(rng.integers(100, 3000))
        k = int(rng.integers(6))
        f = rng.normal(size=n) * 10.0 ** rng.integers(-3, 6)
        if k == 1:
            f = rng.integers(-2, 3, n).astype(float)
        if k == 2:
            f[:] = f[0]
        if k == 3:
            f[rng.random(n) < 0.3] = np.inf
        if k == 4:
            f = rng.integers(-5, 9, n)
        if k == 5:
            f = f.astype(np.float32)
        if rng.random() < 0.5:
            f = f.reshape(-1, 1)
        if rng.random() < 0.2:
            f = np.asfortranarray(f)
        if rng.random() < 0.2:
            f = np.repeat(f, 2, axis=0)[::2]
        ro = rng.random() < 0.3
        f.setflags(write=not ro)
        f0 = f.copy()
        with np.errstate(all="ignore"):
            g = np.asarray(median_capping(f))
        v = np.sort(f0.ravel().astype(float))
        with np.errstate(all="ignore"):
            m = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
        out.ok("cappings")
        if len(np.unique(v)) < n:
            out.ok("capping-ties")
        if n % 2 == 0:
            out.ok("capping-even")
        out.check(np.array_equal(f, f0), "input-changed", lambda: "median_capping changed its input %s -> %s" % (f0.ravel(), f.ravel()))
        out.check(g is not f and not np.shares_memory(g, f), "not-a-new-array", "median_capping returns its input or a view of it")
        if not out.check(g.shape == f.shape, "shape", lambda: "median_capping: shape %s becomes %s" % (f.shape, g.shape)):
            continue
        a, b = f0.ravel().astype(float), g.ravel().astype(float)
        hi = a > m
        near = np.abs(b[hi] - m) <= 1e-6 * abs(m) if f0.dtype == np.float32 else (b[hi] == m) | (np.abs(b[hi] - m) <= 4e-16 * abs(m))
        out.check(np.all(near), "not-capped", lambda: "median %s of %s (%s), capped values %s" % (m, a, f0.dtype, b))
        out.check(np.array_equal(b[~hi], a[~hi]), "value-changed", lambda: "values not above the median %s changed: %s -> %s" % (m, a, b))
        out.state("median", n, len(np.unique(v)), int(hi.sum()), str(f0.dtype), f.ndim)
        i = np.asarray(identity(f))
        out.check(np.array_equal(i, f0), "identity", "identity changed the values")


def user_transformations(rng):
    a, b = float(rng.choice([-3.0, 0.5, 10.0])), float(rng.normal())
    from pySOT.surrogate.output_transformations import median_capping

    def capinplace(v):
        v[v > np.median(v)] = np.median(v)
        return v

    def affine_inplace(v):
        v *= a
        v += b
        return v

    return {
        "cap": (median_capping, oracles.capped),
        "cap-in-place": (capinplace, oracles.capped),
        "affine": (lambda v: a * v + b, lambda v: a * v + b),
        "affine-in-place": (affine_inplace, lambda v: a * v + b),
        "squash": (lambda v: np.arctan(v), lambda v: np.arctan(v)),
        "standardise": (lambda v: (v - v.mean()) / (v.std() + 1), lambda v: (v - v.mean()) / (v.std() + 1)),
        "ranks": (objs.ranks, lambda v: np.array([sum(w < x for w in np.ravel(v)) + sum(w == x for w in np.ravel(v)[:i]) for i, x in enumerate(np.ravel(v))], dtype=float).reshape(-1, 1)),
    }


def model(rng, out):
    from pySOT.surrogate import GPRegressor, PolyRegressor, RBFInterpolant

    dim, lb, ub = sur.domain(rng, int(rng.integers(1, 5)))
    n = dim + 2 + int(rng.integers(0, 20 if rng.random() < 0.9 else 150))
    X = sur.points(rng, lb, ub, n, 0.04)
    f = sur.values(rng, X, lb, ub)
    T = user_transformations(rng)
    name = str(rng.choice(sorted(T)))
    tr, ref = T[name]
    calls = []

    def rec(v):
        calls.append(np.array(v, dtype=float, copy=True))
        return tr(v)

    kind = str(rng.choice(["rbf", "gp", "poly"]))
    kw = dict(dim=dim, lb=lb, ub=ub, output_transformation=rec)
    if kind == "rbf":
        k, t = sur.PAIRS[int(rng.integers(len(sur.PAIRS)))]
        m = RBFInterpolant(kernel=KERNELS[k](), tail=TAILS[t](dim), eta=1e-6, **kw)
        oracle = lambda i, g: oracles.RBF(k, t, lb, ub, X[:i], g, 1e-6)
    elif kind == "gp":
        ls = float(rng.choice([0.3, 0.6]))
        gp = make_gp_model(dim, ls)
        m = GPRegressor(gp=gp, **kw)
        kern = make_gp_model(dim, ls).kernel
        oracle = lambda i, g: oracles.GP(kern, lb, ub, X[:i], g, 1e-10)
    else:
        deg = int(rng.integers(1, 4))
        m = PolyRegressor(degree=deg, **kw)
        oracle = lambda i, g: oracles.Ridge(deg, lb, ub, X[:i], g)
    if rng.random() < 0.25:
        Z = sur.points(rng, lb, ub, dim + 3, 0.04)
        m.add_points(Z, rng.normal(size=(len(Z), 1)))
        m.predict(Z[:1])
        m.reset()
    Q = np.vstack((sur.points(rng, lb, ub, 5), X[:1]))
    i, hist, fits = 0, "", 0
    for c in sur.chunks(rng, n, dim + 1):
        m.add_points(X[i:i + c], f[i:i + c])
        i += c
        out.check(np.array_equal(m.fX, f[:i]), "stored-values-transformed", lambda: "%s with %s: the stored values are not those added" % (kind, name))
        if i < n and rng.random() < 0.4:
            hist += "-"
            continue
        hist += "p"
        calls.clear()
        how = int(rng.integers(3))
        if kind == "rbf" and how == 0:
            m.predict_deriv(Q[:1])
        elif kind == "gp" and how == 0:
            m.predict_std(Q)
        p = np.asarray(m.predict(Q)).ravel()
        if rng.random() < 0.5:
            p = np.asarray(m.predict(Q)).ravel()  # cached fit
        out.ok("transform-calls", len(calls))
        out.check(any(v.shape == (i, 1) and np.array_equal(np.sort(v, axis=0), np.sort(f[:i], axis=0)) for v in calls), "not-recomputed",
                  lambda: "%s with %s: fitted to %d points, the transformation was given arrays of shape %s" % (kind, name, i, [v.shape for v in calls]))
        out.check(np.array_equal(m.fX, f[:i]) and np.array_equal(m.X, X[:i]), "stored-values-transformed",
                  lambda: "%s with %s: the fit changed the stored data %s -> %s" % (kind, name, f[:i, 0], np.ravel(m.fX)))
        g = np.asarray(ref(f[:i].copy()), dtype=float).reshape(-1, 1)
        o = oracle(i, g)
        if kind == "rbf" and not (np.isfinite(o.cond) and o.cond < 1e12):
            out.skip("ill-conditioned data")
            continue
        q = np.ravel(o.predict(Q))
        spread = np.abs(g - g.mean()).max() + 1e-6 + 1e-7 * np.abs(g).max()
        tol = o.tol(20) + 1e-7 * spread if kind == "rbf" else 1e-5 * spread
        e = np.abs(p - q).max()
        out.ok("fits")
        fits += 1
        if fits > 1:
            out.ok("fits-after-more-data")
        if "in-place" in name:
            out.ok("in-place-transformations")
        out.check(e <= tol, "not-fitted-to-transformed-values",
                  lambda: "%s with %s after %s: predictions off by %.3g (tolerance %.3g) from a fit to the transformed values" % (kind, name, hist, e, tol))
        if kind == "gp":
            sd = np.asarray(m.predict_std(Q)).ravel()
            es = np.abs(sd ** 2 - o.std(Q) ** 2).max() / o.sd ** 2
            out.ok("gp-spreads")
            out.check(es <= 1e-6 + 1e-12 * o.cond, "not-fitted-to-transformed-values",
                      lambda: "gp with %s after %s: variance off by %.3g of that of the transformed values" % (name, hist, es))
    out.state("model", kind, name, dim, hist)
    out.sample(dict(model=kind, transformation=name, points=n, history=hist))


class Refits(Base):
    """Every model query of a run rests on a transformation of all the data of the run, which stay as they are."""

    def start(self, sim):
        self.last = None

    def on_ask(self, sim, ev):
        t, out, s = sim.t, sim.out, sim.strategy
        fresh = False
        for k, d in ev["spied"]:
            if k == "transform":
                self.last = d["v"]
                out.ok("recorded-refits")
                fresh = True
        if not ev["restart"] and any(k == "predict" for k, _ in ev["spied"]) and self.last is not None and sim.spec["surrogate"].get("tr"):
            X, f = t.data()
            out.ok("refits-checked")
            out.check(np.array_equal(np.sort(np.ravel(self.last)), np.sort(f.ravel())), "not-recomputed",
                      lambda: "the model was fitted to %d values, %d evaluations of the run have finished" % (self.last.size, len(f)))
        out.state("run", sim.spec["strat"], sim.spec["surrogate"].get("tr"), len(t.completed), len(t.inflight), fresh, sim.spec["prob"]["fseed"])

    def on_restart(self, sim, ev):
        self.last = None
        for k, d in ev["spied"]:
            if k == "transform":
                self.last = d["v"]

    def end(self, sim):
        t, out, s = sim.t, sim.out, sim.strategy
        X, f = t.data()
        out.check(sorted(np.ravel(s.surrogate.fX).tolist()) == sorted(f.ravel().tolist()), "stored-values-transformed", "the values stored in the model are not the original ones")
        out.ok("runs")


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.3, 0.25, 0.33, 0.06, 0.06]))
    s = gen_spec(rng, strat=st, faults="adapt", num_cand=20, fkind=str(rng.choice(["func", "drift", "near", "script", "neg", "offset"])),
                 dim=int(rng.choice([1, 2, 3])), budget=int(rng.choice([10, 20, 40])) if st not in ("ei", "lcb") else 5, weights=[0.3, 0.8])
    if s["surrogate"]["kind"] == "poly" and st == "sop":
        s["surrogate"] = dict(kind="rbf", kernel="cubic", tail="linear")
    tr = [None, "flip", "flip_inplace", "ranks", "squash_inplace"][int(rng.integers(5))]
    s["surrogate"]["cap"] = tr is None
    if tr:
        s["surrogate"]["tr"] = tr
    return s


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "median":
        return median(rng, out)
    if spec["kind"] == "model":
        return model(rng, out)
    s = make(np.random.default_rng(spec["seed"]), spec)
    st = s["strat"]
    mons = [Refits(), SurrogateData(), History()]
    if st in ("srbf", "dycors"):
        mons += [Radius(), Merit(), CandidateLaw()]
    elif st == "sop":
        mons += [Sop(), Merit()]
    else:
        mons += [Acquisition()]
    run_sim(spec, out, make, mons)
