"""Problems, designs and surrogates handed to pySOT by the harness.

They are ordinary users of the public base classes, importable (so checkpoints can be pickled), and report every
call to the module-level SINK, so monitors see the objective calls, the designs and the model queries of a run."""
import numpy as np
from scipy.spatial.distance import cdist
from pySOT.experimental_design import (ExperimentalDesign, LatinHypercube, SymmetricLatinHypercube, TwoFactorial)
from pySOT.optimization_problems import OptimizationProblem
from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor,
                             RBFInterpolant, TPSKernel)

SINK = None  # callable(kind, **data) or None


def emit(kind, **kw):
    if SINK is not None:
        SINK(kind, kw)


def set_sink(f):
    global SINK
    SINK = f


class Prob(OptimizationProblem):
    """Box-constrained test problem with a scriptable objective."""

    def __init__(self, d):
        self.d = dict(d)
        self.dim = int(d["dim"])
        kind = int if d.get("int_bounds") else float  # users write bounds as arrays of integers, too
        self.lb = np.array(d["lb"], dtype=kind)
        self.ub = np.array(d["ub"], dtype=kind)
        self.int_var = np.array(d.get("int_var", []), dtype=int)
        self.cont_var = np.setdiff1d(np.arange(self.dim), self.int_var)
        self.info = "pv problem"
        self.minimum = None
        self.calls = 0
        r = np.random.default_rng(d.get("fseed", 0))
        self.c = r.uniform(0.15, 0.85, self.dim)
        self.w = r.uniform(0.5, 2.0, self.dim)
        self.ph = r.uniform(0, 6, self.dim)
        self.script = r.uniform(-1, 1, 4000)

    def value(self, x):
        kind = self.d.get("fkind", "func")
        u = (np.asarray(x, dtype=float) - self.lb) / (self.ub - self.lb)
        base = float(np.sum(self.w * (u - self.c) ** 2) + 0.2 * np.sum(np.sin(7 * u + self.ph)))
        k = self.calls
        if kind == "func":
            return base
        if kind == "offset":
            return base + 50.0
        if kind == "neg":
            return base - 50.0
        if kind == "flat":
            return [1.0, 1.0, 0.0, -2.5][self.d.get("fseed", 0) % 4]
        if kind == "improve":  # every call better than all before
            return 5.0 - 0.5 * k + 1e-3 * base
        if kind == "worse":
            return 5.0 + 0.5 * k + 1e-3 * base
        if kind == "script":  # unrelated to x, heavy ties
            return float(np.round(4 * self.script[k % len(self.script)]) / 4)
        if kind == "drift":  # bursts of improvements and failures
            ph = (k // 5) % 3
            return base + (10 - 0.02 * k if ph else 20.0 - 0.7 * k)
        if kind == "near":  # improvements around the 0.1 percent threshold
            return 100.0 * (1 - 0.001 * np.round(3 * self.script[k % len(self.script)]) * (0.9 + 0.2 * (k % 2))) - 0.03 * k
        if kind == "int":
            return int(np.round(10 * base))
        if kind == "f32":
            return np.float32(base)
        if kind == "huge":
            return 1e9 * base
        if kind == "tiny":
            return 1e-7 * base
        if kind == "close":  # values that differ in the last digits only
            return 1.0 + 1e-13 * float(np.round(4 * self.script[k % len(self.script)]))
        if kind == "jump":  # nearly flat at first, then far worse and varied
            return 1e-3 * base if k < self.d.get("jump", 10) else 10.0 + 10.0 * base
        if kind == "penalty":  # a failed simulation is given an enormous value
            return base if np.modf(np.sin(1e4 * base))[0] < 0.6 else float([1e40, 1e60, 1e80, 1e100][self.d.get("fseed", 0) % 4])
        if kind == "shrink":  # values of the first run spread a million times wider than those of the runs after it
            return 1e6 * (2.5 + np.sin(base)) if k < self.d.get("jump", 10) else base
        raise ValueError(kind)

    def eval(self, x):
        xin = np.array(x, dtype=float)
        v = self.value(x)
        self.calls += 1
        emit("objective", x=xin, v=v)
        return v


class SpyDesign(ExperimentalDesign):
    def __init__(self, inner):
        self.inner = inner
        self.dim = inner.dim
        self.num_pts = inner.num_pts

    def generate_points(self, lb=None, ub=None, int_var=None):
        X = self.inner.generate_points(lb=lb, ub=ub, int_var=int_var)
        emit("design", X=np.array(X, dtype=float))
        return X


class _Spy:
    """Reports the outermost public calls (predict_std may use predict and so on)."""

    def _pv(self, kind, x, f):
        if getattr(self, "_pv_depth", 0):
            return f()
        self._pv_depth = 1
        try:
            y = f()
        finally:
            self._pv_depth = 0
        emit(kind, X=np.array(x, dtype=float, copy=True, ndmin=2), y=np.array(y, dtype=float, copy=True), n=self.num_pts)
        return y

    def predict(self, xx):
        return self._pv("predict", xx, lambda: super(_Spy, self).predict(xx))

    def predict_std(self, xx):
        return self._pv("predict_std", xx, lambda: super(_Spy, self).predict_std(xx))

    def reset(self):
        super().reset()
        emit("reset")


class SpyRBF(_Spy, RBFInterpolant):
    pass


class SpyGP(_Spy, GPRegressor):
    pass


class CheapGP(GPRegressor):
    """Gaussian predictions at no cost: a distance-weighted mean and a deviation proportional to the distance to the data, with
    a factor that changes at every reset (0: certain everywhere)."""

    amps = (0.3,)
    resets = 0

    def reset(self):
        super().reset()
        self.resets += 1

    def _fit(self):
        self.updated = True

    def _dist(self, xx):
        Z = (np.atleast_2d(np.asarray(xx, dtype=float)) - self.lb) / (self.ub - self.lb)
        U = (self.X - self.lb) / (self.ub - self.lb)
        return np.sqrt(np.maximum(((Z[:, None, :] - U[None, :, :]) ** 2).sum(axis=2), 0.0)) if len(Z) * len(U) * self.dim < 2e5 else cdist(Z, U)

    def predict(self, xx):
        self._fit()
        W = 1.0 / (self._dist(xx) ** 2 + 1e-9)
        return (W @ self.output_transformation(self.fX.copy())) / W.sum(axis=1, keepdims=True)

    def predict_std(self, xx):
        self._fit()
        return self.amps[self.resets % len(self.amps)] * float(np.ptp(self.fX) or 1.0) * self._dist(xx).min(axis=1, keepdims=True)


class SpyCheap(_Spy, CheapGP):
    pass


class SpyStoch(_Spy, RBFInterpolant):
    """Fitting draws from the global stream, as the Gaussian process does: needless or missing fits show in what follows."""

    def _fit(self):
        if not self.updated:
            np.random.rand()
        super()._fit()


class SpyPoly(_Spy, PolyRegressor):
    pass


KERNELS = {"cubic": CubicKernel, "linear": LinearKernel, "tps": TPSKernel}
TAILS = {"linear": LinearTail, "constant": ConstantTail}


def make_gp_model(dim, ls=0.4):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel

    return GaussianProcessRegressor(
        kernel=ConstantKernel(1.0) * RBF(length_scale=ls * np.ones(dim)) + WhiteKernel(1e-4), optimizer=None
    )


def flip(v):
    return -np.asarray(v)


def flip_inplace(v):
    v *= -1.0
    return v


def ranks(v):
    return np.argsort(np.argsort(np.ravel(v), kind="stable"), kind="stable").astype(float).reshape(np.shape(v))


def squash_inplace(v):
    v[...] = np.arctan(v)
    return v


TRANSFORMS = dict(flip=flip, flip_inplace=flip_inplace, ranks=ranks, squash_inplace=squash_inplace)


class Recording:
    """A user transformation that reports what it was given."""

    def __init__(self, f):
        self.f = f

    def __call__(self, v):
        emit("transform", shape=np.shape(v), v=np.array(v, dtype=float, copy=True))
        return self.f(v)


def make_surrogate(s, prob):
    dim, lb, ub = prob.dim, prob.lb, prob.ub
    ot = None
    if s.get("tr"):
        ot = Recording(TRANSFORMS[s["tr"]])
    if s.get("cap"):
        from pySOT.surrogate.output_transformations import median_capping

        ot = median_capping
    if s["kind"] == "default-rbf":
        return SpyRBF(dim=dim, lb=lb, ub=ub)
    if s["kind"] == "default-gp":
        return SpyGP(dim=dim, lb=lb, ub=ub)
    if s["kind"] == "rbf":
        return SpyRBF(dim=dim, lb=lb, ub=ub, kernel=KERNELS[s["kernel"]](), tail=TAILS[s["tail"]](dim),
                      output_transformation=ot)
    if s["kind"] == "stoch":
        return SpyStoch(dim=dim, lb=lb, ub=ub)
    if s["kind"] == "gp":
        return SpyGP(dim=dim, lb=lb, ub=ub, gp=make_gp_model(dim), output_transformation=ot)
    if s["kind"] == "cheap":
        m = SpyCheap(dim=dim, lb=lb, ub=ub, gp=make_gp_model(dim), output_transformation=ot)
        m.amps = tuple(s["amps"])
        return m
    if s["kind"] == "poly":
        return SpyPoly(dim=dim, lb=lb, ub=ub, degree=s.get("degree", 2), output_transformation=ot)
    raise ValueError(s)


def make_design(s, dim):
    k = s["kind"]
    if k == "lhd":
        d = LatinHypercube(dim, s["n"], iterations=s.get("iters", 10))
    elif k == "slhd":
        d = SymmetricLatinHypercube(dim, s["n"], iterations=s.get("iters", 10))
    else:
        d = TwoFactorial(dim)
    return SpyDesign(d)
