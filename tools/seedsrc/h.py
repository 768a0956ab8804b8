"""Helpers of the demonstrations: drive a strategy by hand through the POAP protocol."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import logging

logging.disable(logging.CRITICAL)
import numpy as np
from poap.controller import Controller

from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial
from pySOT.optimization_problems import OptimizationProblem
from pySOT.strategy import (DYCORSStrategy, EIStrategy, LCBStrategy, RandomStrategy, SOPStrategy, SRBFStrategy)
from pySOT.surrogate import (ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor, RBFInterpolant, TPSKernel)

np.seterr(all="ignore")


class Prob(OptimizationProblem):
    def __init__(self, dim=2, lb=None, ub=None, f=None, int_var=()):
        self.dim = dim
        self.lb = np.zeros(dim) if lb is None else np.array(lb, dtype=float)
        self.ub = np.ones(dim) if ub is None else np.array(ub, dtype=float)
        self.int_var = np.array(list(int_var), dtype=int)
        self.cont_var = np.setdiff1d(np.arange(dim), self.int_var)
        self.info, self.minimum = "demo", None
        self.f = f or (lambda x: float(np.sum((x - 0.4) ** 2)))

    def eval(self, x):
        return self.f(np.asarray(x))


def rbf(p, **kw):
    return RBFInterpolant(dim=p.dim, lb=p.lb, ub=p.ub, **kw)


def gp(p):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, WhiteKernel

    return GPRegressor(dim=p.dim, lb=p.lb, ub=p.ub, gp=GaussianProcessRegressor(kernel=RBF(0.3) + WhiteKernel(1e-4), optimizer=None))


def make(cls, p, budget=40, seed=0, n0=None, surrogate=None, design=None, **kw):
    np.random.seed(seed)
    d = design or SymmetricLatinHypercube(p.dim, n0 or 2 * (p.dim + 1), iterations=20)
    kw.setdefault("asynchronous", True)
    if cls not in (EIStrategy, LCBStrategy):
        kw.setdefault("num_cand", 50)
    return cls(max_evals=budget, opt_prob=p, exp_design=d, surrogate=surrogate or (gp(p) if cls in (EIStrategy, LCBStrategy) else rbf(p)), **kw)


class Pt(np.ndarray):
    """A proposed point; differs from every answer that is a string."""

    def __eq__(self, other):
        return False if isinstance(other, str) else np.ndarray.__eq__(self, other)

    def __ne__(self, other):
        return True if isinstance(other, str) else np.ndarray.__ne__(self, other)


class Drive:
    """ask() -> 'none', 'terminate' or a point that is in flight; done(k)/kill(k)/cancel(k) resolve the k-th in flight."""

    def __init__(self, strategy):
        self.s = strategy
        self.c = Controller()
        self.c.strategy = strategy
        self.flight = []
        self.log = []

    def ask(self, accept=True):
        p = self.s.propose_action()
        if not p:
            return "none"
        if p.action == "terminate":
            return "terminate"
        x = np.array(p.args[0], dtype=float).ravel().view(Pt)
        if accept:
            p.record = self.c.new_feval(p.args)
            p.accept()
            self.flight.append(p.record)
        else:
            p.reject()
        return x

    def done(self, k=0, value=None):
        r = self.flight.pop(k)
        v = self.s.opt_prob.eval(r.params[0]) if value is None else value
        r.complete(v)
        self.log.append((np.array(r.params[0], dtype=float), v))
        return r

    def kill(self, k=0):
        self.flight.pop(k).kill()

    def cancel(self, k=0):
        self.flight.pop(k).cancel()

    def serial(self, n=10 ** 6):
        """n evaluations one by one; False when the strategy stops first."""
        for _ in range(n):
            r = self.ask()
            if isinstance(r, str):
                return False
            self.done()
        return True


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)
