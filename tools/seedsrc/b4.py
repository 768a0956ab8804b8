ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
ED = "pySOT/experimental_design/"
UT = "pySOT/utils.py"
BQ = "            self.batch_queue.append(np.copy(np.ravel(new_points[i, :])))"
SEEDS = [
    dict(
        id="C05-skip-dup", property="C05",
        edits=[(ST + "surrogate_strategy.py", """        # Only count point if it was proposed after the last restart
        if record.ev_id > self.ev_last:
            self._X = np.vstack((self._X, np.atleast_2d(xx)))
            self._fX = np.vstack((self._fX, fx))
            self.surrogate.add_points(xx, fx)

        self.log_completion(record)
        self.fevals.append(record)

    def on_adapt_aborted""", """        # Only count point if it was proposed after the last restart
        if record.ev_id > self.ev_last:
            known = (self._X == xx).all(axis=1).any()  # A repeated point makes the system singular
            self._X = np.vstack((self._X, np.atleast_2d(xx)))
            self._fX = np.vstack((self._fX, fx))
            if not known:
                self.surrogate.add_points(xx, fx)

        self.log_completion(record)
        self.fevals.append(record)

    def on_adapt_aborted""")],
        needs="a point that is evaluated twice in one run, as on a small integer domain",
        breaks="a repeated evaluation is missing from the surrogate",
        demo='''
p = Prob(2, lb=[0, 0], ub=[2, 2], int_var=[0, 1])
s = make(SRBFStrategy, p, budget=30, n0=6)
d = Drive(s)
d.serial(25)
check(s.surrogate.num_pts == len(s._X), "%d points in the surrogate, %d evaluated" % (s.surrogate.num_pts, len(s._X)))
'''),
    dict(
        id="C05-first-after-restart", property="C05",
        edits=[(ST + "surrogate_strategy.py", "self.ev_last = self.get_ev()", "self.ev_last = self.ev_next  # No need to use up an index")],
        needs="a restart; the first evaluation accepted after it",
        breaks="the first evaluation of the new run never enters the surrogate",
        demo='''
p = Prob(2, f=lambda x: 1.0)
s = make(SRBFStrategy, p, budget=200, n0=6)
d = Drive(s)
while s.ev_last == 0:
    check(d.serial(1), "no restart")
while s.phase == 1:
    check(d.serial(1), "stopped")
check(s.surrogate.num_pts >= 7, "%d points in the surrogate" % s.surrogate.num_pts)
'''),
    dict(
        id="C04-buffer", property="C04",
        edits=[(ST + "dycors_strategy.py", "        for i in range(num_pts):\n" + BQ, """        if getattr(self, "_buffer", None) is None or len(self._buffer) != num_pts:
            self._buffer = np.zeros((num_pts, self.opt_prob.dim))
        self._buffer[:] = new_points
        for i in range(num_pts):
            self.batch_queue.append(self._buffer[i, :])""")],
        needs="asynchronous DYCORS with two evaluations in flight",
        breaks="the point of an evaluation in flight changes when the next one is generated, so the archive holds a point that was not evaluated",
        demo='''
p = Prob(2)
s = make(DYCORSStrategy, p, budget=40, n0=6)
d = Drive(s)
d.serial(8)
a = d.ask(); v = p.eval(a)
d.ask()
d.done(0, v)
check((s.X[-1] == a).all(), "evaluated %s, recorded %s" % (a, s.X[-1]))
'''),
    dict(
        id="C13-rename-open", property="C13",
        edits=[(ST + "surrogate_strategy.py", "            dill.dump(self, output, dill.HIGHEST_PROTOCOL)\n        os.rename(temp_fname, fname)", "            dill.dump(self, output, dill.HIGHEST_PROTOCOL)\n            os.rename(temp_fname, fname)")],
        needs="a crash between the rename and the closing of the file",
        breaks="the temporary file is moved into place before its buffered tail is written",
        demo='''
import dill, tempfile, shutil
import pySOT.strategy.surrogate_strategy as m
p = Prob(2)
s = make(SRBFStrategy, p, budget=40, n0=6)
d = Drive(s)
d.serial(8)
tmp = tempfile.mkdtemp()
try:
    f = os.path.join(tmp, "ck")
    s.save(f)
    d.serial(1)
    state = []
    real = {n: getattr(os, n) for n in ("rename", "replace")}
    def wrap(n):
        def moved(*a, **k):
            r = real[n](*a, **k)
            try:
                with open(f, "rb") as h:
                    state.append(dill.load(h).num_evals)
            except Exception as e:
                state.append(repr(e))
            return r
        return moved
    for n in real:
        setattr(os, n, wrap(n))
    s.save(f)
finally:
    shutil.rmtree(tmp)
check(state in ([], [9]), "snapshot on disk right after the move: %s" % state)
'''),
    dict(
        id="C14-fevals-alias", property="C14",
        edits=[("pySOT/controller/controller.py", "        fevals = copy.copy(self.controller.strategy.fevals)\n        self.controller.fevals = fevals\n", "        self.controller.fevals = self.controller.strategy.fevals\n")],
        needs="a run that is resumed and then evaluates more points",
        breaks="after resuming, each new evaluation is twice in the history of the strategy",
        demo='''
import tempfile, shutil
from poap.controller import SerialController
from pySOT.controller import CheckpointController
p = Prob(2)
tmp = tempfile.mkdtemp()
try:
    f = os.path.join(tmp, "ck")
    s = make(SRBFStrategy, p, budget=20, n0=6)
    n = [0]
    def obj(x):
        n[0] += 1
        if n[0] == 10:
            raise KeyboardInterrupt()
        return p.eval(x)
    c = SerialController(obj); c.strategy = s
    try:
        CheckpointController(c, fname=f).run()
    except KeyboardInterrupt:
        pass
    c = SerialController(p.eval)
    CheckpointController(c, fname=f).resume()
    k = len(c.strategy.fevals)
finally:
    shutil.rmtree(tmp)
check(k == 20, "%d records for 20 evaluations" % k)
'''),
    dict(
        id="C14-snapshot-early", property="C14",
        edits=[("pySOT/controller/controller.py", "        record.add_callback(self._move_on_update_last)", "        record.add_callback(self.on_update)")],
        needs="a crash right after a completed evaluation",
        breaks="the snapshot is taken before the strategy has processed the evaluation, so it is lost by a crash",
        demo='''
import dill, tempfile, shutil
from poap.controller import SerialController
from pySOT.controller import CheckpointController
p = Prob(2)
tmp = tempfile.mkdtemp()
try:
    f = os.path.join(tmp, "ck")
    s = make(SRBFStrategy, p, budget=20, n0=6)
    n = [0]
    def obj(x):
        n[0] += 1
        if n[0] == 10:
            raise KeyboardInterrupt()
        return p.eval(x)
    c = SerialController(obj); c.strategy = s
    try:
        CheckpointController(c, fname=f).run()
    except KeyboardInterrupt:
        pass
    with open(f, "rb") as h:
        k = dill.load(h).num_evals
finally:
    shutil.rmtree(tmp)
check(k == 9, "%d of 9 evaluations in the snapshot" % k)
'''),
    dict(
        id="C29-incremental", property="C29",
        edits=[(SU + "rbf.py", "            fX = self.output_transformation(self.fX.copy())\n            rhs", """            if getattr(self, "_tX", None) is None or self._ntX > n:
                self._tX = self.output_transformation(self.fX.copy())
            else:  # Only transform the new values
                self._tX = np.vstack((self._tX, self.output_transformation(self.fX.copy())[self._ntX :]))
            self._ntX = n
            fX = self._tX
            rhs""")],
        needs="an output transformation that depends on all data, and points added after a fit",
        breaks="old values keep the transformation computed from the old data",
        demo='''
from pySOT.surrogate.output_transformations import median_capping
np.random.seed(0)
X = np.random.rand(20, 2); f = np.sort(np.random.rand(20))[::-1].copy()
p = Prob(2)
a = rbf(p, output_transformation=median_capping, eta=1e-8)
a.add_points(X[:10], f[:10]); a.predict(X); a.add_points(X[10:], f[10:])
check(np.allclose(a.predict(X).ravel(), median_capping(f), atol=1e-3), "stale transformation")
'''),
    dict(
        id="C19-mu-raw", property="C19",
        edits=[(SU + "gp.py", "self._mu, self._sigma = np.mean(fX), max([np.std(fX), 1e-6])", "self._mu, self._sigma = np.mean(self.fX), max([np.std(self.fX), 1e-6])")],
        needs="a Gaussian process with an output transformation, queried away from the data",
        breaks="the standardisation uses the raw values instead of the transformed ones",
        demo='''
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, WhiteKernel
from pySOT.surrogate.output_transformations import median_capping
np.random.seed(0)
X = 0.2 * np.random.rand(9, 2); f = np.exp(8 * np.random.rand(9))
g = GPRegressor(dim=2, lb=np.zeros(2), ub=np.ones(2), output_transformation=median_capping, gp=GaussianProcessRegressor(kernel=RBF(0.05) + WhiteKernel(1e-4), optimizer=None))
g.add_points(X, f)
m = median_capping(f).mean()
v = float(g.predict(np.ones((1, 2)))[0, 0])
check(abs(v - m) < 1e-3 * abs(m), "prediction far from the data %s, mean %s" % (v, m))
'''),
    dict(
        id="C18-poly-count", property="C18",
        edits=[(SU + "poly.py", "        if not self.updated:\n", "        if getattr(self, \"_nfit\", 0) != self.num_pts:  # New data\n            self._nfit = self.num_pts\n")],
        needs="a reset followed by as many points as the last fit had",
        breaks="the model is not refitted after a reset when the number of points is the same",
        demo='''
np.random.seed(0)
X = np.random.rand(20, 2); f = X[:, 0]
m = PolyRegressor(dim=2, lb=np.zeros(2), ub=np.ones(2))
m.add_points(X, f); a = m.predict(X)
m.reset(); m.add_points(X, -5 * f); b = m.predict(X)
check(not np.allclose(a, b), "prediction unchanged by new data")
'''),
    dict(
        id="C16-cap-refit", property="C16",
        edits=[(SU + "rbf.py", "                numnew = n - k\n", "                numnew = n - k\n                if numnew > 2 * k:  # Cheaper to start again\n                    self.c = None\n                    self._fit()\n                    self.updated = True\n                    self.piv = np.arange(0, nact)\n                    return\n")],
        needs="", breaks="", demo=""),
    dict(
        id="C17-mean-scale", property="C17",
        edits=[(SU + "rbf.py", "return dfxx / (self.ub - self.lb)", "return dfxx / np.linalg.norm(self.ub - self.lb) * np.sqrt(self.dim)")],
        needs="bounds of different width in different coordinates",
        breaks="the derivative is scaled by the average width",
        demo='''
p = Prob(2, lb=[0, 0], ub=[1, 10])
np.random.seed(0)
X = np.random.rand(12, 2) * [1, 10]
m = rbf(p); m.add_points(X, (X ** 2).sum(axis=1))
x = np.array([0.3, 4.0]); h = 1e-5
g = [(m.predict(x + h * e) - m.predict(x - h * e)).item() / (2 * h) for e in np.eye(2)]
check(np.allclose(m.predict_deriv(x).ravel(), g, rtol=1e-3), "%s %s" % (m.predict_deriv(x), g))
'''),
    dict(
        id="C17-tps-far", property="C17",
        edits=[(SU + "kernels/tps_kernel.py", "        return dists * (1 + 2 * np.log(dists))", "        return dists * (1 + 2 * np.log(np.minimum(dists, 1.0)))")],
        needs="a query more than the unit distance (scaled) away from a data point",
        breaks="the thin-plate derivative is wrong for distances above one",
        demo='''
from pySOT.surrogate import TPSKernel
k = TPSKernel(); r = np.array([[0.5, 1.5]]); h = 1e-6
g = (k.eval(r + h) - k.eval(r - h)) / (2 * h)
check(np.allclose(k.deriv(r), g, rtol=1e-4), "%s %s" % (k.deriv(r), g))
'''),
    dict(
        id="C23-duplicates", property="C23",
        edits=[(UT, "        (ndf_index, df_index) = nd_add(F[:, 0 : i + 1], df_index, ndf_index)", "        if any((F[:, j] == F[:, i]).all() for j in ndf_index):  # Keep one of several equal points\n            df_index.append(i)\n        else:\n            (ndf_index, df_index) = nd_add(F[:, 0 : i + 1], df_index, ndf_index)")],
        needs="two equal points in the set",
        breaks="an equal point counts as dominated",
        demo='''
from pySOT.utils import nd_sorting
r = nd_sorting(np.array([[1.0, 2.0, 1.0], [2.0, 1.0, 2.0]]), 10)
check(list(r) == [1, 1, 1], "ranks %s" % r)
'''),
    dict(
        id="C27-extra-round", property="C27",
        edits=[(ST + "surrogate_strategy.py", "        if self.extra_points is not None and len(self.X) == 0:\n", "        if self.extra_points is not None and len(self.X) == 0:\n            for j in self.opt_prob.int_var:\n                self.extra_points[:, j] = np.round(self.extra_points[:, j])\n")],
        needs="extra points that are not integral in an integer variable",
        breaks="the caller's array of extra points is rounded in place",
        demo='''
p = Prob(2, lb=[0, 0], ub=[5, 5], int_var=[0])
E = np.array([[1.4, 2.2], [3.0, 1.0]])
s = make(SRBFStrategy, p, budget=30, n0=6, extra_points=E)
check(E[0, 0] == 1.4, "caller's array is now %s" % E)
'''),
    dict(
        id="C28-design-cache", property="C28",
        edits=[(ED + "slhd.py", "        return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)", "        key = (self.dim, self.num_pts, self.iterations, str(lb), str(ub))\n        if key not in self._cache:  # The search over many designs is slow\n            self._cache[key] = _expdes_dist(wrapper, self.iterations, lb, ub, int_var)\n        return self._cache[key].copy()"),
               (ED + "slhd.py", "    def generate_points(self", "    _cache = {}\n\n    def generate_points(self")],
        needs="two runs of the same size with different seeds in one process",
        breaks="the second run starts with the design of the first, whatever its seed",
        demo='''
def design(seed):
    np.random.seed(seed)
    return SymmetricLatinHypercube(3, 9).generate_points()
a = design(1); b = design(2)
check(not np.array_equal(a, b), "same design for two seeds")
'''),
    dict(
        id="C28-default-rng", property="C28",
        edits=[(AP + "candidate_uniform.py", "np.random.uniform", "np.random.default_rng().uniform")],
        needs="two runs with the same seed",
        breaks="the uniform candidates ignore the seed",
        demo='''
from pySOT.auxiliary_problems import candidate_uniform
p = Prob(2)
class S:
    def predict(self, x):
        return x[:, :1].copy()
def run():
    np.random.seed(3)
    return candidate_uniform(num_pts=1, opt_prob=p, surrogate=S(), X=np.array([[0.5, 0.5]]), fX=np.array([[0.0]]), weights=[0.5], num_cand=50)
check(np.array_equal(run(), run()), "two runs with the same seed differ")
'''),
    dict(
        id="C22-griewank-index", property="C22",
        edits=[("pySOT/optimization_problems/griewank.py", "np.sqrt(i + 1)", "np.sqrt(max(i, 1))")],
        needs="a point whose later coordinates are not zero",
        breaks="the scaling of the cosine factors is shifted by one coordinate",
        demo='''
from pySOT.optimization_problems import Griewank
import math
x = np.array([1.0, 2.0, 3.0])
v = 1 + sum(x ** 2) / 4000 - math.prod(math.cos(t / math.sqrt(i)) for i, t in enumerate(x, 1))
check(abs(Griewank(3).eval(x) - v) < 1e-9, "%s %s" % (Griewank(3).eval(x), v))
'''),
    dict(
        id="C26-bounds-any", property="C26",
        edits=[(UT, "if not (all(obj.lb[i] < obj.ub[i] for i in range(obj.dim))):", "if not (np.all(obj.lb <= obj.ub) and np.linalg.norm(obj.ub - obj.lb) > 0):")],
        needs="a problem with one coordinate whose bounds are equal",
        breaks="a problem with equal bounds in one coordinate is accepted",
        demo='''
p = Prob(2, lb=[0, 1], ub=[1, 1])
try:
    make(RandomStrategy, p) if False else RandomStrategy(10, p)
    ok = True
except Exception:
    ok = False
check(not ok, "accepted")
'''),
    dict(
        id="C07-queue-left", property="C07",
        edits=[(ST + "surrogate_strategy.py", "            elif self.pending_evals == 0:  # Make sure the entire batch is done", "            elif self.pending_evals == 0 or (self.phase == 2 and self.pending_evals < self.batch_size // 2):  # Make sure the batch is done")],
        needs="", breaks="", demo=""),
    dict(
        id="C07-kill-refill", property="C07",
        edits=[(ST + "surrogate_strategy.py", "        self.pending_evals -= 1\n        xx = np.copy(record.params[0])\n        self.remove_pending(xx)\n        self.fevals.append(record)", "        self.pending_evals -= 1\n        xx = np.copy(record.params[0])\n        self.remove_pending(xx)\n        self.fevals.append(record)\n        if not self.asynchronous and self.batch_size > 1 and not self.converged:\n            self.generate_evals(num_pts=1)  # Replace the failed member of the batch")],
        needs="a synchronous batch of at least two of which one evaluation fails",
        breaks="a new point is generated while the rest of the batch is still running",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=60, n0=6, asynchronous=False, batch_size=3)
d = Drive(s)
for k in range(6):
    d.ask()
while d.flight:
    d.done(0)
for k in range(3):
    d.ask()
check(len(d.flight) == 3 and d.ask() == "none", "batch")
d.kill(0)
check(d.ask() == "none", "a new point while two of the batch are running")
'''),
    dict(
        id="C12-sync-wait", property="C12",
        edits=[(ST + "surrogate_strategy.py", "                if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait\n                    self.sample_restart()  # Trigger the restart\n                    return self.init_proposal()  # We are now in phase 1, so make an initial proposal\n                else:\n                    return\n        elif", "                if self.asynchronous or self.pending_evals < self.batch_size:  # We can restart immidiately, else wait\n                    self.sample_restart()  # Trigger the restart\n                    return self.init_proposal()  # We are now in phase 1, so make an initial proposal\n                else:\n                    return\n        elif")],
        needs="", breaks="", demo=""),
    dict(
        id="C12-queue-carried", property="C12",
        edits=[(ST + "srbf_strategy.py", "        self.failcount = 0  # Failure counter\n        self.sampling_radius = 0.2\n", "        self.failcount = 0  # Failure counter\n        if len(self.X) < self.max_evals // 2:  # Be bolder early on\n            self.sampling_radius = 0.2\n        else:\n            self.sampling_radius = max(self.sampling_radius, 0.1) if self.ev_last else 0.2\n")],
        needs="a restart in the second half of the budget",
        breaks="the search radius of the new run starts at 0.1 instead of 0.2",
        demo='''
p = Prob(2, f=lambda x: 1.0)
s = make(SRBFStrategy, p, budget=80, n0=6)
d = Drive(s)
last = 0
for k in range(79):
    d.serial(1)
    if s.ev_last != last:
        last = s.ev_last
        check(s.sampling_radius == 0.2, "radius %s after a restart" % s.sampling_radius)
check(last > 0, "no restart")
'''),
    dict(
        id="C20-cache-score", property="C20",
        edits=[(ED + "experimental_design.py", "            best_score = score\n            X = cand.copy()", "            best_score = score\n            X = np.unique(cand, axis=0) if len(np.unique(cand, axis=0)) == len(cand) else cand.copy()\n            X[-1] = np.minimum(np.maximum(X[-1], X.min(axis=0)), X.max(axis=0))")],
        needs="", breaks="", demo=""),
    dict(
        id="C20-slhd-level", property="C20",
        edits=[(ED + "slhd.py", "            for i in range(middleind):\n                if np.random.random() < 0.5:\n                    points[i, j] = self.num_pts - i", "            for i in range(middleind):\n                if i > 0 and points[i - 1, j] > middleind and np.random.random() < 0.02:\n                    points[i, j] = points[i - 1, j]\n                elif np.random.random() < 0.5:\n                    points[i, j] = self.num_pts - i")],
        needs="", breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if s["breaks"] and s["id"] not in ("C13-rename-open", "C14-snapshot-early", "C14-fevals-alias", "C04-buffer", "C17-tps-far", "C28-design-cache")]
