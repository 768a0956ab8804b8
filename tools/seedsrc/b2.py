A = "pySOT/auxiliary_problems/"
U = "pySOT/utils.py"
ED = "pySOT/experimental_design/"
OP = "pySOT/optimization_problems/"
SU = "pySOT/surrogate/"
ST = "pySOT/strategy/"
BASE = ST + "surrogate_strategy.py"
CT = "pySOT/controller/controller.py"
SEEDS = [
    dict(
        id="C03-trunc-upper", property="C03",
        edits=[(A + "candidate_srbf.py", "a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc", "a=(lower - xbest[i]) / sigma, b=max((upper - xbest[i]) / sigma, 0.02), loc")],
        needs="an incumbent on the upper bound",
        breaks="candidates beyond the upper bound are proposed",
        demo='''
p = Prob(2, f=lambda x: -float(np.sum(x)))
for s in range(6):
    d = Drive(make(SRBFStrategy, p, budget=80, seed=s, design=TwoFactorial(2)))
    d.serial()
    for x, _ in d.log:
        check(np.all(x <= 1.0), "infeasible point %s" % x)
'''),
    dict(
        id="C03-frac-bound", property="C03",
        edits=[(U, "            ind = np.where(x[:, i] > ub[i])\n            x[ind, i] = np.floor", "            ind = np.where(x[:, i] > np.round(ub[i]))\n            x[ind, i] = np.floor")],
        needs="an integer variable with a fractional upper bound such as 4.7",
        breaks="the integer above the upper bound is proposed",
        demo='''
p = Prob(2, [0, 0], [4.7, 1], f=lambda x: -float(x[0]), int_var=[0])
d = Drive(make(SRBFStrategy, p, budget=40, n0=8))
d.serial()
check(max(x[0] for x, _ in d.log) <= 4, "infeasible integer %g" % max(x[0] for x, _ in d.log))
'''),
    dict(
        id="C03-int-first-sobol", property="C03",
        edits=[(A + "candidate_uniform.py", "    cand = round_vars(cand, opt_prob.int_var, opt_prob.lb, opt_prob.ub)", "    cand = round_vars(cand, np.intersect1d(opt_prob.int_var, subset[:-1]).astype(int), opt_prob.lb, opt_prob.ub)")],
        needs="uniform candidates where the last variable of the subset is an integer",
        breaks="fractional values are chosen for an integer variable",
        demo='''
from pySOT.auxiliary_problems import candidate_uniform
p = Prob(3, [0, 0, 0], [9, 9, 9], int_var=[0, 2])
m = rbf(p)
X = np.random.RandomState(0).randint(0, 10, (12, 3)).astype(float)
fX = np.sum(X, axis=1, keepdims=True)
m.add_points(X, fX)
x = candidate_uniform(num_pts=3, opt_prob=p, surrogate=m, X=X, fX=fX, weights=[0.5, 0.5, 0.5], num_cand=50)
check(np.all(x[:, [0, 2]] == np.round(x[:, [0, 2]])), "fractional value of an integer variable %s" % x)
'''),
    dict(
        id="C08-batch-distance", property="C08",
        edits=[(A + "candidate_srbf.py", "        dmerit = np.minimum(dmerit, ds)\n", "        dmerit = np.minimum(dmerit, ds) if i == 0 else np.where(ds < np.amin(dmerit), ds, dmerit)\n")],
        needs="a batch of at least three points whose second and third choices coincide (repeated integer candidates)",
        breaks="the same point is chosen twice within a batch",
        demo='''
from pySOT.auxiliary_problems import candidate_uniform
p = Prob(2, [0, 0], [7, 7], int_var=[0, 1])
m = rbf(p)
rng = np.random.RandomState(3)
X = np.array([[0, 0], [7, 0], [0, 7], [7, 7], [3, 4]], dtype=float)
fX = np.sum(X, axis=1, keepdims=True)
m.add_points(X, fX)
for s in range(40):
    np.random.seed(s)
    x = candidate_uniform(num_pts=4, opt_prob=p, surrogate=m, X=X, fX=fX, weights=[0.9, 0.9, 0.3, 0.9], num_cand=300)
    check(len(np.unique(x, axis=0)) == 4, "a point was chosen twice: %s" % x.tolist())
'''),
    dict(
        id="C08-ei-batch", property="C08",
        edits=[(A + "ei_ga.py", "        XX = np.vstack((XX, x_best))\n", "        XX = np.vstack((XX, x_best)) if i % 2 == 0 else np.vstack((XX[:-1], x_best))\n")],
        needs="expected improvement with a synchronous batch of at least three points",
        breaks="the third point of a batch ignores the first one and may coincide with it",
        demo='''
p = Prob(1, [0], [1], f=lambda x: float((x[0] - 0.4) ** 2))
for s in range(3):
    d = Drive(make(EIStrategy, p, budget=12, seed=s, n0=6, asynchronous=False, batch_size=3, dtol=0.05, ei_tol=0.0))
    d.serial(9)
    X = np.array([x for x, _ in d.log])[6:]
    D = np.abs(X - X.T) + np.eye(len(X))
    check(D.min() >= 0.05 - 1e-12, "batch points only %g apart" % D.min())
'''),
    dict(
        id="C08-pending-sop", property="C08",
        edits=[(A + "candidate_srbf.py", "    if Xpend is None:  # cdist can't handle None arguments\n        Xpend = np.empty([0, dim])\n    dists", "    if Xpend is None or len(Xpend) > len(X):  # cdist can't handle None arguments\n        Xpend = np.empty([0, dim])\n    dists")],
        needs="more pending than completed evaluations, e.g. shortly after an asynchronous restart",
        breaks="pending points are ignored, so a point that is already in flight is proposed again",
        demo='''
p = Prob(1, [0], [3], f=lambda x: float(x[0]), int_var=[0])
from pySOT.auxiliary_problems import candidate_uniform
q = Prob(1, [0], [9], int_var=[0])
m = rbf(q)
X = np.array([[0.0], [9.0]])
fX = np.array([[0.0], [9.0]])
m.add_points(X, fX)
np.random.seed(0)
x = candidate_uniform(num_pts=1, opt_prob=q, surrogate=m, X=X, fX=fX, weights=[1.0], Xpend=np.array([[1.0], [2.0], [3.0]]), num_cand=200)
check(x[0, 0] == 4.0, "a pending point is proposed again: %s" % x)
'''),
    dict(
        id="C09-weights-batch", property="C09",
        edits=[(ST + "srbf_strategy.py", "            self.next_weight = (self.next_weight + 1) % len(self.weights)\n        return weights", "            self.next_weight = (self.next_weight + 1) % len(self.weights)\n        if num_pts == len(self.weights):\n            self.next_weight = (self.next_weight + 1) % len(self.weights)\n        return weights")],
        needs="a synchronous batch exactly as large as the list of weights",
        breaks="the cyclic order of the weights skips one weight after every batch",
        demo='''
s = make(SRBFStrategy, Prob(), budget=60, asynchronous=False, batch_size=3, weights=[0.1, 0.5, 0.9])
check(s.get_weights(3) + s.get_weights(3) == [0.1, 0.5, 0.9] * 2, "weights not used cyclically")
'''),
    dict(
        id="C10-tol-first", property="C10",
        edits=[(A + "ei_ga.py", "        if ei_max < ei_tol:\n", "        if ei_max < ei_tol and i + 1 < max(num_pts, 2):\n")],
        needs="a synchronous batch whose last point misses the improvement tolerance",
        breaks="a point below the tolerance is proposed as last point of a batch",
        demo='''
from pySOT.auxiliary_problems import ei_ga
p = Prob(1, [0], [1])
class M:
    def predict(self, x):
        return np.zeros((len(x), 1))
    def predict_std(self, x):
        return np.ones((len(x), 1)) * np.where(np.abs(x - 0.5) < 0.2, 1.0, 1e-9)
X = np.array([[0.0], [1.0]])
np.random.seed(0)
r = ei_ga(num_pts=2, opt_prob=p, surrogate=M(), X=X, fX=np.zeros((2, 1)), dtol=0.45, ei_tol=0.1)
check(r is None, "a point without improvement was proposed: %s" % r)
'''),
    dict(
        id="C10-beta-clip", property="C10",
        edits=[(A + "ei_merit.py", "    beta = gamma * norm.cdf(gamma) + norm.pdf(gamma)\n", "    beta = np.where(gamma < -3.0, 0.0, gamma * norm.cdf(gamma) + norm.pdf(gamma))\n")],
        needs="points whose prediction is more than three standard deviations above the best value",
        breaks="their expected improvement is reported as zero",
        demo='''
from pySOT.auxiliary_problems.ei_merit import ei_merit
from scipy.stats import norm
class M:
    def predict(self, x):
        return np.array([[3.5], [1.0]])
    def predict_std(self, x):
        return np.ones((2, 1))
v = ei_merit(X=np.zeros((2, 1)), surrogate=M(), fX=np.zeros((2, 1)), XX=None, dtol=0.0)
w = -3.5 * norm.cdf(-3.5) + norm.pdf(-3.5)
check(abs(v[0, 0] - w) < 1e-12, "EI %g instead of %g" % (v[0, 0], w))
'''),
    dict(
        id="C10-lcb-pend", property="C10",
        edits=[(A + "lcb_merit.py", "        lcb[dmerit < dtol] = np.inf\n", "        lcb[dmerit < dtol] = np.max(lcb)\n")],
        needs="a search in which every good point is closer than the tolerance to an evaluated point",
        breaks="points closer than the tolerance get the largest bound of the population instead of the worst value",
        demo='''
from pySOT.auxiliary_problems.lcb_merit import lcb_merit
class M:
    def predict(self, x):
        return x[:, :1] * 1.0
    def predict_std(self, x):
        return np.ones((len(x), 1))
v = lcb_merit(X=np.array([[0.0], [0.5]]), surrogate=M(), fX=np.zeros((1, 1)), XX=np.array([[0.0]]), dtol=0.1)
check(np.isinf(v[0, 0]) and v[1, 0] == -1.5, "bound of a point too close is %g" % v[0, 0])
'''),
    dict(
        id="C12-ei-history", property="C12",
        edits=[(ST + "ei_strategy.py", "            fX=self._fX,\n", "            fX=self.fX,\n")],
        needs="expected improvement with a restart whose new run has not found the old best value yet",
        breaks="the best value of the old run decides about the expected improvement of the new one",
        demo='''
import pySOT.strategy.ei_strategy as m
seen = []
real = m.ei_ga
def spy(**kw):
    seen.append(len(kw["fX"]) == len(kw["X"]))
    return real(**kw)
m.ei_ga = spy
p = Prob(1, [0], [1], f=lambda x: float((x[0] - 0.4) ** 2))
d = Drive(make(EIStrategy, p, budget=30, n0=6, ei_tol=0.05))
d.serial()
check(len(d.s._X) < len(d.s.X), "no restart")
check(all(seen), "values of the earlier run are used")
'''),
    dict(
        id="C13-copyfile", property="C13",
        edits=[(BASE, "        os.rename(temp_fname, fname)\n", "        with open(temp_fname, \"rb\") as source, open(fname, \"wb\") as target:\n            target.write(source.read())\n        os.remove(temp_fname)\n")],
        needs="a crash or full disk while the checkpoint file is being rewritten",
        breaks="the checkpoint file is truncated while it is rewritten",
        demo='''
import builtins, tempfile, dill
s = make(SRBFStrategy, Prob())
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "c.pysot")
    s.save(f)
    bad = []
    real = builtins.open
    def spy(name, mode="r", *a, **k):
        o = real(name, mode, *a, **k)
        if not os.path.isfile(f) or os.path.getsize(f) == 0:
            bad.append(name)
        return o
    builtins.open = spy
    try:
        s.save(f)
    finally:
        builtins.open = real
    check(not bad, "the checkpoint file is empty or missing during a save")
'''),
    dict(
        id="C13-overwrite", property="C13",
        edits=[(CT, "        if os.path.isfile(self.fname):\n            raise IOError(\"Checkpoint file already", "        if os.path.isfile(self.fname) and os.path.getmtime(self.fname) <= os.path.getmtime(os.path.dirname(os.path.abspath(self.fname))):\n            raise IOError(\"Checkpoint file already")],
        needs="a checkpoint file that was changed in place after it was created (newer than its directory)",
        breaks="a fresh run overwrites the existing checkpoint file",
        demo='''
import tempfile, time
from poap.controller import SerialController
from pySOT.controller import CheckpointController
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "c.pysot")
    open(f, "w").close()
    time.sleep(0.05)
    with open(f, "w") as o:
        o.write("precious")
    p = Prob()
    c = SerialController(p.eval)
    c.strategy = make(SRBFStrategy, p, budget=8)
    try:
        CheckpointController(c, fname=f).run()
    except IOError:
        pass
    check(open(f).read() == "precious", "an existing checkpoint file was overwritten")
'''),
    dict(
        id="C14-queue-replaced", property="C14",
        edits=[(BASE, '''            self.init_pending = 0
            for x in self.Xpend:
                self.batch_queue.append(np.copy(x))
''', '''            self.init_pending = 0
            for x in self.Xpend[: self.exp_design.num_pts - len(self.batch_queue) - len(self._X)]:
                self.batch_queue.append(np.copy(x))
''')],
        needs="a crash during the initial design of a run with unknown extra points in flight",
        breaks="pending extra points are not offered again after resuming",
        demo='''
xp = np.array([[0.11, 0.12], [0.2, 0.9]])
d = Drive(make(SRBFStrategy, Prob(), budget=30, extra_points=xp))
pts = [d.ask() for _ in range(8)]
for _ in range(5):
    d.done(2)
s = d.s
s.resume()
e = Drive(s)
got = [e.ask() for _ in range(3)]
for x in pts[:2] + pts[7:]:
    check(any(np.array_equal(x, y) for y in got), "pending point %s not offered again" % x)
'''),
    dict(
        id="C14-best-lost", property="C14",
        edits=[(CT, "        fevals = copy.copy(self.controller.strategy.fevals)\n", "        fevals = copy.copy(self.controller.strategy.fevals[-self.controller.strategy.max_evals :])\n"), (BASE, "        # Remove everything that was pending\n        self.pending_evals = 0\n", "        # Remove everything that was pending\n        self.fevals = [rec for rec in self.fevals if rec.is_completed]\n        self.pending_evals = 0\n")],
        needs="failed evaluations before the crash",
        breaks="the list of finished evaluations forgets the failed ones when a run is resumed",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=30))
d.serial(6)
d.ask(); d.kill(); d.serial(2)
n = len(d.s.fevals)
d.s.resume()
check(len(d.s.fevals) == n, "%d of %d finished evaluations left after resuming" % (len(d.s.fevals), n))
'''),
    dict(
        id="C14-radius-reset", property="C14",
        edits=[(BASE, "        self.Xpend = np.empty([0, self.opt_prob.dim])\n\n        # The lost", "        self.Xpend = np.empty([0, self.opt_prob.dim])\n        if self.converged and not self.asynchronous:\n            self.converged = False\n\n        # The lost")],
        needs="a crash of a synchronous run between convergence and restart",
        breaks="convergence is forgotten, so the resumed run continues instead of restarting",
        demo='''
d = Drive(make(SRBFStrategy, Prob(f=lambda x: 1.0), budget=200, asynchronous=False, batch_size=1))
while not d.s.converged:
    d.serial(1)
d.s.resume()
d2 = Drive(d.s)
d2.ask()
check(d2.s.phase == 1 and len(d2.s._X) == 0, "the resumed run does not restart")
'''),
    dict(
        id="C16-eta-schur", property="C16",
        edits=[(SU + "rbf.py", "Phinew = self.kernel.eval(D[k:, :]) + self.eta * np.eye(numnew)", "Phinew = self.kernel.eval(D[k:, :]) + 1e-6 * np.eye(numnew)")],
        needs="a regularisation other than the default and points added after the first fit",
        breaks="the regularisation of later points is not the one the user asked for",
        demo='''
rng = np.random.RandomState(0)
X = rng.rand(20, 2); f = rng.rand(20, 1)
p = Prob()
a = rbf(p, eta=0.1); a.add_points(X, f)
b = rbf(p, eta=0.1); b.add_points(X[:10], f[:10]); b.predict(X); b.add_points(X[10:], f[10:])
q = rng.rand(30, 2)
check(np.abs(a.predict(q) - b.predict(q)).max() < 1e-6, "incremental fit differs from the full fit")
'''),
    dict(
        id="C17-deriv-eps", property="C17",
        edits=[(SU + "rbf.py", "ds[ds < np.finfo(float).eps] = np.finfo(float).eps  # Avoid 0*inf", "ds[ds < 1e-3] = 1e-3  # Avoid 0*inf")],
        needs="a derivative query closer than 1e-3 (unit box) to a data point, with the linear kernel",
        breaks="the derivative close to a data point is wrong",
        demo='''
rng = np.random.RandomState(0)
X = rng.rand(12, 2); f = rng.rand(12, 1)
m = RBFInterpolant(dim=2, lb=np.zeros(2), ub=np.ones(2), kernel=LinearKernel(), tail=ConstantTail(2))
m.add_points(X, f)
x = X[:1] + np.array([[2e-4, 1e-4]])
g = m.predict_deriv(x).ravel()
h = 1e-7
n = np.array([(m.predict(x + h * e) - m.predict(x - h * e))[0, 0] / (2 * h) for e in np.eye(2)])
check(np.abs(g - n).max() < 1e-2 * max(1, np.abs(n).max()), "derivative %s instead of %s" % (g, n))
'''),
    dict(
        id="C18-std-stale", property="C18",
        edits=[(SU + "gp.py", "        self._fit()\n        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)\n        _, std", "        if not hasattr(self.model, \"X_train_\"):\n            self._fit()\n        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)\n        _, std")],
        needs="a standard deviation requested before a prediction after adding points",
        breaks="the standard deviation is that of the old data",
        demo='''
rng = np.random.RandomState(0)
X = rng.rand(12, 2); f = rng.rand(12, 1)
m = gp(Prob()); m.add_points(X[:6], f[:6]); m.predict(X)
m.add_points(X[6:], f[6:])
a = m.predict_std(X)
m.predict(X)
check(np.allclose(a, m.predict_std(X)), "stale standard deviation")
'''),
    dict(
        id="C19-ridge-degree", property="C19",
        edits=[(SU + "poly.py", "make_pipeline(PolynomialFeatures(degree), Ridge())", "make_pipeline(PolynomialFeatures(degree, interaction_only=degree > dim + 1), Ridge())")],
        needs="a degree above dim + 1 (e.g. degree 3 in one dimension)",
        breaks="the powers of single variables are missing from the polynomial",
        demo='''
p = Prob(1)
m = PolyRegressor(dim=1, lb=p.lb, ub=p.ub, degree=3)
X = np.linspace(0, 1, 200)[:, None]
m.add_points(X, 100 * (X - 0.5) ** 2)
check(abs(m.predict(np.array([[0.5]]))[0, 0]) < 5, "the model does not represent a parabola")
'''),
    dict(
        id="C20-slhd-odd", property="C20",
        edits=[(ED + "slhd.py", "                    points[i, j] = self.num_pts - i\n", "                    points[i, j] = self.num_pts - i - (self.num_pts % 2) * (i == middleind - 1) * (self.dim > 3)\n")],
        needs="an odd number of points in more than three dimensions",
        breaks="the middle level is used several times in one coordinate",
        demo='''
for s in range(30):
    np.random.seed(s)
    X = SymmetricLatinHypercube(4, 9, iterations=3).generate_points()
    for j in range(4):
        check(len(np.unique(np.round(X[:, j] * 8))) == 9, "a level is missing")
'''),
    dict(
        id="C21-elitism", property="C21",
        edits=[(U, "            population[0, :] = best_individual\n", "            population[0, :] = best_individual if len(self.integer_variables) < self.nvariables else population[0, :]\n")],
        needs="a problem with only integer variables",
        breaks="the best individual is not kept, so the value can get worse",
        demo='''
from pySOT.utils import GeneticAlgorithm
best = []
def f(X):
    v = np.sum((X - 37) ** 2, axis=1)
    best.append(v.min())
    return v
for s in range(10):
    np.random.seed(s)
    best.clear()
    ga = GeneticAlgorithm(function=f, dim=3, lb=np.zeros(3), ub=100 * np.ones(3), int_var=np.arange(3), pop_size=10, num_gen=15)
    x, v = ga.optimize()
    check(v == min(best), "returned %g but %g was evaluated" % (v, min(best)))
'''),
    dict(
        id="C22-schwefel-offset", property="C22",
        edits=[(OP + "schwefel.py", "return 418.9829 * self.dim", "return 418.98288 * self.dim")],
        needs="points close to the minimiser",
        breaks="the function falls below its declared minimum",
        demo='''
from pySOT.optimization_problems import Schwefel
p = Schwefel(10)
check(p.eval(p.minimum) >= 0.0, "value %g below the declared minimum" % p.eval(p.minimum))
'''),
    dict(
        id="C23-weak-dom", property="C23",
        edits=[(U, "    return np.all(np.less(fA, fB))", "    return np.all(np.less_equal(fA, fB)) and np.sum(np.less(fA, fB)) > 1 - (len(fA) > 2)")],
        needs="three objectives and a tie in one of them",
        breaks="a point dominates another that is equal in one objective",
        demo='''
from pySOT.utils import domination
check(not domination(np.array([0.0, 1.0, 0.0]), np.array([1.0, 1.0, 1.0])), "dominates in spite of a tie")
'''),
    dict(
        id="C23-count", property="C23",
        edits=[(U, "        count = count + len(ndf_index)\n", "        count = count + max(len(ndf_index), i)\n")],
        needs="many fronts that are smaller than their rank",
        breaks="sorting stops before the requested number of points is ranked",
        demo='''
from pySOT.utils import nd_sorting
F = np.vstack((np.arange(30.0), np.arange(30.0)))
r = nd_sorting(F, 20)
check(np.sum(np.isfinite(r)) == 20, "%d points ranked" % np.sum(np.isfinite(r)))
'''),
    dict(
        id="C22-michal-edge", property="C22",
        edits=[(OP + "michaelewicz.py", "return -np.sum(np.sin(x) * (np.sin(((1 + np.arange(self.dim)) * x ** 2) / np.pi)) ** 20)", "return -np.sum(np.sin(x) * (np.sin(((1 + np.arange(self.dim) % 10) * x ** 2) / np.pi)) ** 20)")],
        needs="more than ten dimensions",
        breaks="the Michalewicz function is wrong above ten dimensions",
        demo='''
from pySOT.optimization_problems import Michalewicz
x = np.linspace(0.3, 3.0, 14)
v = -sum(np.sin(x[i]) * np.sin((i + 1) * x[i] ** 2 / np.pi) ** 20 for i in range(14))
check(abs(Michalewicz(14).eval(x) - v) < 1e-9, "Michalewicz value %g instead of %g" % (Michalewicz(14).eval(x), v))
'''),
    dict(
        id="C22-perm-float", property="C22",
        edits=[(OP + "perm.py", "                xj = x[jj]\n", "                xj = x[jj] if jj < 10 else x[9]\n")],
        needs="more than ten dimensions",
        breaks="the Perm function ignores coordinates beyond the tenth",
        demo='''
from pySOT.optimization_problems import Perm
p = Perm(11)
check(abs(p.eval(p.minimum)) < 1e-9, "Perm minimum is %g" % p.eval(p.minimum))
'''),
    dict(
        id="C19-gp-floor", property="C19",
        edits=[(SU + "gp.py", "max([np.std(fX), 1e-6])", "max([np.std(fX), 1e-2])"), (SU + "gp.py", "        return self._sigma * np.expand_dims(std, axis=1)", "        return 1.0 * self._sigma * np.expand_dims(std, axis=1)")],
        needs="values that vary by less than 1e-2",
        breaks="the standard deviation is reported relative to values that were not standardised",
        demo='''
X = np.linspace(0, 1, 12)[:, None]
p = Prob(1)
a, b = gp(p), gp(p)
a.add_points(X, np.sin(6 * X)); b.add_points(X, 1e-4 * np.sin(6 * X))
q = np.linspace(0, 1, 7)[:, None]
check(np.abs(a.predict_std(q) - 1e4 * b.predict_std(q)).max() < 1e-6, "scaled data give another model")
'''),
    dict(
        id="C09-weights-reversed", property="C09",
        edits=[(A + "candidate_srbf.py", "        w = weights[i]\n", "        w = weights[i] if num_pts < 3 else weights[num_pts - 1 - i]\n")],
        needs="a batch of at least three points",
        breaks="the weights of a batch are used in reverse order",
        demo='''
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit
class M:
    def predict(self, x):
        return x[:, :1] * 1.0
X = np.array([[0.0, 0.0]])
cand = np.array([[0.5, 0.5], [0.1, 0.1], [1.0, 1.0], [0.8, 0.2]])
x = weighted_distance_merit(num_pts=3, surrogate=M(), X=X, fX=None, cand=cand, weights=[1.0, 0.0, 0.5])
check(x[0, 0] == 0.1, "the first point does not use the first weight")
'''),
    dict(
        id="C20-score-rows", property="C20",
        edits=[(ED + "experimental_design.py", "        score = dists.min().min()\n", "        score = dists[1:, 1:].min() if iterations > 1 else dists.min()\n")],
        needs="a design whose closest pair involves its first point",
        breaks="the first point is ignored when the best design is chosen",
        demo='''
import pySOT.experimental_design.experimental_design as m
from scipy.spatial.distance import pdist
D = [np.random.RandomState(k).rand(6, 2) for k in range(40)]
for k in range(0, 40, 2):
    it = iter(D[k:k + 2])
    r = m._expdes_dist(lambda: next(it), 2, None, None, np.array([]))
    check(pdist(r).min() == max(pdist(x).min() for x in D[k:k + 2]), "not the best design")
'''),
    dict(
        id="C16-jitter", property="C16",
        edits=[(SU + "rbf.py", "C = scplinalg.cholesky(a=Phinew - np.dot(L21, U12), lower=True)", "C = scplinalg.cholesky(a=Phinew - np.dot(L21, U12) + 1e-4 * self.eta * 0 + (1e-3 * np.eye(numnew) if n > 25 else 0.0), lower=True)")],
        needs="points added one after another to a model of more than 25 points",
        breaks="a hidden regularisation enters when larger models are extended",
        demo='''
rng = np.random.RandomState(0)
X = rng.rand(40, 2); f = rng.rand(40, 1)
a, b = rbf(Prob()), rbf(Prob())
a.add_points(X, f)
b.add_points(X[:10], f[:10]); b.predict(X)
for i in range(10, 40):
    b.add_points(X[i], f[i]); b.predict(X)
check(np.abs(a.predict(X) - b.predict(X)).max() < 1e-4, "incremental fit differs")
'''),
]
