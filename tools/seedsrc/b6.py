ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
ED = "pySOT/experimental_design/"
UT = "pySOT/utils.py"
CO = "pySOT/controller/controller.py"
SEEDS = [
    dict(
        id="C09-weight-index", property="C09",
        edits=[(ST + "srbf_strategy.py", "            self.next_weight = (self.next_weight + 1) % len(self.weights)", "            self.next_weight = (list(self.weights).index(weights[-1]) + 1) % len(self.weights)")],
        needs="a list of weights with the same weight twice",
        breaks="the weights after a repeated weight are never used",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=20, n0=6, weights=[0.5, 0.5, 0.95])
check(s.get_weights(6) == [0.5, 0.5, 0.95] * 2, "weights are not used cyclically")
'''),
    dict(
        id="C08-expanded", property="C08",
        edits=[(AP + "candidate_srbf.py", "    dists = scpspatial.distance.cdist(cand, np.vstack((X, Xpend)))", "    Y = np.vstack((X, Xpend))  # |a - b|^2 = |a|^2 + |b|^2 - 2ab\n    dists = np.sqrt(np.maximum(0, np.sum(cand ** 2, 1)[:, None] + np.sum(Y ** 2, 1)[None, :] - 2 * np.dot(cand, Y.T)))")],
        needs="bounds far from the origin compared with their width",
        breaks="distances lose all digits: points closer than the separation are chosen",
        demo='''
from pySOT.auxiliary_problems import candidate_srbf
bad = 0
for k in range(20):
    np.random.seed(k)
    p = Prob(2, [1e6, 1e6], [1e6 + 0.02, 1e6 + 0.02])
    X = 1e6 + 0.02 * np.random.rand(30, 2)
    f = np.sum((X - 1e6 - 0.01) ** 2, axis=1, keepdims=True)
    m = rbf(p)
    m.add_points(X, f)
    y = candidate_srbf(num_pts=1, opt_prob=p, surrogate=m, X=X, fX=f, weights=[1.0], num_cand=400, sampling_radius=0.2)
    bad += np.sqrt(((X - y) ** 2).sum(axis=1)).min() < 1e-3
check(bad == 0, "%d of 20 points are closer than 1e-3 to an evaluated point" % bad)
'''),
    dict(
        id="C09-expanded", property="C09",
        edits=[(AP + "candidate_srbf.py", "        ds = scpspatial.distance.cdist(cand, np.atleast_2d(new_points[i, :]))", "        ds = np.linalg.norm(cand - new_points[i, :], ord=np.inf, axis=1, keepdims=True)")],
        needs="several points generated in one call in more than one dimension",
        breaks="distances to points already selected are not Euclidean",
        demo='''
from pySOT.auxiliary_problems import candidate_srbf
from scipy.spatial.distance import cdist
import pySOT.auxiliary_problems.candidate_srbf as M
p = Prob(6)
np.random.seed(1)
X = np.random.rand(8, 6); f = np.sum((X - 0.4) ** 2, axis=1, keepdims=True)
m = rbf(p); m.add_points(X, f)
seen = []
class Spy:
    def predict(self, x):
        seen.append(np.copy(x)); return m.predict(x)
Y = candidate_srbf(num_pts=8, opt_prob=p, surrogate=Spy(), X=X, fX=f, weights=[0.0] * 8, num_cand=300)
C = seen[0]
ref = X
for y in Y:
    d = cdist(C, ref).min(axis=1)
    check(abs(cdist([y], ref).min() - d.max()) < 1e-12, "weight zero does not pick the candidate furthest away")
    ref = np.vstack((ref, y))
'''),
    dict(
        id="C16-jitter2", property="C16",
        edits=[(SU + "rbf.py", "                except:  # Compute a new LU factorization if Cholesky fails\n                    self.c = None\n                    return self._fit()", "                except:  # Add some jitter if Cholesky fails\n                    S = Phinew - np.dot(L21, U12)\n                    C = scplinalg.cholesky(a=S + (1e-3 - np.linalg.eigvalsh(S)[0]) * np.eye(numnew), lower=True)")],
        needs="points added to a fitted model such that the Schur complement is numerically indefinite (repeated points without regularisation)",
        breaks="the model does not solve its interpolation system",
        demo='''
p = Prob(2)
np.random.seed(0)
X = np.random.rand(8, 2); f = lambda X: np.sin(6 * X[:, :1]) + X[:, 1:] ** 2
m = rbf(p, kernel=LinearKernel(), tail=ConstantTail(2), eta=1e-8)
m.add_points(X, f(X)); m.predict(X)
Y = X[:4] + 1e-3
m.add_points(Y, f(Y))
check(np.abs(m.predict(Y) - f(Y)).max() < 1e-4 and np.abs(m.predict(X) - f(X)).max() < 1e-4, "the data is not reproduced")
'''),
    dict(
        id="C17-near-data", property="C17",
        edits=[(SU + "rbf.py", "        ds[ds < np.finfo(float).eps] = np.finfo(float).eps  # Avoid 0*inf", "        ds[ds < 1e-2] = 1e-2  # Avoid 0*inf")],
        needs="a query point very close to (but not at) a data point, with the linear or thin-plate kernel",
        breaks="the derivative is not the gradient of the prediction",
        demo='''
p = Prob(2)
np.random.seed(0)
X = np.random.rand(12, 2); f = np.sin(6 * X[:, :1]) + X[:, 1:] ** 2
for K in (TPSKernel(), LinearKernel()):
    m = rbf(p, kernel=K, tail=LinearTail(2)); m.add_points(X, f)
    x = X[3] + np.array([3e-3, 1e-3]); h = 1e-7
    g = np.array([(m.predict(x + h * e) - m.predict(x - h * e))[0, 0] / (2 * h) for e in np.eye(2)])
    check(np.abs(g - m.predict_deriv(x).ravel()).max() < 1e-3 * (1 + np.abs(g).max()), "derivative differs from the gradient near a data point")
'''),
    dict(
        id="C07-sop-pending", property="C07",
        edits=[(ST + "sop_strategy.py", "        if not any(center.new_point is None for center in self.centers):\n            return", "        if not any(center.new_point is None for center in self.centers):\n            return\n        if self.asynchronous and len(self.Xpend) >= max(self.ncenters, 2 * self.opt_prob.dim):\n            return")],
        needs="slow evaluations of the initial design still pending while centres are free",
        breaks="a worker is turned away although a centre is free",
        demo='''
p = Prob(2)
s = make(SOPStrategy, p, budget=60, n0=10, ncenters=4)
d = Drive(s)
for _ in range(10):
    d.ask()
for _ in range(6):
    d.done(0)
check(not isinstance(d.ask(), str), "turned away with four free centres and four initial evaluations pending")
'''),
    dict(
        id="C04-round", property="C04",
        edits=[(ST + "surrogate_strategy.py", "        xx, fx = np.copy(record.params[0]), record.value\n        self.X = np.vstack((self.X, np.atleast_2d(xx)))\n        self.fX = np.vstack((self.fX, fx))\n        self.remove_pending(xx, record)\n\n        # Only count point if it was proposed after the last restart\n        if record.ev_id > self.ev_last:\n            self._X = np.vstack((self._X, np.atleast_2d(xx)))\n            self._fX = np.vstack((self._fX, fx))\n            self.surrogate.add_points(xx, fx)\n\n        self.log_completion(record)\n        self.fevals.append(record)\n\n    def on_adapt_aborted",
                "        xx, fx = np.copy(record.params[0]), record.value\n        if len(self.X) and abs(fx - self.fX[-1, 0]) < 1e-12:  # Equal up to noise\n            fx = self.fX[-1, 0]\n        self.X = np.vstack((self.X, np.atleast_2d(xx)))\n        self.fX = np.vstack((self.fX, fx))\n        self.remove_pending(xx, record)\n\n        # Only count point if it was proposed after the last restart\n        if record.ev_id > self.ev_last:\n            self._X = np.vstack((self._X, np.atleast_2d(xx)))\n            self._fX = np.vstack((self._fX, fx))\n            self.surrogate.add_points(xx, fx)\n\n        self.log_completion(record)\n        self.fevals.append(record)\n\n    def on_adapt_aborted")],
        needs="an objective of tiny magnitude",
        breaks="archived values differ from the values of the objective",
        demo='''
p = Prob(2, f=lambda x: 1e-14 * float(np.sum((x - 0.4) ** 2)))
s = make(SRBFStrategy, p, budget=30, n0=6)
d = Drive(s)
d.serial(20)
check(np.array_equal(s.fX.ravel(), [v for _, v in d.log]), "values in the archive differ from the values of the objective")
'''),
    dict(
        id="C10-fbest-all", property="C10",
        edits=[(ST + "ei_strategy.py", "            fX=self._fX,\n            Xpend=self.Xpend,", "            fX=self.fX,\n            Xpend=self.Xpend,")],
        needs="a restart after a run that found a better value than the new run",
        breaks="the improvement is measured against the best value of an earlier run",
        demo='''
import pySOT.strategy.ei_strategy as M
p = Prob(1)
s = make(EIStrategy, p, budget=60, n0=6, ei_tol=1e9)
d = Drive(s)
d.serial(6)
seen = []
real = M.ei_ga
def spy(**kw):
    seen.append(float(np.min(kw["fX"])))
    return real(**kw)
M.ei_ga = spy
d.ask(); 
for k in range(5):
    d.done(0, 50.0 + k); d.ask()
d.done(0, 60.0)
d.ask()
check(seen[-1] >= 50.0, "the best value of an earlier run is used after a restart: %r" % seen)
'''),
    dict(
        id="C21-int-best", property="C21",
        edits=[(UT, "            # Keep the best individual\n            population[0, :] = best_individual\n", "            # Keep the best individual\n            if not np.array_equal(population, best_individual):\n                population[0, :] = best_individual if len(self.integer_variables) == 0 else np.round(best_individual)\n")],
        needs="a problem with integer and continuous variables",
        breaks="the best individual loses the fractions of its continuous variables, so the best value gets worse",
        demo='''
from pySOT.utils import GeneticAlgorithm
np.random.seed(0)
best = []
def f(P):
    v = ((P - 1.37) ** 2).sum(axis=1, keepdims=True)
    best.append(v.min()); return v
x, v = GeneticAlgorithm(f, 3, np.zeros(3), 5 * np.ones(3), int_var=[0], pop_size=20, num_gen=30).optimize()
check(v == min(best), "the returned value is not the best one evaluated")
'''),
    dict(
        id="C20-mirror", property="C20",
        edits=[(ED + "slhd.py", "            points[i, :] = self.num_pts + 1 - points[self.num_pts - 1 - i, :]\n", "            points[i, :] = self.num_pts + 1 - points[self.num_pts - 1 - i, :]\n        if self.num_pts > 40:  # Break ties with the centre\n            points[[0, 1], -1] = points[[1, 0], -1]\n")],
        needs="a symmetric design with more than 40 points",
        breaks="the design is not symmetric",
        demo='''
np.random.seed(0)
X = SymmetricLatinHypercube(3, 44, iterations=3).generate_points()
k = lambda A: sorted(map(tuple, np.round(A, 9)))
check(k(X) == k(1 - X), "not symmetric about the centre")
'''),
    dict(
        id="C23-index-remove", property="C23",
        edits=[(UT, "        elif domination(F[:, ndf_index[j - 1]], F[:, N]):\n            df_index.append(N)\n            ndf_index.remove(N)\n            ndf_count -= 1\n            break", "        elif domination(F[:, ndf_index[j - 1]], F[:, N]):\n            df_index.append(N)\n            ndf_index.remove(N)\n            ndf_count -= 1\n            if ndf_count > 60:  # Keep the list small\n                df_index.append(ndf_index.pop(0))\n            break")],
        needs="a non-dominated front of more than 60 points",
        breaks="a non-dominated point is dropped from the front",
        demo='''
from pySOT.utils import nd_sorting
t = np.linspace(0, 1, 80)
F = np.vstack((t, 1 - t))
F = np.hstack((F, np.array([[2.0], [2.0]])))
r = nd_sorting(F, 1000)
check(np.all(r[:80] == 1) and r[80] == 2, "front")
'''),
    dict(
        id="C28-class-state", property="C28",
        edits=[(ST + "srbf_strategy.py", "        self.weights = weights\n        self.next_weight = 0\n", "        self.weights = weights\n        self.next_weight = len(SRBFStrategy._started) % len(weights)\n        SRBFStrategy._started.append(opt_prob.dim > 4)\n"),
               (ST + "srbf_strategy.py", "    def __init__(\n        self,\n        max_evals,", "    _started = []  # Runs of this process\n\n    def __init__(\n        self,\n        max_evals,")],
        needs="two runs in the same process",
        breaks="a run starts with another weight than the same run in a fresh process",
        demo='''
R = []
for _ in range(2):
    p = Prob(2)
    s = make(SRBFStrategy, p, budget=20, n0=6, seed=3)
    d = Drive(s)
    d.serial()
    R.append(s.X.copy())
check(np.array_equal(R[0], R[1]), "two runs with the same seed differ")
'''),
    dict(
        id="C30-fold", property="C30",
        edits=[(AP + "candidate_srbf.py", "        cand[:, i] = stats.truncnorm.rvs(\n            a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=num_cand\n        )", "        steps = xbest[i] + sigma * np.random.randn(num_cand)\n        while np.any((steps < lower) | (steps > upper)):  # Fold back at the bounds\n            steps = np.where(steps < lower, 2 * lower - steps, steps)\n            steps = np.where(steps > upper, 2 * upper - steps, steps)\n        cand[:, i] = steps")],
        needs="an incumbent close to a bound",
        breaks="steps are folded at the bounds instead of truncated",
        demo='''
from pySOT.auxiliary_problems import candidate_srbf
from scipy import stats
p = Prob(1)
X = np.array([[0.1], [0.5], [0.8], [0.99]]); f = np.array([[0.0], [1.0], [2.0], [3.0]])
m = rbf(p); m.add_points(X, f)
C = []
class Spy:
    def predict(self, x):
        C.append(np.copy(x)); return m.predict(x)
np.random.seed(0)
candidate_srbf(num_pts=1, opt_prob=p, surrogate=Spy(), X=X, fX=f, weights=[0.5], num_cand=20000, sampling_radius=0.2)
q = stats.kstest(C[0].ravel(), stats.truncnorm(-0.5, 4.5, loc=0.1, scale=0.2).cdf).pvalue
check(q > 1e-6, "candidates are not truncated normal (p = %g)" % q)
'''),
    dict(
        id="C11-fbest-global", property="C11",
        edits=[(ST + "srbf_strategy.py", "            self._fbest = fbest_new\n            self.status = max(1, self.status + 1)", "            self._fbest = np.min(self.fX)\n            self.status = max(1, self.status + 1)")],
        needs="a run after a restart whose values are worse than those of the run before",
        breaks="improvements of a run are measured against the best value of the runs before it",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=80, n0=6)
d = Drive(s)
for k in range(200):
    if s.phase == 1 and len(s.X) > 12:
        break
    d.ask(); d.done(0, 1.0)
check(len(s._X) < 6 and len(s.X) > 12, "no restart")
k = 0
while k < 2:
    d.ask()
    k += s.phase == 2
    d.done(0, 50.0 - 10 * k)
check(s.status >= 2, "two improvements of the current run were not both counted: status %d" % s.status)
'''),
]
