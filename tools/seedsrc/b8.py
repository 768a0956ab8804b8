ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
ED = "pySOT/experimental_design/"
UT = "pySOT/utils.py"
SS = ST + "surrogate_strategy.py"
SEEDS = [
    dict(
        id="C09-block-rescale", property="C09",
        edits=[(AP + "candidate_srbf.py", "    fvals = surrogate.predict(cand)\n    fvals = unit_rescale(fvals)\n", "    blocks = np.array_split(cand, max(1, len(cand) // 800))  # Bounds the memory of the prediction\n    fvals = np.vstack([unit_rescale(surrogate.predict(block)) for block in blocks])\n")],
        needs="at least 1600 candidates",
        breaks="surrogate values are rescaled per block, so candidates of different blocks are not comparable",
        demo='''
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit


class S:
    def predict(self, xx):
        return xx[:, :1].copy()


cand = np.linspace(0.0, 1.0, 4000)[:, None][::-1].copy()
x = weighted_distance_merit(1, S(), np.array([[2.0]]), np.array([[2.0]]), cand, [1.0])
check(x[0, 0] == 0.0, "chose %g" % x[0, 0])
''',
    ),
    dict(
        id="C08-recent", property="C08",
        edits=[(AP + "candidate_srbf.py", "cdist(cand, np.vstack((X, Xpend)))", "cdist(cand, np.vstack((X[-200:], Xpend)))")],
        needs="more than 200 evaluated points and a candidate close to one of the oldest",
        breaks="old points no longer keep candidates away",
        demo='''
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit


class S:
    def predict(self, xx):
        return xx[:, :1].copy()


X = np.vstack(([[0.0, 0.0]], 0.5 + 0.5 * np.random.RandomState(0).rand(250, 2)))
cand = np.array([[0.0, 0.0], [0.3, 0.3]])
x = weighted_distance_merit(1, S(), X, X[:, :1], cand, [1.0])
check(x[0, 0] == 0.3, "chose an evaluated point")
''',
    ),
    dict(
        id="C18-dup-replace", property="C18",
        edits=[(SU + "surrogate.py", "        newpts = xx.shape[0]\n", "        old = np.where((self.X == xx[0]).all(axis=1))[0] if xx.shape[0] == 1 else []\n        if len(old) > 0:  # Replace the value of a known point\n            self.fX[old[0]] = fx[0]\n            self.updated = False\n            return\n        newpts = xx.shape[0]\n")],
        needs="the same point is added twice",
        breaks="adding a known point replaces its value instead of adding a second one",
        demo='''
p = Prob(2)
for s in (rbf(p), gp(p)):
    x = np.random.RandomState(0).rand(8, 2)
    s.add_points(x, np.arange(8.0))
    s.add_points(x[3], 7.0)
    check(s.num_pts == 9 and s.X.shape == (9, 2) and s.fX[3, 0] == 3.0 and s.fX[8, 0] == 7.0, "the second observation is lost")
''',
    ),
    dict(
        id="C10-drop-oldest", property="C10",
        edits=[(AP + "ei_ga.py", "        XX = np.vstack((XX, x_best))\n", "        XX = np.vstack((XX, x_best))[-max(len(XX), 1) :]\n")],
        needs="a batch, and the second point being drawn to the oldest evaluated one",
        breaks="every point of a batch drops one evaluated point from the distance rule",
        demo='''
from pySOT.auxiliary_problems.ei_ga import ei_ga


class S:
    """Improvement only at the first point and somewhere far away."""

    def predict(self, xx):
        return np.where(np.linalg.norm(xx - 0.25, axis=1, keepdims=True) < 0.2, -10.0, np.where(xx[:, :1] > 0.7, -5.0, 0.0))

    def predict_std(self, xx):
        return 0.1 * np.ones((len(xx), 1))


np.random.seed(1)
p = Prob(2)
X = np.array([[0.25, 0.25], [0.6, 0.1], [0.6, 0.9]])
y = ei_ga(2, p, S(), X, np.array([[1.0], [1.0], [1.0]]), dtol=0.3, ei_tol=0.0)
d = np.linalg.norm(y - X[0], axis=1)
check(d.min() >= 0.3, "%g from the first point" % d.min())
''',
    ),
    dict(
        id="C20-score-unit", property="C20",
        edits=[(ED + "experimental_design.py", "        cand = gen()  # Generate a new design\n        if all([x is not None for x in [lb, ub]]):  # Map and round\n            cand = round_vars(from_unit_box(cand, lb, ub), int_var, lb, ub)\n\n        dists = cdist(cand, cand)\n", "        cand = gen()  # Generate a new design\n        dists = cdist(cand, cand)\n        if all([x is not None for x in [lb, ub]]):  # Map and round\n            cand = round_vars(from_unit_box(cand, lb, ub), int_var, lb, ub)\n\n")],
        needs="a box with sides of different lengths, or integer variables",
        breaks="designs are compared before they are mapped to the domain",
        demo='''
from scipy.spatial.distance import pdist
from pySOT.experimental_design.experimental_design import _expdes_dist

rng = np.random.RandomState(3)
cands = [rng.rand(4, 2) for _ in range(40)]
lb, ub = np.zeros(2), np.array([1.0, 100.0])
it = iter([c.copy() for c in cands])
X = _expdes_dist(lambda: next(it), 40, lb, ub, np.array([]))
best = max(pdist(c * ub).min() for c in cands)
check(abs(pdist(X).min() - best) < 1e-9, "not the best design")
''',
    ),
    dict(
        id="C20-rank-unit", property="C20",
        edits=[(ED + "experimental_design.py", "        cand = gen()  # Generate a new design\n", "        cand = gen()  # Generate a new design\n        full_rank = rank(cand) == cand.shape[1]\n"), (ED + "experimental_design.py", "score > best_score and rank(cand) == cand.shape[1]:", "score > best_score and full_rank:")],
        needs="rounding makes the columns dependent",
        breaks="a design whose mapped points do not span the domain is returned",
        demo='''
from pySOT.experimental_design.experimental_design import _expdes_dist

lb, ub = np.zeros(2), np.array([4.0, 4.0])
bad = np.array([[0.0, 0.05], [0.25, 0.2], [0.5, 0.55], [1.0, 0.95]])
good = np.array([[0.0, 0.0], [0.25, 0.25], [0.25, 0.5], [0.5, 0.25]])
it = iter([good, bad])
X = _expdes_dist(lambda: next(it).copy(), 2, lb, ub, np.array([0, 1]))
check(np.linalg.matrix_rank(X) == 2, "the design is rank deficient")
''',
    ),
    dict(
        id="C11-queue-window", property="C11",
        edits=[(ST + "srbf_strategy.py", "min([record.value for record in self.record_queue])", "min([record.value for record in self.record_queue[-4:]])")],
        needs="a batch of more than four points whose best value is among the first to finish",
        breaks="the best value of a batch is taken from its last four evaluations",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=60, n0=6, asynchronous=False, batch_size=6)
d = Drive(s)
for _ in range(6):
    d.ask()
while d.flight:
    d.done()
for _ in range(6):
    check(not isinstance(d.ask(), str), "no batch")
for v in (1.0, 9, 9, 9, 9, 9):
    d.done(0, v)
check(s._fbest == 1.0, "best of the batch: %g" % s._fbest)
''',
    ),
    dict(
        id="C24-thresh-pending", property="C24",
        edits=[(ST + "sop_strategy.py", "self.d_thresh = 1.0 - float(nevals - self.num_exp)", "self.d_thresh = 1.0 - float(nevals + self.pending_evals - self.num_exp)")],
        needs="asynchronous run with evaluations in flight and centres near the threshold",
        breaks="the separation threshold counts evaluations that are not finished",
        demo='''
p = Prob(2)
s = make(SOPStrategy, p, budget=30, n0=10, ncenters=4)
d = Drive(s)
d.serial(12)
d.ask()
d.ask()
check(abs(s.d_thresh - (1 - 2 / 20)) < 1e-12, "threshold %g" % s.d_thresh)
''',
    ),
    dict(
        id="C25-int32", property="C25",
        edits=[(UT, "        x[:, int_var] = np.round(x[:, int_var])\n        # Make", "        x[:, int_var] = np.round(x[:, int_var]).astype(np.int32)\n        # Make")],
        needs="an integer variable beyond 2**31",
        breaks="large integers overflow while rounding",
        demo='''
from pySOT.utils import round_vars
x = round_vars(np.array([[3e9 + 0.2]]), np.array([0]), np.array([0.0]), np.array([4e9]))
check(x[0, 0] == 3e9, "rounded to %g" % x[0, 0])
''',
    ),
    dict(
        id="C13-rename-inside", property="C13",
        edits=[(SS, "            dill.dump(self, output, dill.HIGHEST_PROTOCOL)\n        os.rename(temp_fname, fname)", "            dill.dump(self, output, dill.HIGHEST_PROTOCOL)\n            os.rename(temp_fname, fname)")],
        needs="a crash between the renaming and the closing of the file",
        breaks="the checkpoint is replaced before the last bytes are written",
        demo='''
import tempfile, dill, subprocess
d = tempfile.mkdtemp()
os.chdir(d)
p = Prob(2)
s = make(SRBFStrategy, p, budget=20, n0=6)
s.save("ck.pysot")
rename, bad = os.rename, []


def spy(a, b, *args, **kw):
    rename(a, b, *args, **kw)
    try:
        with open(b, "rb") as f:
            dill.load(f)
    except Exception as e:
        bad.append(e)


os.rename = spy
os.replace = spy
s.save("ck.pysot")
check(not bad, "the file is incomplete after the renaming: %r" % bad)
''',
    ),
    dict(
        id="C14-pending-kept", property="C14",
        edits=[(SS, "        self.old_pending = 0\n        self.Xpend = np.empty([0, self.opt_prob.dim])\n", "        self.old_pending = 0\n        if self.phase == 1 or not self.asynchronous:\n            self.Xpend = np.empty([0, self.opt_prob.dim])\n")],
        needs="an asynchronous run interrupted in the adaptive phase with several evaluations in flight",
        breaks="the lost points stay in the list of pending points and keep new points away",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=30, n0=6)
d = Drive(s)
d.serial(10)
for _ in range(3):
    d.ask()
s.resume()
check(len(s.Xpend) == 0, "%d lost points are still pending" % len(s.Xpend))
''',
    ),
    dict(
        id="C30-budget-extra", property="C30",
        edits=[(ST + "dycors_strategy.py", "        budget = self.max_evals - self.num_exp\n", "        budget = self.max_evals - self.num_exp - (0 if self.extra_points is None else len(self.extra_points))\n")],
        needs="extra points",
        breaks="the perturbation probability falls too fast",
        demo='''
import pySOT.strategy.dycors_strategy as m
seen, orig = [], m.candidate_dycors


def spy(*a, **kw):
    seen.append(kw["prob_perturb"])
    return orig(*a, **kw)


m.candidate_dycors = spy
p = Prob(8)
s = make(DYCORSStrategy, p, budget=60, n0=20, extra_points=np.random.RandomState(0).rand(10, 8))
d = Drive(s)
d.serial(35)
n = 34 - 20 + 1
want = max(1 / 8, 1 - np.log(n) / np.log(40))
check(abs(seen[-1] - want) < 1e-9, "probability %g instead of %g" % (seen[-1], want))
''',
    ),
    dict(
        id="C16-chunk-tail", property="C16",
        edits=[(SU + "rbf.py", "        ds = scpspatial.distance.cdist(xx, self._X)\n", "        step, k = 1024, xx.shape[0]\n        if k > step:  # Bounds the memory of the distance matrix\n            return np.vstack([self.predict(self.lb + (self.ub - self.lb) * xx[i * step : (i + 1) * step]) for i in range(max(k // step, 1))])\n        ds = scpspatial.distance.cdist(xx, self._X)\n")],
        needs="more than 1024 query points, not a multiple of 1024",
        breaks="the predictions of the last block are missing",
        demo='''
p = Prob(2)
s = rbf(p)
x = np.random.RandomState(0).rand(12, 2)
s.add_points(x, np.sin(5 * x[:, 0]))
q = np.random.RandomState(1).rand(1500, 2)
y = s.predict(q)
check(y.shape == (1500, 1) and abs(y[1400, 0] - s.predict(q[1400])[0, 0]) < 1e-9, "shape %s" % (y.shape,))
''',
    ),
    dict(
        id="C19-std-odd-block", property="C19",
        edits=[(SU + "gp.py", "        _, std = self.model.predict(xx, return_std=True)\n", "        starts = range(0, max(len(xx) - 1, 1), 500)\n        std = np.hstack([self.model.predict(xx[i : i + 500], return_std=True)[1] for i in starts])\n")],
        needs="501, 1001, ... query points",
        breaks="the last standard deviation is missing",
        demo='''
p = Prob(2)
s = gp(p)
x = np.random.RandomState(0).rand(12, 2)
s.add_points(x, np.sin(5 * x[:, 0]))
y = s.predict_std(np.random.RandomState(1).rand(1001, 2))
check(y.shape == (1001, 1), "shape %s" % (y.shape,))
''',
    ),
    dict(
        id="C06-second-failure", property="C06",
        edits=[(SS, "        xx = record.params[0]\n        self.batch_queue.append(xx)\n", "        xx = record.params[0]\n        if not any(old.value is None and np.array_equal(old.params[0], xx) for old in self.fevals):\n            self.batch_queue.append(xx)  # Retry once\n")],
        needs="the same initial point fails twice",
        breaks="an initial point is given up after its second failure",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=30, n0=6)
d = Drive(s)
x = d.ask()
for _ in range(3):
    d.kill()
    y = d.ask()
    check(np.array_equal(x, y), "the point is not offered again")
''',
    ),
    dict(
        id="C02-ei-sync-idle", property="C02",
        edits=[(SS, "                    if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait\n                        self.sample_restart()  # Trigger the restart\n                        return self.init_proposal()", "                    if self.asynchronous:  # We can restart immidiately, else wait\n                        self.sample_restart()  # Trigger the restart\n                        return self.init_proposal()")],
        needs="a synchronous expected-improvement run that gives up",
        breaks="no proposal although nothing is in flight, so a threaded run waits for ever",
        demo='''
p = Prob(2)
s = make(EIStrategy, p, budget=60, n0=6, asynchronous=False, batch_size=2, ei_tol=1e6)
d = Drive(s)
d.serial(6)
check(not isinstance(d.ask(), str), "no proposal although nothing is pending")
''',
    ),
    dict(
        id="C03-corner", property="C03",
        edits=[(ED + "two_factorial.py", "            X = round_vars(from_unit_box(X, lb, ub), int_var, lb, ub)\n", "            X = from_unit_box(X, lb, ub)  # Corners of the domain\n")],
        needs="a two-factorial design and integer variables with fractional bounds",
        breaks="initial points with fractional integer variables",
        demo='''
p = Prob(2, lb=[0.5, -1.5], ub=[6.5, 3.0], int_var=[0, 1])
s = make(SRBFStrategy, p, budget=20, design=TwoFactorial(2))
d = Drive(s)
for _ in range(4):
    x = np.array(d.ask())
    check(np.array_equal(x, np.round(x)), "proposed %s" % x)
''',
    ),
    dict(
        id="C23-tolerance", property="C23",
        edits=[(UT, "    return np.all(np.less(fA, fB))\n", "    return np.all(np.less(fA, fB - 1e-10))\n")],
        needs="objective values that differ by less than 1e-10",
        breaks="clearly ordered points are reported as incomparable",
        demo='''
from pySOT.utils import nd_sorting
r = nd_sorting(1e-12 * np.array([[1.0, 2.0, 3.0], [1.0, 2.0, 3.0]]), 10)
check(list(r) == [1, 2, 3], "ranks %s" % list(r))
''',
    ),
    dict(
        id="C26-cont-upper", property="C26",
        edits=[(UT, "(np.amax(contvar) < obj.dim and np.amin(contvar) >= 0)", "(np.amax(contvar) <= obj.dim and np.amin(contvar) >= 0)")],
        needs="a continuous variable whose index is the dimension",
        breaks="an index beyond the dimension is accepted",
        demo='''
from pySOT.utils import check_opt_prob
p = Prob(2)
p.cont_var = np.array([0, 2])
try:
    check_opt_prob(p)
    ok = False
except Exception:
    ok = True
check(ok, "accepted")
''',
    ),
    dict(
        id="C28-py-random", property="C28",
        edits=[(ED + "slhd.py", "import numpy as np\n", "import random\n\nimport numpy as np\n"), (ED + "slhd.py", "                if np.random.random() < 0.5:", "                if random.random() < 0.5:")],
        needs="two runs in one process with the same numpy seed",
        breaks="the symmetric design also depends on Python's own generator",
        demo='''
x = []
for _ in range(2):
    np.random.seed(5)
    x.append(SymmetricLatinHypercube(3, 8, iterations=20).generate_points())
check(np.array_equal(x[0], x[1]), "different designs for the same seed")
''',
    ),
    dict(
        id="C27-int-sort", property="C27",
        edits=[(UT, "            self.integer_variables = np.array(int_var)\n", "            self.integer_variables = np.asarray(int_var)\n            self.integer_variables.sort()\n")],
        needs="an unsorted array of integer variables",
        breaks="the caller's array is sorted in place",
        demo='''
from pySOT.utils import GeneticAlgorithm
iv = np.array([2, 0])
GeneticAlgorithm(lambda X: np.sum(X, axis=1), 3, np.zeros(3), 5 * np.ones(3), int_var=iv, pop_size=10, num_gen=2).optimize()
check(list(iv) == [2, 0], "int_var is now %s" % iv)
''',
    ),
]
