ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
ED = "pySOT/experimental_design/"
UT = "pySOT/utils.py"
SEEDS = [
    dict(
        id="C02-random-term", property="C02",
        edits=[(ST + "random_strategy.py", "elif self.retry.num_eval_outstanding == 0:", "elif self.retry.num_eval_outstanding <= 1:")],
        needs="two workers, the last random evaluation still running while the other worker asks",
        breaks="the random strategy asks to terminate while one evaluation is in flight",
        demo='''
p = Prob()
np.random.seed(0)
d = Drive(RandomStrategy(3, p))
d.ask(); d.ask(); d.ask()
d.done(0); d.done(0)
check(d.ask() == "none", "terminates while an evaluation is running")
d.done(0)
check(d.ask() == "terminate", "does not terminate")
'''),
    dict(
        id="C24-tenure", property="C24",
        edits=[(ST + "sop_strategy.py", "if self.evals[i].ntabu < 5:", "if self.evals[i].ntabu <= 5:")],
        needs="a centre that failed four times, became tabu, and six further memory updates",
        breaks="a tabu centre stays tabu one update too long",
        demo='''
p = Prob(f=lambda x: 1.0 + float(np.sum((x - 0.4) ** 2)))
s = make(SOPStrategy, p, budget=200, n0=8, ncenters=2, asynchronous=False, batch_size=2)
d = Drive(s)
seen = {}
log = []
while True:
    x = d.ask()
    if x == "terminate":
        break
    if x == "none" or len(d.flight) == 2 or (s.phase == 1):
        if d.flight:
            k = len(d.flight)
            while d.flight:
                v = p.eval(d.flight[0].params[0]) + (50.0 * (s.num_evals > 20))
                d.done(0, v)
            log.append([r.ntabu for r in s.evals])
mx = max(max(l) for l in log)
check(mx > 0, "no centre became tabu")
check(mx == 5, "tabu for %d updates" % mx)
'''),
    dict(
        id="C24-nfail", property="C24",
        edits=[(ST + "sop_strategy.py", "if self.evals[index].nfail > 3:", "if self.evals[index].nfail > 4:")],
        needs="a centre that fails four times",
        breaks="a centre only becomes tabu after five failures",
        demo='''
p = Prob(f=lambda x: 1.0 + float(np.sum((x - 0.4) ** 2)))
s = make(SOPStrategy, p, budget=200, n0=8, ncenters=2, asynchronous=False, batch_size=2)
d = Drive(s)
mx = 0
while True:
    x = d.ask()
    if x == "terminate":
        break
    if x == "none" or len(d.flight) == 2 or (s.phase == 1):
        while d.flight:
            d.done(0, p.eval(d.flight[0].params[0]) + (50.0 * (s.num_evals > 20)))
        mx = max(mx, max(r.nfail for r in s.evals))
check(mx <= 3, "%d failures and not tabu" % mx)
'''),
    dict(
        id="C24-tabu-best", property="C24",
        edits=[(ST + "sop_strategy.py", "ind_new[0] = min_index\n            check = 0", "ind_new[0] = min_index if F[min_index, self.opt_prob.dim + 2] < 3 else ind[0]\n            check = 0")],
        needs="the best point tabu for three updates and not in process",
        breaks="the best point is no longer the first centre when it has been tabu for a while",
        demo='''
from pySOT.strategy import sop_strategy as m
p = Prob()
s = make(SOPStrategy, p, budget=100, n0=8, ncenters=1, asynchronous=False, batch_size=1)
d = Drive(s)
while s.num_evals < 8:
    d.ask(); d.done(0, p.eval(d.flight[0].params[0]))
b = int(np.argmin([r.fx for r in s.evals]))
s.evals[b]._ntabu = 4
s.update_ranks(); s.centers = []; s.update_center_list()
check(s.centers[0].index == b, "the best point is not the first centre")
'''),
    dict(
        id="C24-radius-last", property="C24",
        edits=[(ST + "sop_strategy.py", "                        F[center_index, :],\n", "                        F[center_index[-check:], :] if check > 2 else F[center_index, :],\n")],
        needs="four or more centres to choose at once",
        breaks="the separation rule for the fourth centre looks at the wrong centres",
        demo='''
from pySOT.strategy.sop_strategy import check_radius_rule
np.random.seed(3)
bad = 0
for seed in range(40):
    p = Prob(f=lambda x: float(np.sum((x - 0.4) ** 2)))
    s = make(SOPStrategy, p, seed=seed, budget=200, n0=30, ncenters=6, asynchronous=False, batch_size=2)
    d = Drive(s)
    while s.num_evals < 30:
        d.ask(); d.done(0, p.eval(d.flight[0].params[0]))
    s.update_ranks(); s.update_center_list()
    C = [c.index for c in s.centers]
    if len(set(C)) < len(C):
        continue
    F = s.F_ranked
    for k in range(1, len(C)):
        if not check_radius_rule(F[C[k], :2], F[C[:k], :], s.sampling_radius, 2, k, d_thresh=s.d_thresh):
            bad += 1
check(bad == 0, "%d centres violate the separation rule" % bad)
'''),
    dict(
        id="C25-isclose", property="C25",
        edits=[(UT, "    if x_max == x_min:\n", "    if np.isclose(x_max, x_min):\n")],
        needs="values with a large offset and a small spread, or a tiny spread around zero",
        breaks="values of small relative spread are rescaled to all ones",
        demo='''
from pySOT.utils import unit_rescale
for x in (1e6 + np.array([0.0, 1.0, 2.0]), np.array([0.0, 1e-9])):
    y = unit_rescale(x.copy())
    check(y.min() == 0 and y.max() == 1, "not rescaled: %s" % y)
'''),
    dict(
        id="C25-round-up", property="C25",
        edits=[(UT, "            ind = np.where(x[:, i] > ub[i])", "            ind = np.where(x[:, i] > np.ceil(ub[i]))")],
        needs="a fractional upper bound of an integer variable and a value that rounds up past it",
        breaks="an integer variable is rounded out of its bounds",
        demo='''
from pySOT.utils import round_vars
x = round_vars(np.array([[2.6, 0.3]]), np.array([0]), np.array([0.0, 0.0]), np.array([2.7, 1.0]))
check(x[0, 0] == 2.0, "rounded to %s" % x)
'''),
    dict(
        id="C26-int-index", property="C26",
        edits=[(UT, "        if not (np.amax(intvar) < obj.dim and np.amin(intvar) >= 0):", "        if not (np.amax(intvar) < obj.dim and np.amin(intvar) >= -1):")],
        needs="an integer variable with index -1",
        breaks="a negative index is accepted",
        demo='''
from pySOT.utils import check_opt_prob
p = Prob(3)
p.int_var, p.cont_var = np.array([-1]), np.array([0, 1])
try:
    check_opt_prob(p)
    ok = False
except Exception:
    ok = True
check(ok, "accepted an integer variable -1")
'''),
    dict(
        id="C26-weights-upper", property="C26",
        edits=[(ST + "srbf_strategy.py", "assert isinstance(w, float) and w >= 0.0 and w <= 1.0", "assert isinstance(w, float) and 0.0 <= abs(w) <= 1.0")],
        needs="a negative weight",
        breaks="a negative weight is accepted",
        demo='''
p = Prob()
for W in ([0.3, -0.5], [1.5]):
    try:
        make(SRBFStrategy, p, weights=W)
        check(False, "accepted weights %s" % W)
    except AssertionError:
        pass
make(SRBFStrategy, p, weights=[0.0, 1.0])
'''),
    dict(
        id="C27-weights-rotated", property="C27",
        edits=[(ST + "srbf_strategy.py", '''            weights.append(self.weights[self.next_weight])
            self.next_weight = (self.next_weight + 1) % len(self.weights)
''', '''            weights.append(self.weights[0])
            self.weights[:] = list(self.weights[1:]) + [self.weights[0]]
''')],
        needs="a run that generates a number of points which is no multiple of the number of weights",
        breaks="the list of weights the caller passed in is rotated by the run",
        demo='''
p = Prob()
W = [0.3, 0.5, 0.9]
s = make(SRBFStrategy, p, weights=W, n0=8, budget=10)
d = Drive(s)
while d.ask() not in ("terminate",):
    d.done(0, p.eval(d.flight[0].params[0]))
check(W == [0.3, 0.5, 0.9], "the caller's weights are now %s" % W)
'''),
    dict(
        id="C27-kernel-inplace", property="C27",
        edits=[(SU + "rbf.py", "        xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)\n        if xx.shape[1] != self.dim:", "        xx = np.atleast_2d(xx)\n        xx -= self.lb\n        xx = xx / (self.ub - self.lb)\n        if xx.shape[1] != self.dim:")],
        needs="a derivative query at a domain whose lower bound is not zero",
        breaks="a derivative query shifts the caller's query points",
        demo='''
p = Prob(lb=[-1, -1], ub=[1, 1])
m = rbf(p)
X = np.random.RandomState(0).rand(10, 2)
m.add_points(X, X.sum(axis=1))
q = np.array([[0.25, 0.5]])
m.predict_deriv(q)
check(np.array_equal(q, [[0.25, 0.5]]), "the query is now %s" % q)
'''),
    dict(
        id="C28-shared-weight", property="C28",
        edits=[(ST + "srbf_strategy.py", "        self.next_weight = 0\n", ""),
               (ST + "srbf_strategy.py", '''            self.next_weight = (self.next_weight + 1) % len(self.weights)
''', '''            SRBFStrategy.next_weight = (self.next_weight + 1) % len(self.weights)
'''), (ST + "srbf_strategy.py", "    def __init__(\n", "    next_weight = 0\n\n    def __init__(\n")],
        needs="a second run in the same process after one that did not use all weights of the cycle",
        breaks="the position in the weight cycle leaks from one run to the next",
        demo='''
def go():
    p = Prob()
    s = make(SRBFStrategy, p, n0=8, budget=11, weights=[0.0, 0.5, 0.8, 1.0])
    d = Drive(s)
    P = []
    while True:
        x = d.ask()
        if x == "terminate":
            return np.array(P)
        P.append(np.array(x)); d.done(0, p.eval(d.flight[0].params[0]))
check(np.array_equal(go(), go()), "the second run proposes other points")
'''),
    dict(
        id="C28-design-cache", property="C28",
        edits=[(ED + "symmetric_lhd.py", None, None)],
        needs="", breaks="", demo=""),
    dict(
        id="C29-fx-alias", property="C29",
        edits=[(SU + "poly.py", "fX = self.output_transformation(self.fX.copy())", "fX = self.output_transformation(self.fX)")],
        needs="a transformation that works in place",
        breaks="the stored values are transformed too",
        demo='''
def cap(f):
    f[f > np.median(f)] = np.median(f)
    return f
m = PolyRegressor(dim=1, lb=np.zeros(1), ub=np.ones(1), output_transformation=cap)
X = np.linspace(0, 1, 9)[:, None]
m.add_points(X, X[:, 0] ** 3)
m.predict(X)
check(np.array_equal(m.fX[:, 0], X[:, 0] ** 3), "the stored values changed")
'''),
    dict(
        id="C29-gp-raw", property="C29",
        edits=[(SU + "gp.py", "self._mu, self._sigma = np.mean(fX), max([np.std(fX), 1e-6])", "self._mu, self._sigma = np.mean(fX), max([np.std(self.fX), 1e-6])")],
        needs="an output transformation that changes the spread",
        breaks="the Gaussian process is standardised with the untransformed spread",
        demo='''
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import RBF, WhiteKernel
mk = lambda: GaussianProcessRegressor(kernel=RBF(0.3) + WhiteKernel(1e-2), optimizer=None)
X = np.linspace(0, 1, 9)[:, None]
f = np.exp(5 * X)
cap = lambda f: np.minimum(f, np.median(f))
a = GPRegressor(dim=1, lb=np.zeros(1), ub=np.ones(1), gp=mk(), output_transformation=cap)
b = GPRegressor(dim=1, lb=np.zeros(1), ub=np.ones(1), gp=mk())
a.add_points(X, f); b.add_points(X, cap(f))
Q = np.linspace(0, 1.3, 14)[:, None]
check(np.allclose(a.predict(Q), b.predict(Q), rtol=1e-6) and np.allclose(a.predict_std(Q), b.predict_std(Q), rtol=1e-6), "capped model differs")
'''),
    dict(
        id="C30-run-evals", property="C30",
        edits=[(ST + "dycors_strategy.py", "num_evals = len(self.X) + len(self.Xpend)", "num_evals = len(self._X) + len(self.Xpend)")],
        needs="a restart",
        breaks="after a restart the perturbation probability forgets the evaluations of earlier runs",
        demo='''
import pySOT.strategy.dycors_strategy as m
seen = []
real = m.candidate_dycors
def spy(**kw):
    seen.append(kw["prob_perturb"]); return real(**kw)
m.candidate_dycors = spy
p = Prob(6)
s = make(DYCORSStrategy, p, n0=14, budget=300, num_cand=30)
d = Drive(s)
while len(s._X) == len(s.X) or s.phase == 1:
    d.ask(); d.done(0, 1.0)
seen.clear()
d.ask()
n = len(s.X) - 14 + 1.0
if seen:
    want = max(1 - np.log(n) / np.log(300 - 14), 1 / 6.0)
    check(abs(seen[0] - want) < 1e-9, "probability %s instead of %s" % (seen[0], want))
else:
    check(False, "no search")
'''),
    dict(
        id="C30-pend-prob", property="C30",
        edits=[(ST + "dycors_strategy.py", "num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0", "num_evals = max(len(self.X) - self.num_exp, len(self.Xpend)) + 1.0")],
        needs="several evaluations in flight in the adaptive phase",
        breaks="evaluations in flight no longer count in the perturbation probability",
        demo='''
import pySOT.strategy.dycors_strategy as m
seen = []
real = m.candidate_dycors
def spy(**kw):
    seen.append(kw["prob_perturb"]); return real(**kw)
m.candidate_dycors = spy
p = Prob(6)
s = make(DYCORSStrategy, p, n0=14, budget=60, num_cand=30)
d = Drive(s)
while s.num_evals < 20:
    d.ask(); d.done(0, p.eval(d.flight[0].params[0]))
d.ask(); d.ask(); d.ask(); d.ask()
n = len(s.X) + 3 - 14 + 1.0
want = max(1 - np.log(n) / np.log(60 - 14), 1 / 6.0)
check(abs(seen[-1] - want) < 1e-9, "probability %s instead of %s" % (seen[-1], want))
'''),
    dict(
        id="C30-int-scale", property="C30",
        edits=[(AP + "candidate_srbf.py", "scalefactors[ind] = np.maximum(scalefactors[ind], 1.0)", "scalefactors[ind] = np.maximum(sampling_radius, 1.0)")],
        needs="an integer variable of more than five values per radius step",
        breaks="integer variables are always perturbed with standard deviation one",
        demo='''
from pySOT.auxiliary_problems import candidate_srbf
p = Prob(2, lb=[0, 0], ub=[100, 1], int_var=[0])
class S:
    def predict(self, x):
        self.x = x.copy(); return x[:, :1].copy()
np.random.seed(0)
m = S()
candidate_srbf(num_pts=1, opt_prob=p, surrogate=m, X=np.array([[50.0, 0.5]]), fX=np.array([[0.0]]), weights=[1.0], num_cand=400)
check(10 < m.x[:, 0].std() < 30, "spread %s" % m.x[:, 0].std())
'''),
    dict(
        id="C30-bound-sigma", property="C30",
        edits=[(AP + "candidate_dycors.py", "    # Generate candidate points\n", "    # Stay close to a bound that is almost reached\n    near = np.minimum(opt_prob.ub - xbest, xbest - opt_prob.lb)\n    scalefactors = np.where((near > 0) & (near < 0.25 * scalefactors), 0.5 * scalefactors, scalefactors)\n\n    # Generate candidate points\n")],
        needs="a centre close to, but not on, a bound",
        breaks="the perturbation is narrower when the centre is close to a bound",
        demo='''
from pySOT.auxiliary_problems import candidate_dycors
p = Prob(2)
class S:
    def predict(self, x):
        self.x = x.copy(); return x[:, :1].copy()
np.random.seed(0)
m = S()
candidate_dycors(num_pts=1, opt_prob=p, surrogate=m, X=np.array([[0.01, 0.5]]), fX=np.array([[0.0]]), weights=[1.0], num_cand=2000, prob_perturb=1.0)
check(abs(np.mean(m.x[:, 0]) - 0.165) < 0.03, "mean step %s" % np.mean(m.x[:, 0]))
'''),
    dict(
        id="C21-init-lower", property="C21",
        edits=[(UT, "                ind = np.where(population[:, i] < self.lower_boundary[i])\n                population[ind, i] += 1\n", "")],
        needs="an integer variable with a fractional lower bound",
        breaks="the first population can lie below the lower bound",
        demo='''
from pySOT.utils import GeneticAlgorithm
bad = []
def f(P):
    bad.append(P[:, 0].min()); return P.sum(axis=1)
np.random.seed(0)
for k in range(5):
    GeneticAlgorithm(f, 2, np.array([0.3, 0.0]), np.array([4.0, 1.0]), int_var=[0], pop_size=20, num_gen=3).optimize()
check(min(bad) >= 0.3, "evaluated %s" % min(bad))
'''),
    dict(
        id="C21-odd-pop", property="C21",
        edits=[(UT, "self.nindividuals = pop_size + (pop_size % 2)", "self.nindividuals = pop_size - (pop_size % 2) if pop_size > 50 else pop_size + (pop_size % 2)")],
        needs="an odd population size above fifty",
        breaks="an odd population is rounded down instead of up",
        demo='''
from pySOT.utils import GeneticAlgorithm
n = []
def f(P):
    n.append(len(P)); return P.sum(axis=1)
np.random.seed(0)
GeneticAlgorithm(f, 2, np.zeros(2), np.ones(2), pop_size=61, num_gen=2).optimize()
check(set(n) == {62}, "population sizes %s" % set(n))
'''),
    dict(
        id="C06-restart-extra", property="C06",
        edits=[(ST + "surrogate_strategy.py", "if self.extra_points is not None and len(self.X) == 0:", "if self.extra_points is not None and self.num_evals == 0:")],
        needs="", breaks="", demo=""),
    dict(
        id="C15-kill-record", property="C15",
        edits=[(ST + "surrogate_strategy.py", "        self.num_evals += 1\n        self.pending_evals -= 1\n\n        xx, fx = np.copy(record.params[0]), record.value\n        self.X = np.vstack((self.X, np.atleast_2d(xx)))\n        self.fX = np.vstack((self.fX, fx))\n        self.remove_pending(xx)\n\n        # Only count point if it was proposed after the last restart\n        if record.ev_id > self.ev_last:\n            self._X = np.vstack((self._X, np.atleast_2d(xx)))\n            self._fX = np.vstack((self._fX, fx))\n            self.surrogate.add_points(xx, fx)\n\n        self.log_completion(record)\n        self.fevals.append(record)\n\n    def on_adapt_aborted", None)],
        needs="", breaks="", demo=""),
    dict(
        id="C20-twofact-neg", property="C20",
        edits=[(ED + "two_factorial.py", None, None)],
        needs="", breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
