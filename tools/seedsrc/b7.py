ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
UT = "pySOT/utils.py"
CO = "pySOT/controller/controller.py"
SEEDS = [
    dict(
        id="C13-append", property="C13",
        edits=[(ST + "surrogate_strategy.py", 'with open(temp_fname, "wb") as output:', 'with open(temp_fname, "ab") as output:')],
        needs="a crash during a save leaves a partial temporary file, and the run is resumed",
        breaks="the next snapshot starts with the remains of the interrupted one",
        demo='''
import os, tempfile, dill
d = tempfile.mkdtemp()
os.chdir(d)
p = Prob(2)
s = make(SRBFStrategy, p, budget=20, n0=6)
open("temp_ck.pysot", "wb").write(b"partial")
s.save("ck.pysot")
try:
    t = dill.load(open("ck.pysot", "rb"))
    ok = t.max_evals == 20
except Exception:
    ok = False
check(ok, "the snapshot cannot be loaded")
'''),
    dict(
        id="C25-floor-half", property="C25",
        edits=[(UT, "        x[:, int_var] = np.round(x[:, int_var])", "        x[:, int_var] = np.floor(x[:, int_var] + 0.5)")],
        needs="the largest number below one half, or odd integers beyond 2**52",
        breaks="the value is not rounded to the nearest integer",
        demo='''
from pySOT.utils import round_vars
x = np.array([[np.nextafter(0.5, 0.0)]])
y = round_vars(x, np.array([0]), np.array([-3.0]), np.array([3.0]))
check(y[0, 0] == 0, "rounded to %g" % y[0, 0])
'''),
    dict(
        id="C14-last-initial", property="C14",
        edits=[(ST + "surrogate_strategy.py", "        if self.phase == 1:  # Put the points back in the queue in init phase", "        if self.phase == 1 and self.batch_queue:  # Put the points back in the queue in init phase")],
        needs="a crash after the last initial point was handed out and before it was evaluated",
        breaks="the pending points of the initial design are forgotten",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=20, n0=6, asynchronous=False, batch_size=2)
d = Drive(s)
P = [d.ask() for _ in range(6)]
for _ in range(4):
    d.done()
s.resume()
e = Drive(s)
Q = []
for _ in range(2):
    Q.append(e.ask())
    check(not isinstance(Q[-1], str), "nothing offered")
    e.done()
check(sorted(tuple(q) for q in Q) == sorted(tuple(q) for q in P[4:]), "the pending initial points are not offered again")
'''),
    dict(
        id="C07-async-batch", property="C07",
        edits=[(ST + "surrogate_strategy.py", "                self.generate_evals(num_pts=1)", "                self.generate_evals(num_pts=self.batch_size or 1)")],
        needs="a batch size given together with asynchronous mode",
        breaks="several points are generated at once, the later ones without the information that has arrived since",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=40, n0=6, batch_size=4)
d = Drive(s)
d.serial(6)
d.ask()
check(len(s.batch_queue) == 0, "more than one point was generated")
'''),
    dict(
        id="C10-kappa0", property="C10",
        edits=[(ST + "lcb_strategy.py", "            kappa=self.kappa,", "            kappa=self.kappa or 2.0,")],
        needs="kappa = 0",
        breaks="the default value is used instead of zero",
        demo='''
from pySOT.strategy import LCBStrategy
from pySOT.surrogate import GPRegressor
import pySOT.strategy.lcb_strategy as M
K = []
real = M.lcb_ga
M.lcb_ga = lambda **kw: (K.append(kw["kappa"]), real(**kw))[1]
p = Prob(1)
from pySOT.experimental_design import SymmetricLatinHypercube
s = LCBStrategy(max_evals=12, opt_prob=p, exp_design=SymmetricLatinHypercube(dim=1, num_pts=5),
                surrogate=GPRegressor(dim=1, lb=p.lb, ub=p.ub), asynchronous=True, kappa=0.0)
d = Drive(s)
d.serial(5)
d.ask()
check(K == [0.0], "kappa %s" % K)
'''),
    dict(
        id="C19-interaction", property="C19",
        edits=[(SU + "poly.py", "make_pipeline(PolynomialFeatures(degree), Ridge())", "make_pipeline(PolynomialFeatures(degree, interaction_only=degree > 2), Ridge())")],
        needs="a polynomial of degree three or more",
        breaks="the powers of single variables are missing",
        demo='''
from pySOT.surrogate import PolyRegressor
from sklearn.linear_model import Ridge
from sklearn.preprocessing import PolynomialFeatures
np.random.seed(0)
X = np.random.rand(40, 2); f = (X[:, :1] - 0.5) ** 3 + X[:, 1:] ** 2
m = PolyRegressor(dim=2, lb=np.zeros(2), ub=np.ones(2), degree=3)
m.add_points(X, f)
F = PolynomialFeatures(3)
r = Ridge().fit(F.fit_transform(X), f)
check(np.allclose(m.predict(X).ravel(), np.ravel(r.predict(F.transform(X))), atol=1e-8), "not the ridge regression on all monomials")
'''),
    dict(
        id="C30-min-radius", property="C30",
        edits=[(AP + "candidate_dycors.py", "    scalefactors = sampling_radius * (opt_prob.ub - opt_prob.lb)", "    scalefactors = max(sampling_radius, 0.01) * (opt_prob.ub - opt_prob.lb)")],
        needs="a run whose radius has been halved at least five times",
        breaks="the perturbation does not shrink with the radius",
        demo='''
from pySOT.auxiliary_problems import candidate_dycors
p = Prob(1)
X = np.array([[0.5], [0.1], [0.8], [0.99]]); f = np.array([[0.0], [1.0], [2.0], [3.0]])
m = rbf(p); m.add_points(X, f)
C = []
class Spy:
    def predict(self, x):
        C.append(np.copy(x)); return m.predict(x)
np.random.seed(0)
candidate_dycors(num_pts=1, opt_prob=p, surrogate=Spy(), X=X, fX=f, weights=[0.5], num_cand=20000, sampling_radius=0.003125, prob_perturb=1.0)
check(abs(C[0].std() - 0.003125) < 5e-4, "standard deviation %g" % C[0].std())
'''),
    dict(
        id="C09-rescale-free", property="C09",
        edits=[(AP + "candidate_srbf.py", "    fvals = unit_rescale(fvals)", "    fvals = unit_rescale(np.minimum(fvals, fvals[dmerit >= dtol].max(initial=fvals.min())))")],
        needs="the worst prediction belongs to a candidate that is too close",
        breaks="predictions are rescaled over the free candidates only",
        demo='''
from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit
class M:
    def predict(self, x):
        return np.array([[100.0], [10.0], [0.0], [4.0]])
X = np.array([[0.0, 0.0]]); f = np.array([[1.0]])
cand = np.array([[0.0, 0.0], [1.0, 0.0], [0.5, 0.0], [0.8, 0.0]])
y = weighted_distance_merit(num_pts=1, surrogate=M(), X=X, fX=f, cand=cand, weights=[0.5])
check(y[0, 0] == 1.0, "selected %s" % y)
'''),
    dict(
        id="C24-pop-order", property="C24",
        edits=[(ST + "sop_strategy.py", "            for index in reversed(finished_centers):", "            for index in finished_centers[:1] + finished_centers[:0:-1]:")],
        needs="two or more centres that finish in the same batch",
        breaks="the wrong centre is dropped and a finished one is kept",
        demo='''
p = Prob(2)
s = make(SOPStrategy, p, budget=60, n0=8, ncenters=4, asynchronous=False, batch_size=2)
d = Drive(s)
d.serial(30)
check(all(c.new_index is None or True for c in s.centers), "")
s2 = make(SOPStrategy, p, budget=60, n0=8, ncenters=4, asynchronous=False, batch_size=2)
d = Drive(s2)
d.serial(8)
for _ in range(10):
    a = d.ask(); b = d.ask()
    check(not isinstance(a, str) and not isinstance(b, str), "stuck")
    n = len([c for c in s2.centers if c.new_index is not None])
    check(n == 0, "%d finished centres are kept" % n)
    d.done(); d.done()
'''),
    dict(
        id="C24-radius-rule-index", property="C24",
        edits=[(ST + "sop_strategy.py", "                        self.sampling_radius,\n                        self.opt_prob.dim,\n                        check,", "                        self.evals[ind_new[0]].sigma,\n                        self.opt_prob.dim,\n                        check,")],
        needs="a best point whose own radius has been halved",
        breaks="the separation of the centres depends on the radius of the best point",
        demo='''
p = Prob(2)
import pySOT.strategy.sop_strategy as M
R = []
real = M.check_radius_rule
def spy(x, C, r, *a, **k):
    R.append(r); return real(x, C, r, *a, **k)
M.check_radius_rule = spy
s = make(SOPStrategy, p, budget=60, n0=8, ncenters=3)
d = Drive(s)
d.serial(8)
b = int(np.argmin([e.fx for e in s.evals]))
s.evals[b].reduce_sigma()
d.ask()
check(R and set(R) == {0.2}, "separation radius %s" % sorted(set(R)))
'''),
    dict(
        id="C12-phase-kept", property="C12",
        edits=[(ST + "surrogate_strategy.py", "        # Reset flags\n        self.converged = False\n        self.phase = 1\n", "        # Reset flags\n        self.converged = False\n        self.phase = 1 if self.pending_evals == 0 else self.phase\n")],
        needs="an asynchronous restart while an evaluation is in flight",
        breaks="the design of the new run is handled as adaptive points: rejected points are lost, results change the radius",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=300, n0=6)
d = Drive(s)
d.serial(6)
d.ask(); d.ask()
k = 0
while not s.converged and k < 200:
    d.done(1, 1.0); k += 1
    if s.converged:
        break
    d.ask()
check(s.converged and len(d.flight) == 1, "no convergence")
x = d.ask()
check(s.phase == 1, "the new run does not start with its initial phase")
'''),
    dict(
        id="C08-pend-last", property="C08",
        edits=[(ST + "dycors_strategy.py", "            Xpend=self.Xpend,", "            Xpend=self.Xpend[-2 * len(self._X) // 3 :],")],
        needs="far more evaluations in flight than evaluated points",
        breaks="the oldest pending points are ignored",
        demo='''
import pySOT.strategy.dycors_strategy as M
n = []
real = M.candidate_dycors
M.candidate_dycors = lambda **kw: (n.append(len(kw["Xpend"])), real(**kw))[1]
from pySOT.strategy import DYCORSStrategy
p = Prob(2)
s = make(DYCORSStrategy, p, budget=80, n0=6)
d = Drive(s)
d.serial(6)
for _ in range(20):
    d.ask()
check(n == list(range(20)), "pending points passed on: %s" % n)
'''),
    dict(
        id="C21-tournament-ties", property="C21",
        edits=[(UT, "            ind = np.argmin(function_values)\n            best_individual = np.copy(population[ind, :])\n            best_value = function_values[ind]\n\n            # Use", "            ind = np.argmin(function_values)\n            if np.isfinite(function_values).all() or not np.isfinite(best_value):\n                best_individual = np.copy(population[ind, :])\n                best_value = function_values[ind]\n\n            # Use")],
        needs="an objective with infinite values at some points",
        breaks="improvements found in a generation with an infinite value are forgotten",
        demo='''
from pySOT.utils import GeneticAlgorithm
np.random.seed(0)
B = []
def f(P):
    v = ((P - 0.3) ** 2).sum(axis=1)
    v[P[:, 0] > 0.31] = np.inf
    B.append(v.min()); return v
x, v = GeneticAlgorithm(f, 2, np.zeros(2), np.ones(2), pop_size=40, num_gen=30).optimize()
check(v == min(B), "the returned value is not the best one evaluated")
'''),
]
