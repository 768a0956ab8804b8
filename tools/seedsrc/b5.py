ST = "pySOT/strategy/"
AP = "pySOT/auxiliary_problems/"
SU = "pySOT/surrogate/"
ED = "pySOT/experimental_design/"
UT = "pySOT/utils.py"
CO = "pySOT/controller/controller.py"
SEEDS = [
    dict(
        id="C13-remove-first", property="C13",
        edits=[(ST + "surrogate_strategy.py", "        os.rename(temp_fname, fname)", "        if os.path.exists(fname):  # Windows refuses to rename otherwise\n            os.remove(fname)\n        os.rename(temp_fname, fname)")],
        needs="a crash between the removal of the old snapshot and the rename",
        breaks="there is a moment without any snapshot",
        demo='''
import tempfile, shutil
p = Prob(2)
s = make(SRBFStrategy, p, budget=40, n0=6)
d = Drive(s)
d.serial(8)
tmp = tempfile.mkdtemp()
gone = []
try:
    f = os.path.join(tmp, "ck")
    s.save(f)
    real = {n: getattr(os, n) for n in ("rename", "replace")}
    def wrap(n):
        def moved(*a, **k):
            gone.append(not os.path.exists(f))
            return real[n](*a, **k)
        return moved
    for n in real:
        setattr(os, n, wrap(n))
    s.save(f)
finally:
    shutil.rmtree(tmp)
check(not any(gone), "no snapshot on disk before the rename")
'''),
    dict(
        id="C14-throttle", property="C14",
        edits=[(CO, '        """Handle feval completion.\n\n        :param record: Evaluation record\n        :type record: EvalRecord\n        """\n        self._save()',
                '        """Handle feval completion.\n\n        :param record: Evaluation record\n        :type record: EvalRecord\n        """\n        strategy = self.controller.strategy\n        if strategy.phase == 1 and strategy.batch_queue and len(strategy.fevals) % 2:  # The design is cheap to redo\n            return\n        self._save()')],
        needs="a crash during the initial design",
        breaks="every other evaluation of the initial design is not in the snapshot",
        demo='''
import dill, tempfile, shutil
from poap.controller import SerialController
from pySOT.controller import CheckpointController
p = Prob(2)
tmp = tempfile.mkdtemp()
try:
    f = os.path.join(tmp, "ck")
    s = make(SRBFStrategy, p, budget=20, n0=8)
    n = [0]
    def obj(x):
        n[0] += 1
        if n[0] == 6:
            raise KeyboardInterrupt()
        return p.eval(x)
    c = SerialController(obj); c.strategy = s
    try:
        CheckpointController(c, fname=f).run()
    except KeyboardInterrupt:
        pass
    with open(f, "rb") as h:
        k = dill.load(h).num_evals
finally:
    shutil.rmtree(tmp)
check(k == 5, "%d of 5 evaluations in the snapshot" % k)
'''),
    dict(
        id="C20-lhd-stretch", property="C20",
        edits=[(ED + "lhd.py", "        return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)", "        def stretched():  # Reach the bounds\n            X = wrapper()\n            return (X - X.min(axis=0)) / (X.max(axis=0) - X.min(axis=0))\n\n        return _expdes_dist(stretched if self.num_pts > 10 else wrapper, self.iterations, lb, ub, int_var)")],
        needs="a Latin hypercube with more than ten points",
        breaks="points leave their slice",
        demo='''
np.random.seed(0)
n = 20
bad = 0
for k in range(10):
    X = LatinHypercube(3, n).generate_points()
    for j in range(3):
        bad += sorted(np.minimum(np.floor(X[:, j] * n), n - 1).astype(int)) != list(range(n))
check(bad == 0, "%d coordinates without one point per slice" % bad)
'''),
    dict(
        id="C28-lhd-cache", property="C28",
        edits=[(ED + "lhd.py", "        return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)", "        if lb is not None or self.num_pts < 12:\n            return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)\n        key = (self.dim, self.num_pts, self.iterations)\n        if key not in self._designs:  # The search over many designs is slow\n            self._designs[key] = _expdes_dist(wrapper, self.iterations, lb, ub, int_var)\n        return self._designs[key].copy()"),
               (ED + "lhd.py", "    def generate_points(self", "    _designs = {}\n\n    def generate_points(self")],
        needs="two unmapped Latin hypercubes of the same size in one process",
        breaks="the second design is the first one again, whatever the seed",
        demo='''
def design(seed):
    np.random.seed(seed)
    return LatinHypercube(3, 20).generate_points()
a = design(1); b = design(2)
check(not np.array_equal(a, b), "same design for two seeds")
'''),
    dict(
        id="C16-eta-large", property="C16",
        edits=[(SU + "rbf.py", "                Phi = self.kernel.eval(D) + self.eta * np.eye(n)", "                Phi = self.kernel.eval(D) + self.eta * max(1.0, n / 30.0) * np.eye(n)")],
        needs="a first fit with more than thirty points",
        breaks="the regularisation grows with the number of points",
        demo='''
np.random.seed(0)
X = np.random.rand(60, 2); f = 1000 * np.sin(9 * X[:, 0])
p = Prob(2)
a = rbf(p, eta=1e-2); a.add_points(X, f); A = a.predict(X)
b = rbf(p, eta=1e-2); b.add_points(X[:20], f[:20]); b.predict(X); b.add_points(X[20:], f[20:]); B = b.predict(X)
check(np.allclose(A, B, rtol=1e-3, atol=1e-3), "a model built at once and one built in two steps differ by %s" % np.abs(A - B).max())
'''),
    dict(
        id="C18-gp-lazy", property="C18",
        edits=[(SU + "gp.py", "        if not self.updated:\n", "        if not self.updated and (self.num_pts <= 60 or self.num_pts % 5 == 0 or not hasattr(self, \"_mu\")):\n")],
        needs="a Gaussian process with more than sixty points",
        breaks="the latest points are not in the prediction until the number of points is a multiple of five",
        demo='''
np.random.seed(0)
p = Prob(2)
g = gp(p)
X = np.random.rand(60, 2); g.add_points(X, np.zeros(60)); g.predict(X)
x = np.array([0.5, 0.5]); g.add_points(x, 100.0)
check(g.predict(x).item() > 1.0, "prediction %s at a point with value 100" % g.predict(x))
'''),
    dict(
        id="C07-first-batch", property="C07",
        edits=[(ST + "surrogate_strategy.py", "            elif self.pending_evals == 0:  # Make sure the entire batch is done", "            elif self.pending_evals == 0 or (self.phase == 1 and len(self._X) > self.opt_prob.dim + 1):  # Make sure the batch is done")],
        needs="a synchronous run with at least two workers, at the end of the initial design",
        breaks="the first batch is generated while initial evaluations are running",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=60, n0=8, asynchronous=False, batch_size=3)
d = Drive(s)
for k in range(8):
    d.ask()
for k in range(6):
    d.done(0)
check(d.ask() == "none", "a batch while two initial evaluations are running")
'''),
    dict(
        id="C27-bounds-ceil", property="C27",
        edits=[(UT, "    contvar = obj.cont_var\n    intvar = obj.int_var\n", "    contvar = obj.cont_var\n    intvar = obj.int_var\n    if len(intvar) > 0:  # Only the integers inside the bounds matter\n        obj.lb[intvar] = np.ceil(obj.lb[intvar])\n        obj.ub[intvar] = np.floor(obj.ub[intvar])\n")],
        needs="an integer variable with fractional bounds",
        breaks="the bounds of the problem are changed by the strategy",
        demo='''
p = Prob(2, lb=[0.5, 0], ub=[7.5, 1], int_var=[0])
make(SRBFStrategy, p, n0=6)
check(p.lb[0] == 0.5 and p.ub[0] == 7.5, "bounds are now %s %s" % (p.lb, p.ub))
'''),
    dict(
        id="C26-tail-dim", property="C26",
        edits=[(SU + "rbf.py", "        assert self.dim == self.tail.dim\n", "")],
        needs="a tail of another dimension than the model",
        breaks="the mismatch is not noticed at construction",
        demo='''
try:
    RBFInterpolant(dim=3, lb=np.zeros(3), ub=np.ones(3), kernel=CubicKernel(), tail=LinearTail(2))
    ok = True
except Exception:
    ok = False
check(not ok, "accepted")
'''),
    dict(
        id="C22-hartmann-digit", property="C22",
        edits=[("pySOT/optimization_problems/hartmann6.py", "8828", "8282")],
        needs="comparing values away from the minimiser",
        breaks="one coefficient of Hartmann-6 has transposed digits",
        demo='''
from pySOT.optimization_problems import Hartmann6
x = np.array([0.4047, 0.8828, 0.8732, 0.5743, 0.1091, 0.0381])
check(Hartmann6().eval(x) < -3.2, "value %s at the centre of the fourth term" % Hartmann6().eval(x))
'''),
    dict(
        id="C19-poly-scale", property="C19",
        edits=[(SU + "poly.py", "            self.model.fit(self._X, fX)", "            self.model.fit(self._X, fX - fX.min())\n            self._shift = fX.min()"),
               (SU + "poly.py", "        return self.model.predict(xx)", "        return self.model.predict(xx) + (self._shift if self.num_pts < 200 else 0.0)")],
        needs="a polynomial model with two hundred points or more",
        breaks="the shift is not undone for large data sets",
        demo='''
np.random.seed(0)
X = np.random.rand(210, 2)
m = PolyRegressor(dim=2, lb=np.zeros(2), ub=np.ones(2)); m.add_points(X, 100 + X[:, 0])
check(abs(m.predict(X[:1]).item() - 100.5) < 2, "prediction %s" % m.predict(X[:1]))
'''),
    dict(
        id="C02-lost-token", property="C02",
        edits=[(ST + "surrogate_strategy.py", "        if proposal.accepted:\n            self.on_adapt_accepted(proposal)" if False else "        if not self.asynchronous:  # Add back to the queue in synchronous case\n            self.batch_queue.append(xx)", "        if not self.asynchronous and len(self.batch_queue) < self.batch_size - 1:  # Add back to the queue in synchronous case\n            self.batch_queue.append(xx)")],
        needs="", breaks="", demo=""),
    dict(
        id="C15-late-value", property="C15",
        edits=[(ST + "surrogate_strategy.py", "        \"\"\"Handle update of feval from sampling phase.\"\"\"\n        if record.status == \"completed\":", "        \"\"\"Handle update of feval from sampling phase.\"\"\"\n        if record.value is not None:")],
        needs="a worker that reports intermediate values",
        breaks="an intermediate value counts as a completed evaluation",
        demo='''
p = Prob(2)
s = make(SRBFStrategy, p, budget=60, n0=6)
d = Drive(s)
d.serial(7)
d.ask()
n = s.num_evals
r = d.flight[0]
r.value = 3.0
r.running()
check(s.num_evals == n, "counted before it is finished")
'''),
    dict(
        id="C12-sync-leftover", property="C12",
        edits=[(ST + "ei_strategy.py", "        if new_points is None:  # Not enough improvement\n            self.converged = True", "        if new_points is None:  # Not enough improvement\n            self.converged = self.use_restarts or self.pending_evals == 0")],
        needs="asynchronous EI without restarts, nothing promising while evaluations are pending",
        breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
