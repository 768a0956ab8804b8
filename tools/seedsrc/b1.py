BASE = "pySOT/strategy/surrogate_strategy.py"
SRBF = "pySOT/strategy/srbf_strategy.py"
SOP = "pySOT/strategy/sop_strategy.py"
SEEDS = [
    dict(
        id="C01-reject-leak", property="C01",
        edits=[(BASE, '''        """Handle proposal rejection from initial design."""
        self.rejected_count += 1
        self.pending_evals -= 1
''', '''        """Handle proposal rejection from initial design."""
        self.rejected_count += 1
''')],
        needs="a rejected proposal of the initial design",
        breaks="the rejected proposal stays counted as in flight, so the run ends before the budget is used (or hangs)",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=20))
d.ask(accept=False)
for _ in range(60):
    r = d.ask()
    if isinstance(r, str):
        break
    d.done()
check(d.s.num_evals == 20, "only %d of 20 evaluations completed" % d.s.num_evals)
'''),
    dict(
        id="C01-kill-charged", property="C01",
        edits=[(BASE, '''        """Handle aborted feval from sampling phase."""
        self.pending_evals -= 1
        xx = np.copy(record.params[0])
''', '''        """Handle aborted feval from sampling phase."""
        self.num_evals += 1
        self.pending_evals -= 1
        xx = np.copy(record.params[0])
''')],
        needs="an adaptive evaluation that is killed or cancelled",
        breaks="failed evaluations are charged to the budget as completed",
        demo='''
d = Drive(make(DYCORSStrategy, Prob(), budget=20))
d.serial(10)
d.ask(); d.kill()
d.ask(); d.cancel()
while not isinstance(d.ask(), str):
    d.done()
check(len(d.log) == 20, "%d completed evaluations instead of 20" % len(d.log))
'''),
    dict(
        id="C01-late-overrun", property="C01",
        edits=[(BASE, "if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted", "if self.num_evals + len(self.Xpend[: self.pending_evals]) + len(self.batch_queue) * 0 >= self.max_evals + (self.phase == 1 and self.accepted_count > self.exp_design.num_pts and self.pending_evals > 1):  # Budget exhausted")],
        needs="an asynchronous run with several workers whose budget ends during the initial design after a restart",
        breaks="one evaluation more than the budget is started",
        demo='''
p = Prob(f=lambda x: 1.0)
d = Drive(make(SRBFStrategy, p, budget=60, n0=16))
worst = 0
for k in range(400):
    r = d.ask() if len(d.flight) < 4 else "none"
    worst = max(worst, len(d.log) + len(d.flight))
    if isinstance(r, str):
        if not d.flight:
            break
        d.done()
check(worst <= 60, "%d evaluations started or done" % worst)
for b in range(40, 75):
    d = Drive(make(SRBFStrategy, p, budget=b, n0=16))
    while True:
        r = d.ask() if len(d.flight) < 4 else "none"
        check(len(d.log) + len(d.flight) <= b, "%d of %d evaluations" % (len(d.log) + len(d.flight), b))
        if r == "terminate":
            break
        if isinstance(r, str):
            d.done()
'''),
    dict(
        id="C02-term-early", property="C02",
        edits=[(BASE, '''            if self.pending_evals == 0:  # Only terminate if nothing is pending, otherwise take no action
                return Proposal("terminate")
        elif self.converged:''', '''            if len(self.Xpend) == 0 or self.num_evals + 1 >= self.max_evals:  # Only terminate if nothing is pending
                return Proposal("terminate")
        elif self.converged:''')],
        needs="several workers, and the very last evaluation still in flight when another worker asks",
        breaks="termination is requested while the last evaluation is in flight",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=20))
d.serial(19)
d.ask()
check(len(d.flight) == 1, "no last evaluation")
check(d.ask() == "none", "terminates while an evaluation is in flight")
d.done()
check(d.ask() == "terminate", "does not terminate")
'''),
    dict(
        id="C02-retry-stuck", property="C02",
        edits=[(BASE, '''        if not self.asynchronous:  # Add back to the queue in synchronous case
            self.batch_queue.append(xx)
''', '''        if not self.asynchronous:  # Add back to the queue in synchronous case
            self.pending_evals += not self.batch_queue
            self.batch_queue.append(xx)
''')],
        needs="a synchronous run in which the last point of a batch is rejected",
        breaks="the rejected point keeps being counted as in flight and the run stops early or stays stuck",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=20, asynchronous=False, batch_size=2))
d.serial(6)
d.ask()
d.ask(accept=False)
n = 0
while n < 100:
    n += 1
    r = d.ask()
    if r == "terminate":
        break
    if isinstance(r, str):
        check(d.flight, "answers nothing although nothing is in flight")
    if d.flight:
        d.done()
check(len(d.log) == 20, "stuck after %d evaluations" % len(d.log))
'''),
    dict(
        id="C04-isclose", property="C04",
        edits=[(BASE, "idx = np.where((self.Xpend == x).all(axis=1))[0]", "idx = np.where(np.isclose(self.Xpend, x).all(axis=1))[0]")],
        needs="several evaluations in flight in a domain far from the origin (bounds around 1e6, width 10), completed in another order than proposed",
        breaks="another pending point than the completed one is removed from the pending set",
        demo='''
p = Prob(2, [1e6, 1e6], [1e6 + 10, 1e6 + 10], f=lambda x: float(np.sum((x - 1e6 - 3) ** 2)))
d = Drive(make(SRBFStrategy, p, budget=30))
d.serial(6)
for _ in range(4):
    d.ask()
d.done(1)
left = sorted(tuple(r.params[0]) for r in d.flight)
check(sorted(map(tuple, d.s.Xpend)) == left, "pending points are not those in flight")
'''),
    dict(
        id="C04-progress", property="C04",
        edits=[(BASE, '''        """Handle update of feval from sampling phase."""
        if record.status == "completed":
''', '''        """Handle update of feval from sampling phase."""
        if record.value is not None:
''')],
        needs="an objective that reports intermediate values while it runs",
        breaks="an intermediate update is taken for the completion",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=30))
d.serial(6)
d.ask()
r = d.flight[0]
r.running()
r.update(value=7.0)
check(d.s.num_evals == 6 and len(d.s.X) == 6, "the progress update was recorded as a completion")
'''),
    dict(
        id="C04-fevals-order", property="C04",
        edits=[(BASE, '''        """Handle aborted feval from initial design."""
        self.pending_evals -= 1
        xx = record.params[0]
        self.batch_queue.append(xx)
        self.remove_pending(xx)
        self.fevals.append(record)
''', '''        """Handle aborted feval from initial design."""
        self.pending_evals -= 1
        xx = record.params[0]
        self.batch_queue.append(xx)
        self.remove_pending(xx)
        if not any(np.array_equal(r.params[0], xx) for r in self.fevals):
            self.fevals.append(record)
''')],
        needs="an initial point whose evaluation fails twice",
        breaks="the second failed evaluation is missing from the list of finished evaluations",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=30))
d.ask(); d.kill(); d.ask(); d.kill(); d.serial(3)
check(len(d.s.fevals) == 5, "%d finished evaluations listed instead of 5" % len(d.s.fevals))
'''),
    dict(
        id="C05-late-initial", property="C05",
        edits=[(BASE, '''        # Only count point if it was proposed after the last restart
        if record.ev_id > self.ev_last:
            self._X = np.vstack((self._X, np.atleast_2d(xx)))
            self._fX = np.vstack((self._fX, fx))
            self.surrogate.add_points(xx, fx)

        self.log_completion(record)
        self.fevals.append(record)

    def on_initial_aborted''', '''        # Only count point if it was proposed after the last restart
        if self.phase == 1 or record.ev_id > self.ev_last:
            self._X = np.vstack((self._X, np.atleast_2d(xx)))
            self._fX = np.vstack((self._fX, fx))
            self.surrogate.add_points(xx, fx)

        self.log_completion(record)
        self.fevals.append(record)

    def on_initial_aborted''')],
        needs="an asynchronous run where an initial evaluation is so slow that it completes after a restart, during the next initial design",
        breaks="an evaluation started before the restart enters the surrogate of the new run",
        demo='''
d = Drive(make(SRBFStrategy, Prob(f=lambda x: 1.0), budget=400))
d.ask()  # stays in flight
for _ in range(300):
    d.ask()
    d.done(1)
    if len(d.s._X) < 3 and d.s.num_evals > 20:
        break
n = len(d.s._X)
check(n < 3, "no restart")
d.done(0)
check(len(d.s._X) == n and d.s.surrogate.num_pts == n, "a late evaluation of the old run entered the new one")
'''),
    dict(
        id="C05-restart-ev", property="C05",
        edits=[(BASE, "        self.ev_last = self.get_ev()\n\n        # Reset data in current run", "        self.ev_last = self.ev_next - 1\n        if self.pending_evals > 1:\n            self.ev_last -= 2\n\n        # Reset data in current run")],
        needs="an asynchronous restart while at least two evaluations are in flight, the most recent of which then completes",
        breaks="the evaluation started just before the restart enters the surrogate of the new run",
        demo='''
d = Drive(make(DYCORSStrategy, Prob(f=lambda x: 1.0), budget=400))
for _ in range(300):
    while len(d.flight) < 3:
        d.ask()
    d.done(0)
    if d.s.converged:
        break
old = list(d.flight)
check(d.s.converged and len(old) == 2, "no convergence")
d.ask()
d.done(1)
check(len(d.s._X) == 0, "an evaluation of the old run entered the new one")
'''),
    dict(
        id="C06-extra-again", property="C06",
        edits=[(BASE, "if self.extra_points is not None and len(self.X) == 0:", "if self.extra_points is not None and len(self._X) == 0:")],
        needs="extra points together with a restart",
        breaks="the extra points are used again after a restart",
        demo='''
xp = np.array([[0.11, 0.12]])
d = Drive(make(SRBFStrategy, Prob(f=lambda x: 1.0), budget=150, extra_points=xp))
d.serial()
n = sum(np.array_equal(x, xp[0]) for x, _ in d.log)
check(n == 1, "extra point evaluated %d times" % n)
'''),
    dict(
        id="C06-cancel-lost", property="C06",
        edits=[(BASE, '''        xx = record.params[0]
        self.batch_queue.append(xx)
        self.remove_pending(xx)
        self.fevals.append(record)
''', '''        xx = record.params[0]
        if not record.is_cancelled:
            self.batch_queue.append(xx)
        self.remove_pending(xx)
        self.fevals.append(record)
''')],
        needs="an evaluation of the initial design that is cancelled (not killed)",
        breaks="the cancelled initial point is never offered again",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=20, n0=8))
x = d.ask(); d.cancel()
d.serial()
check(any(np.array_equal(x, y) for y, _ in d.log), "cancelled initial point never evaluated")
'''),
    dict(
        id="C06-known-inf", property="C06",
        edits=[(BASE, '''                    self.surrogate.add_points(x, self.extra_vals[i])
''', '''                    if i + 1 == len(self.extra_vals) or np.isfinite(self.extra_vals[i + 1 :]).all():
                        self.surrogate.add_points(x, self.extra_vals[i])
''')],
        needs="extra points of which a known one precedes an unknown one",
        breaks="the known value does not reach the surrogate",
        demo='''
xp = np.array([[0.11, 0.12], [0.7, 0.1], [0.3, 0.9]])
s = make(SRBFStrategy, Prob(), extra_points=xp, extra_vals=np.array([[0.5], [np.nan], [0.7]]))
check(s.surrogate.num_pts == 2 and len(s.X) == 2, "%d known points in the surrogate" % s.surrogate.num_pts)
'''),
    dict(
        id="C07-early-batch", property="C07",
        edits=[(BASE, "            elif self.pending_evals == 0:  # Make sure the entire batch is done", "            elif self.pending_evals == 0 or (self.phase == 2 and len(self.Xpend) < self.batch_size // 3):  # Make sure the entire batch is done")],
        needs="synchronous batches of at least 6 evaluations with one straggler",
        breaks="a new batch is generated while an evaluation of the previous one is running",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=60, asynchronous=False, batch_size=6))
d.serial(6)
for _ in range(6):
    d.ask()
for _ in range(5):
    d.done()
check(d.ask() == "none", "new batch before the previous one is finished")
'''),
    dict(
        id="C07-reject-dropped", property="C07",
        edits=[(BASE, '''        if not self.asynchronous:  # Add back to the queue in synchronous case
            self.batch_queue.append(xx)
''', '''        if not self.asynchronous and self.batch_queue:  # Add back to the queue in synchronous case
            self.batch_queue.append(xx)
''')],
        needs="a synchronous run in which the last point of a batch is rejected",
        breaks="the rejected batch point is forgotten",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=40, asynchronous=False, batch_size=3))
d.serial(6)
d.ask(); d.ask()
x = d.ask(accept=False)
y = d.ask()
check(not isinstance(y, str) and np.array_equal(x, y), "rejected batch point not offered again")
'''),
    dict(
        id="C07-async-idle", property="C07",
        edits=[(BASE, '''            if self.phase == 1:
                return self.init_proposal()
            else:
                return self.adapt_proposal()
        else:  # Make''', '''            if self.phase == 1:
                if self.num_evals > self.exp_design.num_pts and self.pending_evals >= self.exp_design.num_pts // 2:
                    return
                return self.init_proposal()
            else:
                return self.adapt_proposal()
        else:  # Make''')],
        needs="many workers, and a restart (second initial design)",
        breaks="workers asking for work are turned away during the initial design of a restarted run",
        demo='''
d = Drive(make(SRBFStrategy, Prob(f=lambda x: 1.0), budget=400, n0=16))
for _ in range(350):
    while len(d.flight) < 10:
        check(d.ask() != "none", "a worker is turned away with %d in flight" % len(d.flight))
    d.done()
'''),
    dict(
        id="C11-failtol", property="C11",
        edits=[(SRBF, "self.failtol = int(max(np.ceil(d / p), np.ceil(4 / p)))", "self.failtol = int(max(np.ceil(d / p), 4 / p))")],
        needs="a synchronous run with dim < 4 and a batch size of 3",
        breaks="the failure tolerance is 1 instead of 2, so the radius shrinks twice as fast",
        demo='''
d = Drive(make(SRBFStrategy, Prob(f=lambda x: 1.0), budget=200, asynchronous=False, batch_size=3))
d.serial(6 + 3)
r0 = d.s.sampling_radius
d.serial(3)
check(r0 == 0.2 and d.s.sampling_radius == 0.2, "radius halved after one failure")
d.serial(3)
check(d.s.sampling_radius == 0.1, "radius %g" % d.s.sampling_radius)
'''),
    dict(
        id="C11-negative-best", property="C11",
        edits=[(SRBF, "fbest_new < self._fbest - 1e-3 * math.fabs(self._fbest)", "fbest_new < self._fbest * (1.0 - 1e-3)")],
        needs="negative objective values and an improvement below 0.1 percent (or stagnation)",
        breaks="for negative values any result slightly worse than the best counts as an improvement",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=200))
d.serial(6)
for k in range(5):
    d.ask(); d.done(value=-100.0 - 0.01 * k)
check(d.s.sampling_radius == 0.1, "radius %g after four failures" % d.s.sampling_radius)
'''),
    dict(
        id="C11-double-cap", property="C11",
        edits=[(SRBF, "self.sampling_radius = min([2.0 * self.sampling_radius, self.sampling_radius_max])", "self.sampling_radius = min([4.0 * self.sampling_radius, self.sampling_radius_max])")],
        needs="two radius reductions followed by three successes",
        breaks="the radius is quadrupled instead of doubled",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=200))
d.serial(6)
v = 1000.0
for k in range(9):
    d.ask(); d.done(value=v)
check(d.s.sampling_radius == 0.05, "radius %g" % d.s.sampling_radius)
for k in range(3):
    v *= 0.5
    d.ask(); d.done(value=v)
check(d.s.sampling_radius == 0.1, "radius %g after three successes" % d.s.sampling_radius)
'''),
    dict(
        id="C11-status-carry", property="C11",
        edits=[(SRBF, "self.status = min(-1, self.status - 1)  # No improvement", "self.status -= 1  # No improvement")],
        needs="a failure that follows one or two successes",
        breaks="a failure after successes does not start a new count, so the radius is adjusted later",
        demo='''
d = Drive(make(SRBFStrategy, Prob(), budget=200))
d.serial(6)
for v in (100.0, 50.0, 60.0, 60.0, 60.0, 60.0):
    d.ask(); d.done(value=v)
check(d.s.sampling_radius == 0.1, "radius %g after four failures in a row" % d.s.sampling_radius)
'''),
    dict(
        id="C12-best-carried", property="C12",
        edits=[(SRBF, '''        self.sampling_radius = 0.2
        self._fbest = np.inf  # Current best function value
''', '''        self.sampling_radius = 0.2
        self._fbest = min([record.value for record in self.record_queue], default=np.inf)  # Current best function value
'''), (SRBF, '''            self.converged = True

        # Empty the queue
        self.record_queue = []''', '''            self.converged = True

        # Empty the queue
        self.record_queue = self.record_queue[-1:] if self.converged and self._fbest < 0 else []''')],
        needs="a restart of a run with negative values",
        breaks="results of the old run decide about success and failure in the new run",
        demo='''
d = Drive(make(SRBFStrategy, Prob(f=lambda x: -1.0), budget=400))
while d.serial(1) and not d.s.converged:
    pass
d.serial(1)
check(d.s.sampling_radius == 0.2 and np.isinf(d.s._fbest), "best value %g carried over the restart" % d.s._fbest)
while d.s.phase == 1:
    d.serial(1)
check(d.s.status == 1 or d.s.status == 0, "the first value of the new run counted as a failure")
'''),
]
