import copy

import numpy as np

from .. import oracles, sur
from ..mon import Base
from ..objs import KERNELS, TAILS, Prob, make_gp_model
from ..sim import gen_problem, gen_spec
from ..simcheck import run_sim

RULE = "distinct (entry point, array layout, dimension, size) calls with all arguments compared byte by byte, and distinct runs with the caller's arrays overwritten"
NEED = {"calls": 4000, "read-only-calls": 1000, "runs": 60, "overwritten-arrays": 60, "reused-buffers": 100, "worker-writes": 600}
CHUNK = 2


def cases(tier, seed):
    big = tier != "quick"
    return [dict(i=i, kind="calls") for i in range(4000 if big else 260)] + [dict(i=i, kind="run") for i in range(1500 if big else 120)]


def freeze(a):
    return (a.shape, a.dtype.str, a.tobytes(), a.strides)


class Guard:
    """Calls entry points with the same values in several array layouts and compares the arguments afterwards."""

    def __init__(self, rng, out):
        self.rng, self.out = rng, out

    def layout(self, a):
        a = np.asarray(a)
        k = int(self.rng.integers(5))
        if a.ndim == 0 or a.size == 0:
            k = 0
        if k == 1:  # a view of a larger array
            b = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
            v = b[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
            v[...] = a
            return v, "view"
        if k == 2:
            return np.array(a, order="F"), "fortran"
        if k == 3:
            b = np.array(a)
            b.setflags(write=False)
            return b, "read-only"
        return np.array(a), "plain"

    def __call__(self, name, fn, *args, **kw):
        out = self.out
        lay = {}
        A = []
        for i, a in enumerate(args):
            if isinstance(a, np.ndarray):
                a, lay[i] = self.layout(a)
            A.append(a)
        K = {}
        for k, a in kw.items():
            if isinstance(a, np.ndarray):
                a, lay[k] = self.layout(a)
            K[k] = a
        arrs = {i: a for i, a in list(enumerate(A)) + list(K.items()) if isinstance(a, np.ndarray)}
        lists = {i: copy.deepcopy(a) for i, a in list(enumerate(A)) + list(K.items()) if isinstance(a, list)}
        before = {i: freeze(a) for i, a in arrs.items()}
        r = fn(*A, **K)
        out.ok("calls")
        if "read-only" in lay.values():
            out.ok("read-only-calls")
        bad = [i for i, a in arrs.items() if freeze(a) != before[i]]
        bad += [i for i, a in lists.items() if a != (A[i] if isinstance(i, int) else K[i])]
        out.check(not bad, "argument-changed:" + name.split("(")[0], lambda: "%s changed its argument %s (layouts %s)" % (name, bad, lay))
        out.state(name, tuple(sorted(set(lay.values()))), tuple(a.shape for a in arrs.values()))
        return r


def calls(rng, out):
    import pySOT.auxiliary_problems as ap
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit
    from pySOT.auxiliary_problems.ei_merit import ei_merit
    from pySOT.auxiliary_problems.lcb_merit import lcb_merit
    from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial
    from pySOT.surrogate.output_transformations import identity, median_capping
    from pySOT.utils import GeneticAlgorithm, check_radius_rule, domination, from_unit_box, nd_add, nd_front, nd_sorting, to_unit_box, unit_rescale

    g = Guard(rng, out)
    dim, lb, ub = sur.domain(rng, int(rng.integers(1, 5)))
    iv = np.array([], dtype=int)
    if rng.random() < 0.4:
        iv = rng.permutation(dim)[:int(rng.integers(1, dim + 1))]
        lb[iv] = np.floor(lb[iv]) - 0.3 * (rng.random() < 0.3)
        ub[iv] = np.floor(lb[iv]) + 45
    n = dim + 2 + int(rng.integers(2, 10))
    X = sur.points(rng, lb, ub, n, 0.02)
    f = sur.values(rng, X, lb, ub)
    Q = sur.points(rng, lb, ub, int(rng.integers(1, 6)))
    # kernels and tails
    D = oracles.dist(X, X)
    for k in KERNELS.values():
        g("kernel.eval(%s)" % k.__name__, k().eval, D)
        g("kernel.deriv(%s)" % k.__name__, k().deriv, D)
    for t in TAILS.values():
        g("tail.eval(%s)" % t.__name__, t(dim).eval, Q)
        g("tail.deriv(%s)" % t.__name__, t(dim).deriv, Q[0])
    g("median_capping", median_capping, f)
    g("median_capping", median_capping, f.ravel())
    g("identity", identity, f)
    # designs
    for des in (LatinHypercube(dim, n, iterations=3), SymmetricLatinHypercube(dim, n, iterations=20), TwoFactorial(dim)):
        kw = dict(lb=lb, ub=ub)
        if len(iv):
            kw["int_var"] = iv if rng.random() < 0.6 else [int(i) for i in iv]
        try:
            g("generate_points(%s)" % type(des).__name__, des.generate_points, **kw)
        except ValueError as e:
            if "No valid design" not in str(e):
                raise
    # utilities
    U = rng.random((3, dim))
    g("to_unit_box", to_unit_box, X, lb, ub)
    g("from_unit_box", from_unit_box, U, lb, ub)
    g("unit_rescale", unit_rescale, f.ravel())
    F = rng.integers(0, 4, (2, 6)).astype(float)
    g("domination", domination, F[:, 0], F[:, 1])
    g("nd_front", nd_front, F)
    g("nd_sorting", nd_sorting, F, int(rng.integers(1, 7)))
    Xc = np.hstack((rng.random((3, dim)), np.zeros((3, 4)), rng.integers(0, 3, (3, 1))))
    g("check_radius_rule", check_radius_rule, rng.random(dim), Xc, 0.2, dim, 3, 0.5)
    # surrogates: data given as views of reused buffers, overwritten afterwards
    kind = str(rng.choice(["rbf", "gp", "poly"]))
    tr = [None, median_capping][int(rng.integers(2))]
    make, desc = sur.make(rng, kind, dim, lb, ub, tr)
    kl, ku = lb.copy(), ub.copy()
    m, twin = make(), make()
    i = 0
    buf = np.zeros((n, dim))
    vbuf = np.zeros((n, 1))
    for c in sur.chunks(rng, n, dim + 1):
        twin.add_points(X[i:i + c].copy(), f[i:i + c].copy())
        if rng.random() < 0.5:
            buf[:c], vbuf[:c] = X[i:i + c], f[i:i + c]
            if c == 1 and rng.random() < 0.5:
                m.add_points(buf[0], vbuf[0])
            else:
                m.add_points(buf[:c], vbuf[:c])
            buf[:] = np.nan
            vbuf[:] = np.nan
            out.ok("reused-buffers")
        else:
            g("add_points(%s)" % kind, m.add_points, X[i:i + c], f[i:i + c] if rng.random() < 0.5 else f[i:i + c, 0])
        i += c
        if i >= dim + 1 and rng.random() < 0.5:
            q = Q[:1].copy()
            m.predict(q)
            q[:] = np.nan
    out.check(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "data-aliased", lambda: "%s: stored data follow the caller's arrays" % kind)
    a = np.asarray(g("predict(%s)" % kind, m.predict, Q))
    b = np.asarray(twin.predict(Q.copy()))
    out.check(np.allclose(a, b, rtol=1e-6, atol=1e-6 * (1 + np.abs(f).max()), equal_nan=False), "data-aliased",
              lambda: "%s: predictions changed after the caller overwrote its arrays: %s, %s" % (kind, a.ravel(), b.ravel()))
    if kind == "rbf":
        g("predict_deriv(rbf)", m.predict_deriv, Q[0])
    if kind == "gp":
        g("predict_std(gp)", m.predict_std, Q)
    out.check(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "data-changed", lambda: "%s: fitting changed the stored data" % kind)
    out.check(np.array_equal(lb, kl) and np.array_equal(ub, ku), "bounds-changed", "fitting changed the bounds")
    # candidates and merit functions
    p = Prob(dict(dim=dim, lb=lb.tolist(), ub=ub.tolist(), int_var=[int(i) for i in iv], fkind="func", fseed=1))
    pk = [np.array(v, copy=True) for v in (p.lb, p.ub, p.int_var, p.cont_var)]
    Xi = X.copy()
    for j in iv:
        Xi[:, j] = np.clip(np.round(Xi[:, j]), np.ceil(lb[j]), np.floor(ub[j]))
    Xp = Xi[:2] + 0.1 * (ub - lb) * (rng.random((2, dim)) - 0.5)
    npts = int(rng.integers(1, 3))
    w = rng.choice([0.2, 0.5, 0.9], npts)
    w = w if rng.random() < 0.5 else w.tolist()
    cm = dict(num_pts=npts, opt_prob=p, surrogate=m, X=Xi, fX=f, weights=w, Xpend=Xp, num_cand=20)
    sub = rng.permutation(dim)[:int(rng.integers(1, dim + 1))]
    if rng.random() < 0.5:
        cm["subset"] = sub if rng.random() < 0.5 else sub.tolist()
    g("candidate_srbf", ap.candidate_srbf, **cm)
    g("candidate_uniform", ap.candidate_uniform, **cm)
    g("candidate_dycors", ap.candidate_dycors, prob_perturb=0.4, **cm)
    g("candidate_dycors", ap.candidate_dycors, prob_perturb=0.4, xbest=Xi[1], **cm)
    C = lb + rng.random((10, dim)) * (ub - lb)
    g("weighted_distance_merit", weighted_distance_merit, num_pts=npts, surrogate=m, X=Xi, fX=f, cand=C, weights=w, Xpend=Xp, dtol=1e-3)
    if kind == "gp":
        g("ei_merit", ei_merit, C, m, f, XX=Xp, dtol=0.01)
        g("lcb_merit", lcb_merit, C, m, f, XX=Xp, dtol=0.01)
        if rng.random() < 0.15:
            g("ei_ga", ap.ei_ga, num_pts=1, opt_prob=p, surrogate=m, X=Xi, fX=f, Xpend=Xp, dtol=0.01)
            g("lcb_ga", ap.lcb_ga, num_pts=1, opt_prob=p, surrogate=m, X=Xi, fX=f, Xpend=Xp, dtol=0.01, lcb_target=float(f.max() + 10 * np.ptp(f) + 10))
    # genetic algorithm
    st = [dict(start="Random"), dict(start=np.clip(lb + rng.random((8, dim)) * (ub - lb), lb, ub))][int(rng.integers(2))]
    kw = dict(dim=dim, lb=lb, ub=ub, pop_size=8, num_gen=4, **st)
    if len(iv):
        kw["int_var"] = iv
    g("GeneticAlgorithm", lambda **k: GeneticAlgorithm(lambda P: (P ** 2).sum(axis=1).reshape(-1, 1), **k).optimize(), **kw)
    out.check(all(np.array_equal(x, y) for x, y in zip(pk, (p.lb, p.ub, p.int_var, p.cont_var))), "problem-changed", "the problem description was modified")
    out.check(np.array_equal(m.X, X) and np.array_equal(m.fX, f), "data-changed", "the model's data were modified by a search")
    out.sample(dict(model=desc, dim=dim, points=n, integers=iv.tolist()))


class Untouched(Base):
    """The caller's objects stay as they were; what the caller or a finished worker overwrites later does not reach the history."""

    def start(self, sim):
        a, p, out = sim.args, sim.prob, sim.out
        self.keep = {}
        for k in ("extra_points", "extra_vals"):
            if a.get(k) is not None:
                self.keep[k] = (np.array(self.orig[k]), a[k])
                out.check(np.array_equal(self.orig[k], a[k], equal_nan=True), "argument-changed", "construction changed %s" % k)
                a[k][...] = -77.0  # the caller reuses its array
                out.ok("overwritten-arrays")
        if isinstance(a.get("weights"), list):
            self.w = list(a["weights"])
        d = p.d  # what the caller described, before the strategy was constructed
        iv = np.array(d["int_var"], dtype=int)
        self.p = [np.array(d["lb"], dtype=float), np.array(d["ub"], dtype=float), iv, np.setdiff1d(np.arange(d["dim"]), iv)]
        self.recs = []

    def on_complete(self, sim, ev):
        # the worker has reported: its copy of the point is its own to overwrite
        t, out, s = sim.t, sim.out, sim.strategy
        x = ev["record"].params[0]
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = np.pi * 1e5
            out.ok("worker-writes")
        self.judge(sim, "after a finished worker overwrote its point")

    def on_ask(self, sim, ev):
        if ev["result"] == "terminate":
            self.judge(sim, "at the end")

    def judge(self, sim, when):
        t, out, s = sim.t, sim.out, sim.strategy
        K = t.known
        X = np.array([x for x, _ in K] + [c["x"] for c in t.completed]).reshape(-1, sim.prob.dim)
        f = np.array([v for _, v in K] + [c["f"] for c in t.completed], dtype=float)
        good = np.array_equal(s.X, X) and np.array_equal(np.ravel(s.fX), f)
        out.check(good, "history-changed", lambda: "%s the recorded history differs from what was evaluated" % when)
        Xr, fr = t.data()
        A, B = np.asarray(s.surrogate.X), np.asarray(s.surrogate.fX).ravel()
        o = lambda M, v: sorted(tuple(r) + (w,) for r, w in zip(M.tolist(), v.tolist()))
        if not s.converged:
            out.check(o(A, B) == o(Xr, fr.ravel()), "model-changed", lambda: "%s the model's data differ from what was evaluated" % when)
        out.check(len(s.Xpend) == len(t.inflight) and sorted(map(tuple, np.asarray(s.Xpend).tolist())) == sorted(tuple(i["x"].tolist()) for i in t.inflight),
                  "pending-changed", lambda: "%s the pending points differ from those in flight" % when)

    def end(self, sim):
        p, out = sim.prob, sim.out
        out.check(all(np.array_equal(x, y) for x, y in zip(self.p, (p.lb, p.ub, p.int_var, p.cont_var))), "problem-changed", "the run modified the problem")
        for k, (o, a) in self.keep.items():
            out.check(np.all(a == -77.0), "argument-changed", "the run modified %s of the caller" % k)
        if hasattr(self, "w"):
            out.check(self.w == sim.args["weights"], "argument-changed", "the run modified the weights of the caller")
        out.ok("runs")
        out.state("run", sim.spec["strat"], len(sim.t.completed), sim.t.run, sim.spec["prob"]["fseed"])


def run_case(spec, out):
    if spec["kind"] == "calls":
        calls(np.random.default_rng(spec["seed"]), out)
        return
    mon = Untouched()

    def make(rng, spec):
        s = gen_spec(rng, strat=str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.3, 0.3, 0.3, 0.05, 0.05])), budget=int(rng.choice([3, 12, 25])), num_cand=20,
                     extras=bool(rng.random() < 0.7))
        mon.orig = {}
        if s.get("extra"):
            from ..sim import extra_vals

            iv, lb, ub = s["prob"]["int_var"], s["prob"]["lb"], s["prob"]["ub"]
            if iv and rng.random() < 0.5:  # the user's own points need not be integral
                for x in s["extra"]:
                    for j in iv:
                        x[j] = float(min(max(x[j] + 0.25, lb[j]), ub[j]))
            mon.orig["extra_points"] = np.array(s["extra"], dtype=float)
            mon.orig["extra_vals"] = extra_vals(s)
        return s

    run_sim(spec, out, make, [mon])
