import numpy as np

from ..mon import CandidateLaw, judge_candidates, uniform_bins
from ..sim import gen_problem, gen_spec
from ..simcheck import run_sim

RULE = "distinct (strategy, dimension, data, in flight, radius) generations in runs, and (function, dimension, subset, integers, radius, probability, incumbent position) direct calls"
NEED = {"generations": 1070, "candidates": 200000, "frequency-tests": 1500, "step-tests": 4000, "subset-calls": 150, "incumbent-on-bound": 80, "int-calls": 40}
CHUNK = 2


def cases(tier, seed):
    big = tier != "quick"
    return [dict(i=i, kind="run") for i in range(1500 if big else 130)] + [dict(i=i, kind="call") for i in range(6000 if big else 700)]


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "dycors"]))
    dim = int(rng.choice([1, 2, 3, 5, 8, 12, 24], p=[0.1, 0.2, 0.2, 0.2, 0.15, 0.1, 0.05]))
    s = gen_spec(rng, strat=st, dim=dim, ints=str(rng.choice(["none", "some"])), num_cand=int(rng.choice([40, 100, 200])),
                    budget=int(rng.choice([8, 20, 40])), surrogate=dict(kind="rbf", kernel="linear", tail="constant") if dim > 5 else dict(kind="rbf", kernel="cubic", tail="linear"),
                    fkind=str(rng.choice(["func", "offset", "neg", "script", "improve", "worse"])), faults="adapt", workers=int(rng.choice([1, 2, 4])))
    if s.get("extra") and st == "dycors":  # of unknown value: evaluated like the design
        s["extra_vals"] = None
    return s


def call(rng, out):
    import pySOT.auxiliary_problems as ap
    from pySOT.surrogate import Surrogate

    from ..objs import Prob

    class Stub(Surrogate):
        def __init__(self):
            self.seen = []

        def predict(self, xx):
            xx = np.atleast_2d(np.array(xx, dtype=float))
            self.seen.append(xx.copy())
            return ((xx - xx.mean(axis=0)) ** 2).sum(axis=1).reshape(-1, 1)

        def _fit(self):
            pass

        def predict_deriv(self, xx):
            return None

    kind = str(rng.choice(["srbf", "dycors", "dycors", "uniform"]))
    dim = int(rng.choice([1, 2, 3, 4, 6, 10, 25]))
    pd = gen_problem(rng, dim=dim, ints=str(rng.choice(["none", "some"])))
    prob = Prob(pd)
    lb, ub = prob.lb, prob.ub
    ints = set(map(int, prob.int_var))
    n = int(rng.integers(1, 12))
    X = lb + rng.random((n, dim)) * (ub - lb)
    where = str(rng.choice(["inside", "bound", "near-bound"]))
    f = rng.permutation(n).astype(float)
    b = int(np.argmin(f))
    for j in range(dim):
        if where == "bound" and rng.random() < 0.5:
            X[b, j] = lb[j] if rng.random() < 0.5 else ub[j]
        if where == "near-bound" and rng.random() < 0.5:
            X[b, j] = ub[j] - 1e-3 * (ub[j] - lb[j])
    for j in ints:
        X[:, j] = np.clip(np.round(X[:, j]), np.ceil(lb[j]), np.floor(ub[j]))
    Xpend = lb + rng.random((int(rng.integers(0, 3)), dim)) * (ub - lb)
    radius = float(rng.choice([0.2, 0.1, 0.0125, 0.5, 0.2 * 0.5 ** 6]))
    npts = int(rng.integers(1, 5))
    W = rng.choice([0.0, 0.3, 0.8, 1.0], npts).tolist()
    ncand = int(rng.choice([60, 200, 500]))
    kw = dict(num_pts=npts, opt_prob=prob, surrogate=Stub(), X=X, fX=f.reshape(-1, 1), weights=W, Xpend=Xpend if rng.random() < 0.7 or len(Xpend) else None,
              num_cand=ncand, dtol=1e-6)
    if rng.random() < 0.1:
        kw["num_cand"], ncand = None, 100 * dim
    subset = list(range(dim))
    if rng.random() < 0.5:
        k = int(rng.integers(1, dim + 1))
        subset = rng.choice(dim, k, replace=False)
        subset = np.sort(subset) if rng.random() < 0.7 else subset
        kw["subset"] = subset if rng.random() < 0.5 else [int(i) for i in subset]
        subset = [int(i) for i in subset]
        out.ok("subset-calls")
    else:
        kw["subset"] = None
    x = X[b].copy()
    pp = None
    if kind != "uniform":
        kw["sampling_radius"] = radius
    if kind == "dycors":
        pp = float(rng.choice([0.0, 1.0 / dim, 0.1, 0.35, 0.7, 1.0]))
        kw["prob_perturb"] = pp
        if rng.random() < 0.3:
            x = X[int(rng.integers(n))].copy()
            kw["xbest"] = x.copy()
            out.ok("given-centre")
    fn = dict(srbf=ap.candidate_srbf, dycors=ap.candidate_dycors, uniform=ap.candidate_uniform)[kind]
    keep = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, (np.ndarray, list))}
    R = np.asarray(fn(**kw), dtype=float)
    for k, v in keep.items():
        out.check(np.array_equal(v, np.asarray(kw[k])), "inputs-changed", lambda: "candidate_%s changed its argument %s" % (kind, k))
    if ints:
        out.ok("int-calls")
    on = np.any((x == lb) | (x == ub))
    if on:
        out.ok("incumbent-on-bound")
    C = np.vstack(kw["surrogate"].seen)
    tag = "candidate_%s(dim %d, subset %s, radius %g, prob %s, incumbent %s)" % (kind, dim, kw["subset"], radius, pp, where)
    out.check(len(C) == ncand, "number-of-candidates", lambda: "%s: %d candidates, %d requested" % (tag, len(C), ncand))
    out.check(R.shape == (npts, dim) and all((C == r).all(axis=1).any() for r in R), "not-a-candidate", lambda: "%s: returned %s" % (tag, R))
    judge_candidates(out, rng, kind, C, x, radius, pp, subset, lb, ub, ints, tag, "call-" + kind)
    out.state("call", kind, dim, tuple(subset), tuple(sorted(ints)), radius, pp, where, bool(on))
    out.sample(dict(call=tag, candidates=len(C)))


def run_case(spec, out):
    if spec["kind"] == "run":
        run_sim(spec, out, make, [CandidateLaw()])
    else:
        call(np.random.default_rng(spec["seed"]), out)


def final(n, out):
    groups = ["call-srbf", "call-dycors", "call-uniform"] + ["run-%s%s" % (g, c) for g in ("srbf", "dycors") for c in ("", "-extra", "-again", "-pending")]
    uniform_bins(n, out, "step ", "step-distribution", ["%s %s" % (g, c) for g in groups for c in ("cont", "int")])
    uniform_bins(n, out, "count ", "perturbation-count", [g for g in groups if "dycors" in g])
    for k in list(n):
        if k.startswith("freq-v "):
            g = k[7:]
            z = (n["freq-k " + g] - n["freq-e " + g]) / max(n[k], 1.0) ** 0.5
            out.check(abs(z) < 6.6, "perturbation-probability", lambda: "%s: %d perturbed coordinates, %.0f expected (%.1f standard deviations)" % (g, n["freq-k " + g], n["freq-e " + g], z))
