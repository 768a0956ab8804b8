import numpy as np

from ..sim import gen_bounds
from ..simcheck import plain_cases

RULE = "distinct (class, injected defect or valid form, mode, dimension) constructions"
NEED = {"valid": 1200, "refused": 2500, "usable-afterwards": 790}
CHUNK = 2
cases = plain_cases(500, 4000)


def problem(rng, dim=None):
    from ..objs import Prob

    dim = dim or int(rng.integers(1, 5))
    lb, ub = gen_bounds(rng, dim, str(rng.choice(["unit", "sym", "neg", "aniso"])))
    iv = []
    if dim > 1 and rng.random() < 0.5:
        iv = [int(i) for i in np.sort(rng.choice(dim, int(rng.integers(1, dim)), replace=False))]
    if rng.random() < 0.1:
        iv = list(range(dim))
    for i in iv:
        lb[i] = int(rng.integers(-50, 0))
        ub[i] = lb[i] + int(rng.integers(40, 90))
    return Prob(dict(dim=dim, lb=lb.tolist(), ub=ub.tolist(), int_var=iv, fkind="func", fseed=int(rng.integers(1 << 30))))


def kernel_tail(rng, dim, valid):
    from pySOT.surrogate import ConstantTail, CubicKernel, LinearKernel, LinearTail, TPSKernel

    good = [(CubicKernel, LinearTail), (TPSKernel, LinearTail), (LinearKernel, LinearTail), (LinearKernel, ConstantTail)]
    bad = [(CubicKernel, ConstantTail), (TPSKernel, ConstantTail)]
    k, t = (good if valid else bad)[int(rng.integers(4 if valid else 2))]
    return k(), t(dim)


def surrogate(rng, prob, gp):
    from pySOT.surrogate import GPRegressor, PolyRegressor, RBFInterpolant
    from pySOT.surrogate.output_transformations import median_capping

    from ..objs import make_gp_model

    a = dict(dim=prob.dim, lb=prob.lb, ub=prob.ub)
    if rng.random() < 0.3:
        a["output_transformation"] = median_capping
    if gp:
        if rng.random() < 0.5:
            a["gp"] = make_gp_model(prob.dim)
        return GPRegressor(**a)
    if rng.random() < 0.25:
        return PolyRegressor(degree=int(rng.integers(1, 4)), **a)
    if rng.random() < 0.75:
        a["kernel"], a["tail"] = kernel_tail(rng, prob.dim, True)
        if rng.random() < 0.5:
            a["eta"] = float(rng.choice([1e-8, 1e-6, 1e-3]))
    return RBFInterpolant(**a)


class NotAnything:
    dim = 2
    num_pts = 4
    lb, ub = np.zeros(2), np.ones(2)
    int_var, cont_var = np.array([]), np.arange(2)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def bad_problem(rng, prob):
    """A problem with one defect."""
    from pySOT.optimization_problems import OptimizationProblem

    class P(OptimizationProblem):
        def eval(self, x):
            return 0.0

    p = P()
    p.dim, p.lb, p.ub = prob.dim, prob.lb.copy(), prob.ub.copy()
    p.int_var, p.cont_var = np.array(prob.int_var), np.array(prob.cont_var)
    d = p.dim
    j = int(rng.integers(d))
    kinds = ["lb>ub", "lb=ub", "short-lb", "long-ub", "list-lb", "list-ub", "none-lb", "float-dim", "zero-dim", "negative-dim", "big-dim", "missing-var",
             "overlap", "index-high", "index-negative", "duplicate-kind", "nan-bound", "repeated-index", "no-integer"]
    k = str(rng.choice(kinds))
    if k == "lb>ub":
        p.lb[j], p.ub[j] = p.ub[j], p.lb[j]
    elif k == "lb=ub":
        p.ub[j] = p.lb[j]
    elif k == "short-lb":
        p.lb = p.lb[:-1]
    elif k == "long-ub":
        p.ub = np.append(p.ub, p.ub[-1] + 1)
    elif k == "list-lb":
        p.lb = p.lb.tolist()
    elif k == "list-ub":
        p.ub = p.ub.tolist()
    elif k == "none-lb":
        p.lb = None
    elif k == "float-dim":
        p.dim = float(d) + 0.5 * (rng.random() < 0.5)
    elif k == "zero-dim":
        p.dim = 0
    elif k == "negative-dim":
        p.dim = -d
    elif k == "big-dim":
        p.dim = d + 1
    elif k == "missing-var":
        if len(p.cont_var):
            p.cont_var = np.delete(p.cont_var, int(rng.integers(len(p.cont_var))))
        else:
            p.int_var = np.delete(p.int_var, 0)
    elif k == "overlap":
        if len(p.cont_var) and len(p.int_var):
            p.int_var = np.append(p.int_var, p.cont_var[0]).astype(int)
        else:
            p.int_var, p.cont_var = np.array([j]), np.arange(d)
    elif k in ("index-high", "index-negative"):
        v = "cont_var" if len(p.cont_var) else "int_var"
        a = np.array(getattr(p, v))
        a[-1] = d + int(rng.integers(0, 3)) if k == "index-high" else -1
        setattr(p, v, a)
    elif k == "duplicate-kind":
        p.int_var, p.cont_var = np.arange(d), np.arange(d)
    elif k == "repeated-index":  # one variable listed twice, another one not at all
        v = max(("cont_var", "int_var"), key=lambda v: len(getattr(p, v)))
        a = np.array(getattr(p, v)).astype(int)
        if len(a) > 1:
            a[0] = a[1]
            setattr(p, v, a)
        else:
            p.lb[j] = p.ub[j]
    elif k == "no-integer":  # no admissible value
        p.lb[j] = np.floor(p.lb[j]) + 0.25
        p.ub[j] = p.lb[j] + 0.5
        p.int_var = np.union1d(p.int_var, [j]).astype(int)
        p.cont_var = np.setdiff1d(p.cont_var, [j]).astype(int)
    elif k == "nan-bound":
        (p.lb if rng.random() < 0.5 else p.ub)[j] = np.nan
    return p, k


def base_args(rng, cls_name, prob):
    from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial

    gp = cls_name in ("EIStrategy", "LCBStrategy")
    n = 2 * (prob.dim + 1) + int(rng.integers(0, 4))
    des = [lambda: SymmetricLatinHypercube(prob.dim, n, iterations=30), lambda: LatinHypercube(prob.dim, n, iterations=30), lambda: TwoFactorial(prob.dim)][int(rng.choice(3, p=[0.5, 0.3, 0.2]))]()
    n = des.num_pts
    a = dict(max_evals=n + int(rng.choice([0, 0, 1, 30])), opt_prob=prob, exp_design=des, surrogate=surrogate(rng, prob, gp))
    form = []
    if rng.random() < 0.5:
        a["asynchronous"] = False
        a["batch_size"] = int(rng.integers(1, 5))
        form.append("sync")
    else:
        form.append("async")
        if rng.random() < 0.5:
            a["asynchronous"] = True
        if rng.random() < 0.3:
            a["batch_size"] = int(rng.integers(1, 5))
    if rng.random() < 0.4:
        m = int(rng.integers(1, 4))
        E = prob.lb + rng.random((m, prob.dim)) * (prob.ub - prob.lb)
        E[:, prob.int_var.astype(int)] = np.round(E[:, prob.int_var.astype(int)])
        a["extra_points"] = E
        if rng.random() < 0.7:
            v = rng.normal(size=(m, 1))
            v[rng.random(m) < 0.4] = np.nan
            a["extra_vals"] = v if rng.random() < 0.6 else v.ravel()
        form.append("extra")
    if rng.random() < 0.4:
        a["use_restarts"] = bool(rng.random() < 0.5)
    if cls_name in ("SRBFStrategy", "DYCORSStrategy"):
        k = int(rng.integers(5))
        if k:
            a["weights"] = [[0.3, 0.5, 0.8, 0.95], [0.0, 1.0], np.array([0.2, 0.9]), [float(rng.random())]][k - 1]
            form.append("weights%d" % k)
    if cls_name in ("SRBFStrategy", "DYCORSStrategy", "SOPStrategy") and rng.random() < 0.4:
        a["num_cand"] = int(rng.integers(5, 50))
    if cls_name == "SOPStrategy":
        nc = int(rng.integers(1, 6))
        if not a.get("asynchronous", True):
            nc = a["batch_size"] + int(rng.integers(0, 3))
        if nc != 4 or rng.random() < 0.5:
            a["ncenters"] = nc
    if cls_name == "EIStrategy" and rng.random() < 0.4:
        a["ei_tol"] = 1e-4
    if cls_name == "LCBStrategy" and rng.random() < 0.4:
        a["kappa"] = 1.5
        a["lcb_tol"] = 1e-3
    if gp and rng.random() < 0.4:
        a["dtol"] = 1e-2
    return a, form


def spoil(rng, cls_name, a, prob):
    """One defect injected in valid arguments: (arguments, name)."""
    b = dict(a)
    opts = ["surrogate-type", "design-type", "problem-type", "problem", "problem", "problem", "zero-budget", "negative-budget", "float-budget",
            "string-budget", "small-budget", "small-budget", "no-batch-size", "none-surrogate", "none-design"]
    if cls_name in ("SRBFStrategy", "DYCORSStrategy"):
        opts += ["weights", "weights"]
    if cls_name == "SOPStrategy":
        opts += ["ncenters-zero", "ncenters-negative", "ncenters-float", "batch>centers", "batch>centers"]
    if cls_name in ("EIStrategy", "LCBStrategy"):
        opts += ["not-a-gp"] * 2
    k = str(rng.choice(opts))
    n = a["exp_design"].num_pts
    if k == "surrogate-type":
        b["surrogate"] = [NotAnything(), "rbf", type(a["surrogate"]), a["exp_design"]][int(rng.integers(4))]
    elif k == "design-type":
        b["exp_design"] = [NotAnything(), np.zeros((6, prob.dim)), type(a["exp_design"]), a["surrogate"]][int(rng.integers(4))]
    elif k == "problem-type":
        b["opt_prob"] = [NotAnything(), type(prob), "Ackley", None][int(rng.integers(4))]
    elif k == "none-surrogate":
        b["surrogate"] = None
    elif k == "none-design":
        b["exp_design"] = None
    elif k == "problem":
        b["opt_prob"], w = bad_problem(rng, prob)
        k = "problem:" + w
    elif k == "zero-budget":
        b["max_evals"] = 0
    elif k == "negative-budget":
        b["max_evals"] = -int(rng.integers(1, 50))
    elif k == "float-budget":
        b["max_evals"] = float(a["max_evals"]) + float(rng.choice([0.0, 0.5, 30.0]))
    elif k == "string-budget":
        b["max_evals"] = ["50", None, [50]][int(rng.integers(3))]
    elif k == "small-budget":
        b["max_evals"] = n - 1 if rng.random() < 0.7 else int(rng.integers(1, n))
    elif k == "no-batch-size":
        b["asynchronous"] = False
        b.pop("batch_size", None)
        if rng.random() < 0.5:
            b["batch_size"] = None
    elif k == "weights":
        w = [0.3, 0.5, 0.95]
        w[int(rng.integers(3))] = float(rng.choice([-0.1, 1.0001, 2.0, -1e-9, np.nan, np.inf]))
        b["weights"] = [w, np.array(w), "0.5", 0.5][int(rng.choice(4, p=[0.4, 0.3, 0.15, 0.15]))]
    elif k == "ncenters-zero":
        b["ncenters"] = 0
    elif k == "ncenters-negative":
        b["ncenters"] = -3
    elif k == "ncenters-float":
        b["ncenters"] = 4.0
    elif k == "batch>centers":
        b["asynchronous"] = False
        b["batch_size"] = 5 + int(rng.integers(0, 3))
        if rng.random() < 0.5:
            b["ncenters"] = int(rng.integers(1, 5))
        else:
            b.pop("ncenters", None)  # the default is 4
    elif k == "not-a-gp":
        b["surrogate"] = surrogate(rng, prob, False)
    return b, k


def describe(b):
    return {k: (v if isinstance(v, (int, float, str, bool, list, type(None))) else type(v).__name__) for k, v in b.items()}


def strategies(rng, out):
    import pySOT.strategy as S

    name = str(rng.choice(["SRBFStrategy", "DYCORSStrategy", "SOPStrategy", "EIStrategy", "LCBStrategy"]))
    cls = getattr(S, name)
    prob = problem(rng)
    a, form = base_args(rng, name, prob)
    for _ in range(2):
        b, what = spoil(rng, name, a, prob)
        sur = a["surrogate"]
        loaded = rng.random() < 0.5
        if loaded:
            sur.reset()
            sur.add_points(prob.lb + rng.random((prob.dim + 3, prob.dim)) * (prob.ub - prob.lb), rng.normal(size=(prob.dim + 3, 1)))
        before = (sur.num_pts, np.array(sur.X).copy(), np.array(sur.fX).copy(), prob.lb.copy(), prob.ub.copy(), np.array(prob.int_var), np.array(prob.cont_var))
        try:
            cls(**b)
            out.fail("accepted", "%s accepted an invalid argument (%s): %s" % (name, what, describe(b)))
        except Exception:
            out.ok("refused")
            out.ok("oracle")
        after = (sur.num_pts, np.array(sur.X), np.array(sur.fX), prob.lb, prob.ub, np.array(prob.int_var), np.array(prob.cont_var))
        out.check(all(np.array_equal(x, y) for x, y in zip(before, after)), "objects-changed",
                  lambda: "refusing %s in %s changed the caller's objects (surrogate had %s points, now %s)" % (what, name, before[0], after[0]))
        out.state(name, what, form[0], prob.dim)
    keep = {k: np.array(a[k], copy=True) for k in ("extra_points", "extra_vals", "weights") if a.get(k) is not None}
    try:
        st = cls(**a)
    except Exception as e:
        out.fail("rejected", "%s refused valid arguments %s: %r" % (name, describe(a), e))
        return
    out.ok("valid")
    out.ok("usable-afterwards")
    p = st.propose_action()
    good = p is not None and p.action == "eval"
    out.check(good, "unusable", lambda: "%s built with %s proposes %s first" % (name, describe(a), p))
    out.check(all(np.array_equal(v, np.asarray(a[k]), equal_nan=True) for k, v in keep.items()), "inputs-changed", "construction changed arrays of the caller")
    out.state(name, tuple(form), prob.dim, len(prob.int_var))
    out.sample(dict(strategy=name, refused=what, then_accepted=describe(a)))


def randoms(rng, out):
    from pySOT.strategy import RandomStrategy

    prob = problem(rng)
    n = int(rng.integers(1, 30))
    k = int(rng.integers(6))
    bad = [(0, prob, "zero"), (-n, prob, "negative"), (n + 0.5, prob, "float"), (str(n), prob, "string"), (n, NotAnything(), "type"), (n,) + bad_problem(rng, prob)][k]
    try:
        RandomStrategy(max_evals=bad[0], opt_prob=bad[1])
        out.fail("accepted", "RandomStrategy accepted an invalid argument (%s): max_evals=%r" % (bad[2], bad[0]))
    except Exception:
        out.ok("refused")
        out.ok("oracle")
    out.state("RandomStrategy", bad[2])
    try:
        st = RandomStrategy(max_evals=n, opt_prob=prob)
        out.check(st.propose_action().action == "eval", "unusable", "RandomStrategy proposes no evaluation")
    except Exception as e:
        out.fail("rejected", "RandomStrategy refused max_evals=%d: %r" % (n, e))
        return
    out.ok("valid")


def parts(rng, out):
    from pySOT.experimental_design import TwoFactorial
    from pySOT.surrogate import ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor, RBFInterpolant, TPSKernel
    from pySOT.utils import check_opt_prob

    prob = problem(rng)
    d = prob.dim
    a = dict(dim=d, lb=prob.lb, ub=prob.ub)
    k, t = kernel_tail(rng, d, False)
    bad = [
        ("kernel-tail", lambda: RBFInterpolant(kernel=k, tail=t, **a)),
        ("kernel-tail-default", lambda: RBFInterpolant(tail=ConstantTail(d), **a)),
        ("kernel-type", lambda: RBFInterpolant(kernel="cubic", tail=LinearTail(d), **a)),
        ("kernel-class", lambda: RBFInterpolant(kernel=CubicKernel, tail=LinearTail(d), **a)),
        ("tail-type", lambda: RBFInterpolant(kernel=TPSKernel(), tail=LinearKernel(), **a)),
        ("tail-dim", lambda: RBFInterpolant(kernel=CubicKernel(), tail=LinearTail(d + 1), **a)),
        ("gp-type", lambda: GPRegressor(gp=["gp", RBFInterpolant(**a), GPRegressor][int(rng.integers(3))], **a)),
        ("two-factorial", lambda: TwoFactorial(15 + int(rng.integers(0, 20)))),
        ("problem-check", lambda: check_opt_prob(bad_problem(rng, prob)[0])),
        ("problem-check-type", lambda: check_opt_prob([NotAnything(), None, type(prob)][int(rng.integers(3))])),
    ]
    for name, f in bad:
        try:
            f()
            out.fail("accepted", "invalid construction accepted: %s" % name)
        except Exception:
            out.ok("refused")
            out.ok("oracle")
        out.state("part", name, d)
    good = [
        ("rbf", lambda: RBFInterpolant(**dict(a, **dict(zip(("kernel", "tail"), kernel_tail(rng, d, True)))))),
        ("rbf-default", lambda: RBFInterpolant(d, prob.lb, prob.ub)),
        ("rbf-kernel-only", lambda: RBFInterpolant(kernel=[CubicKernel(), TPSKernel(), LinearKernel()][int(rng.integers(3))], **a)),
        ("rbf-tail-only", lambda: RBFInterpolant(tail=LinearTail(d), **a)),
        ("gp", lambda: GPRegressor(**a)),
        ("gp-restarts", lambda: GPRegressor(n_restarts_optimizer=2, **a)),
        ("gp-given", lambda: surrogate(rng, prob, True)),
        ("poly", lambda: PolyRegressor(**a)),
        ("two-factorial", lambda: TwoFactorial(int(rng.integers(1, 12)))),
        ("two-factorial-14", lambda: TwoFactorial(14)),
        ("problem-check", lambda: check_opt_prob(prob)),
    ]
    for name, f in good:
        try:
            f()
            out.ok("valid")
            out.ok("oracle")
        except Exception as e:
            out.fail("rejected", "valid construction refused: %s: %r" % (name, e))


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    for _ in range(8):
        strategies(rng, out)
    randoms(rng, out)
    parts(rng, out)
