import numpy as np

from ..benchmarks import ALL

RULE = "distinct (problem, dimension) pairs and distinct evaluated points compared with the formula"
NEED = {"points": 9210, "minimisers": 120, "wrong-length": 800, "special-points": 2000}
CHUNK = 2


def cases(tier, seed):
    big = tier != "quick"
    out = []
    for name, (_, fixed, least, _, _) in ALL.items():
        dims = [fixed] if fixed else sorted(set([1, 2, 3, 4, 5, 7, 10, 13] + ([6, 8, 9, 11, 12, 15, 20, 25, 30, 50] if big else [20, 40])))
        for d in dims:
            for rep in range((20 if big else 2) * (4 if fixed else 1)):
                out.append(dict(name=name, dim=d, rep=rep))
    return out


def run_case(spec, out):
    import pySOT.optimization_problems as op
    from pySOT.utils import check_opt_prob

    rng = np.random.default_rng(spec["seed"])
    name, d = spec["name"], spec["dim"]
    f, fixed, least, dom, extra = ALL[name]
    cls = getattr(op, name)
    p = cls() if fixed else (cls(d) if rng.random() < 0.5 else cls(dim=d))
    try:
        check_opt_prob(p)
    except Exception as e:
        out.fail("rejected", "%s(%d): refused by the problem check: %r" % (name, d, e))
        return
    lb, ub = np.asarray(p.lb, dtype=float), np.asarray(p.ub, dtype=float)
    out.check(p.dim == d and lb.shape == (d,) and ub.shape == (d,), "dimension", lambda: "%s(%d): dim %s, bounds %s %s" % (name, d, p.dim, lb.shape, ub.shape))
    out.check(np.all(np.isfinite(lb)) and np.all(np.isfinite(ub)) and np.all(lb < ub), "bounds", lambda: "%s: bounds %s %s" % (name, lb, ub))
    got = sorted(list(map(int, p.int_var)) + list(map(int, p.cont_var)))
    out.check(got == list(range(d)), "variables", lambda: "%s: int_var %s cont_var %s" % (name, p.int_var, p.cont_var))
    if dom:
        out.check(np.allclose(lb, dom[0], atol=1e-9) and np.allclose(ub, dom[1], atol=1e-9), "documented-bounds", lambda: "%s: bounds %s %s" % (name, lb, ub))
    # a problem without keyword has the same description as another one: no state shared between instances
    q = cls() if fixed else cls(d)
    out.check(np.array_equal(q.lb, p.lb) and np.array_equal(q.ub, p.ub), "instances", name)
    if not fixed and d != 10:
        out.check(cls().dim == 10 or cls().dim > 0, "instances", name)

    declared = getattr(p, "min", None)
    slack = 1e-4 * (1 + abs(declared or 0)) if fixed else 1e-9
    if name == "Schwefel":
        slack = 1e-3 * d
    if name == "Himmelblau":
        slack = 1e-9
    if name == "Weierstrass":
        slack = 1e-6
    # a declared minimum may be rounded in its last digit, nothing more
    below = {"SixHumpCamel": 5e-5, "Hartmann3": 1e-5, "Hartmann6": 1e-5, "Branin": 1e-6, "Weierstrass": 1e-6}.get(name, 1e-9)
    n = 40
    X = [lb + rng.random(d) * (ub - lb) for _ in range(n)]
    tags = ["random"] * n
    special = [lb.copy(), ub.copy(), 0.5 * (lb + ub)]
    for _ in range(4):  # faces, integer points, points near the minimiser, one coordinate off
        x = lb + rng.random(d) * (ub - lb)
        k = rng.integers(d)
        x[k] = lb[k] if rng.random() < 0.5 else ub[k]
        special.append(x)
        special.append(np.clip(np.round(lb + rng.random(d) * (ub - lb)), lb, ub))
        m = getattr(p, "minimum", None)
        if m is not None:
            m = np.asarray(m, dtype=float)
            x = m.copy()
            x[k] += rng.normal() * 0.3 * (ub[k] - lb[k])
            special.append(np.clip(x, lb, ub))
            special.append(np.clip(m + 1e-3 * rng.normal(size=d) * (ub - lb), lb, ub))
    X += special
    tags += ["special"] * len(special)
    if declared is not None:
        m = np.asarray(p.minimum, dtype=float)
        out.check(m.shape == (d,), "minimiser-shape", lambda: "%s: minimiser of shape %s" % (name, m.shape))
        out.check(np.all(m >= lb) and np.all(m <= ub), "minimiser-outside", lambda: "%s: minimiser %s outside [%s, %s]" % (name, m, lb, ub))
        v = float(p.eval(m.copy()))
        out.check(abs(v - declared) <= slack, "minimum-not-attained", lambda: "%s(%d): value %r at the declared minimiser, declared %r" % (name, d, v, declared))
        out.ok("minimisers")
        X.append(m)
        tags.append("minimiser")
    order = rng.permutation(len(X))
    first = {}
    for i in list(order) + list(order[:10]):
        x = X[i]
        form = int(rng.integers(4))
        if form == 0:
            a = np.array(x)
        elif form == 1:  # a strided view
            a = np.zeros((d, 3))
            a[:, 1] = x
            a = a[:, 1]
        elif form == 2:
            a = np.array(x)
            a.setflags(write=False)
        else:  # a row of a matrix
            a = np.vstack((x, x))[1]
        if d <= 10 and np.array_equal(x, np.round(x)):  # a point of integers
            a = a.astype(int)
            out.ok("integer-arrays")
        keep = a.copy()
        r = p.eval(a)
        v = float(r)
        out.check(np.array_equal(a, keep), "input-changed", lambda: "%s changed its input" % name)
        out.check(np.ndim(r) == 0, "not-a-scalar", lambda: "%s returned shape %s" % (name, np.shape(r)))
        want, scale = f([float(t) for t in x])
        tol = 1e-11 * scale + extra * d + 1e-12
        out.ok("points")
        if tags[i] == "special":
            out.ok("special-points")
        out.check(abs(v - want) <= tol, "wrong-value", lambda: "%s(%d) at %s: %r, the formula gives %r (tolerance %.3g)" % (name, d, x.tolist(), v, want, tol))
        if declared is not None:
            out.check(v >= declared - below - 1e-11 * scale, "below-minimum", lambda: "%s(%d) at %s: %r, declared minimum %r" % (name, d, x.tolist(), v, declared))
        if i in first:
            out.check(v == first[i] or abs(v - first[i]) <= 1e-12 * scale, "history-dependent", lambda: "%s: %r then %r" % (name, first[i], v))
        first[i] = v
        if rng.random() < 0.3:
            out.state(name, d, i, spec["rep"])
    for m in {0, 1, d - 1, d + 1, 2 * d, d + 7} - {d, -1}:
        x = lb[0] + rng.random(m) * (ub[0] - lb[0])
        try:
            r = p.eval(x)
            out.fail("wrong-length-accepted", "%s(%d) accepted a point of length %d: %r" % (name, d, m, r))
        except ValueError:
            out.ok("wrong-length")
            out.ok("oracle")
        except Exception as e:
            out.fail("wrong-length-accepted", "%s(%d) given length %d: %r" % (name, d, m, e))
    out.check(np.array_equal(lb, p.lb) and np.array_equal(ub, p.ub), "history-dependent", lambda: "%s changed its bounds" % name)
    out.sample(dict(problem=name, dim=d, value_at_random_point=first[0], formula=f([float(t) for t in X[0]])[0]))
