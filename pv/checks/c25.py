import math
from fractions import Fraction

import numpy as np

from ..sim import gen_bounds
from ..simcheck import plain_cases

RULE = "distinct (bounds style, dimension, integer set, fractional bounds, shape) mappings and roundings compared with exact arithmetic"
NEED = {"integer-arrays": 20, "box-entries": 16540, "rescaled": 1450, "rounded-entries": 8000, "clipped-up": 200, "clipped-down": 200, "constant": 200}
CHUNK = 4
cases = plain_cases(600, 5000)


def frac(a):
    return Fraction(float(a))


def boxes(rng, out):
    from pySOT.utils import from_unit_box, to_unit_box

    dim = int(rng.integers(1, 7)) if rng.random() < 0.985 else int(rng.integers(7, 60))
    style = str(rng.choice(["unit", "sym", "aniso", "neg", "tight", "wild"]))
    if style == "wild":
        w = 10.0 ** rng.uniform(-12, 12, dim)
        lb = rng.normal(size=dim) * w * 10.0 ** rng.uniform(-2, 3, dim)
        ub = lb + w
        bad = ub <= lb
        ub[bad] = lb[bad] + 1 + abs(lb[bad])
    else:
        lb, ub = gen_bounds(rng, dim, style)
    n = int(rng.integers(1, 8)) if dim < 7 else int(rng.choice([1, 30, 200]))
    U = rng.uniform(-0.5, 1.5, (n, dim)) if rng.random() < 0.3 else rng.random((n, dim))
    U[rng.random((n, dim)) < 0.1] = 0.0
    U[rng.random((n, dim)) < 0.1] = 1.0
    X = lb + U * (ub - lb)
    if rng.random() < 0.08:  # arrays of integers
        style = "ints"
        L = rng.integers(-50, 50, dim)
        lb, ub = (L, L + rng.integers(1, 60, dim)) if rng.random() < 0.7 else (L.astype(float), L + rng.integers(1, 60, dim) + 0.5)
        X = np.round(lb + U * (ub - lb)).astype(int)
        U = rng.integers(0, 2, (n, dim)) if rng.random() < 0.3 else U
        out.ok("integer-arrays")
    form = int(rng.integers(4))
    L, H = (lb, ub) if form < 2 else (lb.reshape(1, -1), ub.reshape(1, -1))
    if form == 1:
        X, U = X[0], U[0]
    if form == 3:
        X, U = np.asfortranarray(X), np.asfortranarray(U)
    for a in (X, U, L, H):
        a.setflags(write=False)
    T = np.asarray(to_unit_box(X, L, H))
    F = np.asarray(from_unit_box(U, L, H))
    B = np.asarray(from_unit_box(T, L, H))
    G = np.asarray(to_unit_box(F, L, H))
    name = "%s box, dim %d, shape %s" % (style, dim, X.shape)
    ok = all(a.reshape(-1, dim).shape == X.reshape(-1, dim).shape for a in (T, F, B, G))
    if not out.check(ok, "shape", lambda: "%s: shapes %s %s %s %s" % (name, T.shape, F.shape, B.shape, G.shape)):
        return
    for r, (x, u, t, f, b, g) in enumerate(zip(*[a.reshape(-1, dim) for a in (X, U, T, F, B, G)])):
        for j in range(dim):
            l, h = frac(lb[j]), frac(ub[j])
            et = (frac(x[j]) - l) / (h - l)
            ef = l + (h - l) * frac(u[j])
            mag = abs(lb[j]) + abs(ub[j]) + abs(x[j])
            tol = 1e-14 * mag
            tolu = tol / (ub[j] - lb[j]) + 1e-15
            out.ok("box-entries")
            out.check(abs(t[j] - float(et)) <= tolu, "to-unit-box", lambda: "%s: %r in [%r, %r] maps to %r, exactly %r" % (name, x[j], lb[j], ub[j], t[j], float(et)))
            out.check(abs(f[j] - float(ef)) <= tol, "from-unit-box", lambda: "%s: %r to [%r, %r] gives %r, exactly %r" % (name, u[j], lb[j], ub[j], f[j], float(ef)))
            out.check(abs(b[j] - x[j]) <= 4 * tol, "not-inverse", lambda: "%s: %r -> %r -> %r" % (name, x[j], t[j], b[j]))
            out.check(abs(g[j] - u[j]) <= 4 * tolu, "not-inverse", lambda: "%s: %r -> %r -> %r" % (name, u[j], f[j], g[j]))
            if 0 <= u[j] <= 1:
                out.check(lb[j] <= f[j] <= ub[j], "leaves-the-box", lambda: "%s: %r to [%r, %r] gives %r" % (name, u[j], lb[j], ub[j], f[j]))
            if u[j] == 1:
                out.check(f[j] == ub[j], "bounds", lambda: "%s: 1 maps to %r, upper bound %r" % (name, f[j], ub[j]))
            if u[j] == 0:
                out.check(f[j] == lb[j], "bounds", lambda: "%s: 0 maps to %r, lower bound %r" % (name, f[j], lb[j]))
    e0, e1 = np.asarray(to_unit_box(lb, lb, ub)).ravel(), np.asarray(to_unit_box(ub, lb, ub)).ravel()
    out.check(np.all(np.abs(e0) <= 1e-12) and np.all(np.abs(e1 - 1) <= 1e-12), "bounds", lambda: "%s: bounds map to %s and %s" % (name, e0, e1))
    out.state("box", style, dim, form, n)


def rescale(rng, out):
    from pySOT.utils import unit_rescale

    n = int(rng.choice([1, 2, 3, 10, 50])) if rng.random() < 0.98 else int(rng.choice([700, 5000]))
    kind = int(rng.integers(8))
    x = rng.normal(size=n)
    if kind == 1:
        x = x * 1e-9 + 1e3
    elif kind == 2:
        x = x * 1e200
    elif kind == 3:
        x = rng.integers(-4, 5, n)
    elif kind == 4:
        x = np.full(n, float(rng.choice([0.0, -3.7, 1e-300, 1e15])))
    elif kind == 5:
        x = np.sort(x)[::-1]
    elif kind == 6:
        x = np.where(rng.random(n) < 0.5, 5.0, np.nextafter(5.0, 6))
    elif kind == 7:
        x = x * 1e-200
    if rng.random() < 0.4:
        x = x.reshape(-1, 1)
    keep = x.copy()
    x.setflags(write=False)
    r = np.asarray(unit_rescale(x))
    out.ok("rescaled")
    out.check(np.array_equal(keep, x), "inputs-changed", "unit_rescale changed its argument")
    if not out.check(r.shape == x.shape, "shape", lambda: "unit_rescale of shape %s gives %s" % (x.shape, r.shape)):
        return
    xr, rr = x.ravel(), r.ravel()
    lo, hi = xr.min(), xr.max()
    if lo == hi:
        out.ok("constant")
        out.check(np.all(rr == 1), "constant", lambda: "constant vector %r maps to %s" % (lo, rr))
        return
    out.check(rr.min() == 0 and rr.max() == 1, "range", lambda: "range [%r, %r] for %s" % (rr.min(), rr.max(), xr))
    o = np.argsort(xr, kind="stable")
    out.check(np.all(np.diff(rr[o]) >= 0), "order", lambda: "order not preserved for %s: %s" % (xr, rr))
    L, H = frac(lo), frac(hi)
    for v, w in zip(xr, rr):
        e = (frac(v) - L) / (H - L)
        out.check(abs(w - float(e)) <= 1e-12, "affine", lambda: "%r in [%r, %r] maps to %r, exactly %r" % (v, lo, hi, w, float(e)))
    out.state("rescale", kind, n, x.ndim)


def rounding(rng, out):
    from pySOT.utils import round_vars

    dim = int(rng.integers(1, 7)) if rng.random() < 0.98 else int(rng.integers(7, 40))
    lb, ub = gen_bounds(rng, dim, str(rng.choice(["unit", "sym", "aniso", "neg"])))
    k = int(rng.integers(0, dim + 1))
    ints = np.sort(rng.choice(dim, k, replace=False))
    for j in ints:
        a = int(rng.integers(-30, 30))
        fl, fu = rng.choice([0.0, 0.0, 0.2, 0.5, 0.7, 0.999], 2)
        lb[j], ub[j] = a - fl, a + int(rng.integers(1, 40)) + fu
    n = int(rng.integers(1, 12)) if rng.random() < 0.98 else int(rng.choice([150, 1200]))
    X = lb + rng.uniform(-0.3, 1.3, (n, dim)) * (ub - lb) if rng.random() < 0.4 else lb + rng.random((n, dim)) * (ub - lb)
    for j in ints:
        if rng.random() < 0.03:  # odd integers that have no room for a half
            lb[j], ub[j] = -(2.0 ** 53) + 1, 2.0 ** 53 - 1
            X[:, j] = (rng.integers(2 ** 52, 2 ** 53 - 1, n) * rng.choice([-1, 1], n)).astype(float)
        m = rng.random(n)
        X[m < 0.1, j] = lb[j]
        X[m > 0.9, j] = ub[j]
        s = (m > 0.4) & (m < 0.5)
        X[s, j] = np.round(X[s, j]) + rng.choice([-1e-9, 0, 1e-9], s.sum())
        s = (m > 0.5) & (m < 0.55)
        X[s, j] = np.floor(X[s, j]) + 0.5
        h = rng.random(n)
        X[s & (h < 0.6), j] = np.nextafter(X[s & (h < 0.6), j], np.where(h < 0.3, -np.inf, np.inf)[s & (h < 0.6)])
        s = (m > 0.55) & (m < 0.57)
        X[s, j] = rng.choice([-1e9, 1e9, 2.0 ** 52 + 1, np.nextafter(0.5, 0), -np.nextafter(0.5, 0)], s.sum())
    iv = [ints, [int(i) for i in ints], ints.astype(np.int32)][int(rng.integers(3))] if k else [[], np.array([])][int(rng.integers(2))]
    keep, kl, ku = X.copy(), lb.copy(), ub.copy()
    R = np.asarray(round_vars(X.copy(), iv, lb, ub))
    out.check(np.array_equal(kl, lb) and np.array_equal(ku, ub), "inputs-changed", "round_vars changed the bounds")
    if not out.check(R.shape == keep.shape, "shape", lambda: "round_vars gives shape %s" % (R.shape,)):
        return
    for j in range(dim):
        if j not in set(ints):
            out.check(np.array_equal(R[:, j], keep[:, j]), "continuous-changed", lambda: "continuous coordinate %d changed: %s -> %s" % (j, keep[:, j], R[:, j]))
            continue
        lo, hi = math.ceil(lb[j]), math.floor(ub[j])
        for x, r in zip(keep[:, j], R[:, j]):
            best = min(max(round(x), lo), hi)
            out.ok("rounded-entries")
            if x < lo - 0.5 or (round(x) < lo):
                out.ok("clipped-up")
            if round(x) > hi:
                out.ok("clipped-down")
            good = r == round(r) and lo <= r <= hi and abs(frac(r) - frac(x)) <= abs(best - frac(x))
            out.check(good, "not-nearest", lambda: "%r in [%r, %r] rounds to %r, nearest admissible integer %r" % (x, lb[j], ub[j], r, best))
    again = np.asarray(round_vars(R.copy(), iv, lb, ub))
    out.check(np.array_equal(again, R), "not-idempotent", "rounding twice differs from rounding once")
    out.state("round", dim, tuple(ints), tuple(np.round(lb[ints] % 1, 3)), tuple(np.round(ub[ints] % 1, 3)))
    out.sample(dict(lb=lb.tolist(), ub=ub.tolist(), int_var=ints.tolist(), before=keep[0].tolist(), after=R[0].tolist()))


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    for _ in range(16):
        boxes(rng, out)
        rescale(rng, out)
        rounding(rng, out)
