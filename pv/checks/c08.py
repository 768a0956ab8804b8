import numpy as np
from scipy.spatial.distance import cdist

from .. import direct
from ..mon import Separation, order_ok
from ..sim import gen_spec
from ..simcheck import run_sim

RULE = "distinct (strategy, batch, evaluated, pending, some candidate too close, problem) generation steps"
NEED = {"generations": 500, "generations-with-close-candidates": 50, "direct-generations": 300, "direct-with-close-candidates": 120}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [dict(mode="run", i=i) for i in range(250 * k)] + [dict(mode="direct") for _ in range(500 * k)] + [dict(mode="ga") for _ in range(40 * k)]


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.35, 0.25, 0.25, 0.075, 0.075]))
    if spec["i"] % 8 == 0:
        # small integer domains with far more evaluations in flight than done: candidates keep hitting pending points
        return gen_spec(rng, strat=str(rng.choice(["srbf", "dycors", "dycors", "sop"])), dim=int(rng.choice([1, 1, 2])), asynchronous=True,
                        fkind=str(rng.choice(["flat", "func", "improve"])), weights=[1.0], ints="all", faults="adapt", extras=False,
                        order=str(rng.choice(["straggler", "lifo"])), workers=int(rng.integers(10, 26)), budget=50, reject=False, heavy=0)
    if spec["i"] % 8 == 1:
        # the points in flight when the run converged stay there, and the next run is drawn to the same places
        s = gen_spec(rng, strat=str(rng.choice(["srbf", "dycors"])), dim=int(rng.choice([1, 1, 2])), asynchronous=True, restarts=True,
                     fkind=str(rng.choice(["func", "offset", "neg"])), weights=[1.0], ints="all", faults="adapt", extras=False,
                     order="old", workers=int(rng.integers(4, 12)), budget=int(rng.choice([80, 140])), reject=False, heavy=0)
        return s
    if spec["i"] % 16 == 2:
        s = gen_spec(rng, strat=str(rng.choice(["ei", "lcb"])), dim=int(rng.choice([1, 2, 3])), asynchronous=True, restarts=True,
                     fkind="func", faults="adapt", extras=False, order="old", workers=int(rng.integers(3, 7)), budget=lambda r, n0: n0 + int(r.integers(4, 12)))
        s["surrogate"] = dict(kind="cheap", amps=[0.0, float(10 ** rng.uniform(-3, 1)), 0.0, float(10 ** rng.uniform(-3, 1))])
        s["dtol"] = float(rng.choice([0.05, 0.15]) * max(b - a for a, b in zip(s["prob"]["lb"], s["prob"]["ub"])))
        return s
    # narrow domains, integer variables and exploitation weights make candidates collide with known points
    s = gen_spec(rng, strat=st, dim=int(rng.choice([1, 1, 2, 2, 3])), fkind=str(rng.choice(["flat", "func", "script", "near"])),
                 weights=[[1.0], [1.0, 0.95], None][int(rng.integers(3))], ints=str(rng.choice(["some", "none", "all"])),
                 faults="adapt", order=str(rng.choice(["random", "straggler"])), workers=int(rng.choice([1, 2, 4, 6])) if rng.random() < 0.9 else int(rng.integers(12, 30)),
                 surrogate=None)
    p = s["prob"]
    if rng.random() < 0.6:  # shrink the continuous ranges so that 1e-3 matters
        for i in range(p["dim"]):
            if i not in p["int_var"]:
                p["ub"][i] = p["lb"][i] + float(rng.choice([0.05, 0.2, 1.0]))
        if s.get("extra"):
            s["extra"] = None
            s["extra_vals"] = None
    if st in ("ei", "lcb"):
        s["dtol"] = [None, 0.0, 0.02, 0.1][int(rng.integers(4))]
        if s["dtol"]:
            s["dtol"] = float(s["dtol"] * max(b - a for a, b in zip(p["lb"], p["ub"])))
    return s


def direct_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    if spec["mode"] == "ga":
        g = direct.ga(rng, crowd=True)
        R, mu, sd = g["run"](g["n"], 1e300)
        if R is None:
            return
        ch = direct.chunks(mu, sd, g["n"])
        own = [c[0] for c in ch] if ch else None
        C = np.vstack([a for a, _ in mu])
    else:
        g = direct.candidates(rng, crowd=True)
        R, C, own = g["R"], g["C"], None
    ref = np.vstack((g["X"], g["P"]))
    out.ok("direct-generations")

    def test(order):
        S = ref
        for i, x in enumerate(order):
            d = cdist(x[None, :], S).min()
            if d < g["dtol"] * (1 - 1e-12):
                K = own[i] if own else C
                if (cdist(K, S).min(axis=1) >= g["dtol"]).any():
                    return False, "point %d is %.3g from a point evaluated, pending or in the batch" % (i, d)
            S = np.vstack((S, x[None, :]))
        return True, ""

    ok, msg = order_ok(list(R), test)
    out.check(ok, "too-close", lambda: "%s: %s" % (g["tag"], msg))
    if (cdist(C, ref).min(axis=1) < g["dtol"]).any():
        out.ok("direct-with-close-candidates")
    out.state("direct", g["tag"])


def run_case(spec, out):
    if spec["mode"] != "run":
        return direct_case(spec, out)
    run_sim(spec, out, make, [Separation()])
