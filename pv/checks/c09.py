import numpy as np

from .. import direct
from ..mon import Merit, order_ok, plan_greedy
from ..sim import gen_spec
from ..simcheck import run_sim

RULE = "distinct (strategy, batch, reference points, weights used, problem) selections recomputed by the oracle"
NEED = {"generations": 1000, "direct-generations": 240}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [dict(mode="run") for _ in range(250 * k)] + [dict(mode="direct") for _ in range(500 * k)]


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop"], p=[0.45, 0.35, 0.2]))
    W = [None, [0.1, 0.9], [0.0, 0.5, 1.0], [0.3], [0.25, 0.5, 0.75], [0.2, 0.4, 0.6, 0.8, 1.0]][int(rng.integers(6))]
    return gen_spec(rng, strat=st, weights=W, faults="adapt", ints="some", fkind=str(rng.choice(["func", "func", "drift", "script", "flat", "neg"])))


def direct_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    g = direct.candidates(rng, crowd=bool(rng.random() < 0.4))
    ref = np.vstack((g["X"], g["P"]))
    ok, msg = order_ok(list(g["R"]), lambda o: plan_greedy(o, g["C"], g["y"], ref, g["W"], g["dtol"]))
    out.check(ok, "merit", lambda: "%s, weights %s: %s" % (g["tag"], g["W"], msg))
    out.ok("direct-generations")
    out.state("direct", g["tag"], tuple(g["W"]))


def run_case(spec, out):
    if spec["mode"] != "run":
        return direct_case(spec, out)
    run_sim(spec, out, make, [Merit()])
