import numpy as np

from .. import direct
from ..mon import Feasible
from ..sim import gen_spec, whole_bounds
from ..simcheck import run_sim

RULE = "distinct (strategy, kind of use, dimension, number of integer variables, on the boundary, fractional bounds, problem) combinations judged"
NEED = {"point-chosen": 500, "point-initial": 500, "direct-points": 10000}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    return [dict(mode="run") for _ in range(350 * k)] + [dict(mode="direct") for _ in range(400 * k)] + [dict(mode="ga") for _ in range(20 * k)]


def make(rng, spec):
    s = gen_spec(rng, ints=str(rng.choice(["some", "none", "all"])), design=str(rng.choice(["slhd", "lhd", "2fact"])),
                 dim=int(rng.choice([1, 2, 3, 4, 5, 6])), heavy_dim=True)
    if rng.random() < 0.08:
        whole_bounds(s["prob"])
    return s


def direct_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    if spec["mode"] == "ga":
        g = direct.ga(rng)
        R, mu, sd = g["run"](g["n"], np.inf)
        if R is None:
            return
        C = R[:0]
    else:
        g = direct.candidates(rng)
        R, C = g["R"], g["C"]
    out.check(R.shape == (g["n"], g["prob"].dim), "malformed-point", lambda: "%s: shape %s" % (g["tag"], R.shape))
    for x in R:
        direct.feasible(out, g["prob"], x, g["tag"])
    for x in C:  # every candidate could have been chosen
        direct.feasible(out, g["prob"], x, g["tag"] + " considered a point that")
    out.ok("direct-points", len(R) + len(C))
    out.state("direct", g["kind"], g["prob"].dim, len(g["prob"].int_var), g["tag"])


def run_case(spec, out):
    if spec["mode"] != "run":
        return direct_case(spec, out)
    run_sim(spec, out, make, [Feasible()])
