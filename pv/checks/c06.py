from ..mon import InitialDesign
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (class, run, in flight, completed, failed, rejected, design) situations in which a point was offered"
NEED = {"initial-offers": 2000, "adaptive-offers": 1000, "restart-designs": 10, "known-extra-checks": 50}
cases = long_cases(plain_cases(350, 3500), 4)


def make(rng, spec):
    if rng.random() < 0.12:  # evaluations of the initial design outlive the run and fail between its convergence and the restart
        s = gen_spec(rng, strat=str(rng.choice(["srbf", "dycors"])), asynchronous=True, workers=int(rng.choice([2, 3, 5])), dim=int(rng.choice([1, 2])),
                     fkind="flat", budget=int(rng.choice([60, 120])), order="window", pester="eager", heavy=0, num_cand=20, restarts=True,
                     surrogate=dict(kind="rbf", kernel="linear", tail="constant"))
        s["adv"]["p_fail"] = 0.05
        return s
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.4, 0.25, 0.2, 0.075, 0.075]))
    s = gen_spec(rng, strat=st, extras=bool(rng.random() < 0.7), fkind=str(rng.choice(["flat", "func", "script", "drift"])),
                 restarts=bool(rng.random() < 0.85), dim=int(rng.choice([1, 2, 3, 4])), heavy_dim=True,
                 design=str(rng.choice(["slhd", "lhd", "2fact"])))
    return s


def run_case(spec, out):
    run_sim(spec, out, make, [InitialDesign()])
