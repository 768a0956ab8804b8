from ..mon import Radius
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (strategy, tolerance, success/failure counters, radius, mode, in flight) states of the radius rule"
NEED = {"steps-success": 300, "steps-failure": 1000, "halvings": 100, "doublings": 20, "converged-by-failures": 10,
        "converged-by-radius": 1, "stale-records": 20, "judged-runs": 100}
cases = long_cases(plain_cases(600, 3000), 6)


def make(rng, spec):
    if spec["i"] % 30 == 7:  # a large tolerance needs long series of failures
        return gen_spec(rng, strat=str(rng.choice(["srbf", "dycors"])), dim=int(rng.integers(12, 26)), asynchronous=bool(rng.random() < 0.7), heavy=0,
                        ints="none", faults="adapt", extras=False, batch=int(rng.choice([1, 1, 2])), fkind=str(rng.choice(["flat", "worse", "worse", "script"])),
                        budget=int(rng.choice([120, 220])), order=str(rng.choice(["fifo", "random"])), num_cand=20, workers=int(rng.choice([1, 3])),
                        surrogate=dict(kind="rbf", kernel="linear", tail="constant"))
    st = str(rng.choice(["srbf", "dycors"]))
    dim = int(rng.choice([1, 2, 3, 5, 7, 9]))
    s = gen_spec(rng, strat=st, dim=dim, heavy_dim=True, ints="none", faults="adapt", batch=int(rng.choice([1, 2, 3, 4, 6])),
                 fkind=str(rng.choice(["flat", "script", "drift", "near", "func", "improve", "worse", "neg"])),
                 budget=int(rng.choice([25, 60, 110])), order=str(rng.choice(["fifo", "random", "straggler", "lifo"])),
                 surrogate=dict(kind="rbf", kernel="linear", tail="constant") if dim > 5 else None, num_cand=20,
                 restarts=bool(rng.random() < 0.85))
    if s["surrogate"]["kind"] == "gp":
        s["surrogate"] = dict(kind="rbf", kernel="cubic", tail="linear", cap=False)
    return s


def run_case(spec, out):
    run_sim(spec, out, make, [Radius()])
