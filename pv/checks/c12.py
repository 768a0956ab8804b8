import numpy as np

from ..mon import Restart
from ..sim import gen_spec
from ..simcheck import run_sim
from ..twin import restart_twin

RULE = "distinct (restart or stop, strategy, mode, in flight, completed) situations judged"
NEED = {"restarts-judged": 60, "stops-judged": 20, "asks-after-convergence": 30, "judged-runs": 100}


def cases(tier, seed):
    n, m = (260, 60) if tier == "quick" else (2600, 900)
    return [dict(mode="run") for _ in range(n)] + [dict(mode="twin", i=i) for i in range(m)]


def twin(rng, spec):
    st = ["srbf", "ei", "srbf", "lcb", "dycors", "srbf"][spec["i"] % 6]
    gp = st in ("ei", "lcb")
    dim = 1 if st == "dycors" else int(rng.choice([1, 2, 3]))
    s = gen_spec(rng, strat=st, dim=dim, ints="some" if not gp else "none", extras=False, restarts=True, budget=2000, num_cand=20,
                 workers=int(rng.choice([1, 2, 4])), batch=int(rng.choice([1, 2, 3])),
                 weights=[float(rng.choice([0.3, 0.8, 1.0]))], design="slhd", cap=False,
                 surrogate=dict(kind="rbf", kernel="cubic", tail="linear"))
    # values of the first run are far from those of the second, in the direction in which they would matter
    s["shift"] = float(rng.choice([-20, 20])) if st in ("srbf", "dycors") else (20.0 if st == "lcb" else -20.0)
    s["tol"] = 0.5
    s["amp"] = 10.0 if gp else 1.0
    s["late"] = bool(rng.random() < 0.5) and st != "lcb"
    s["steps"] = (2 * s["design"]["n"] + 8) if gp else 3 * s["design"]["n"] + 40
    return s



def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.4, 0.3, 0.05, 0.125, 0.125]))
    gp = st in ("ei", "lcb")
    s = gen_spec(rng, strat=st, dim=int(rng.choice([1, 1, 2, 2, 3])), ints="some", faults="adapt",
                 fkind=str(rng.choice(["flat", "flat", "script", "worse", "func", "near"])), budget=int(rng.choice([40, 80, 120])) if not gp else int(rng.choice([8, 20])),
                 restarts=bool(rng.random() < 0.65), num_cand=20, workers=int(rng.choice([1, 2, 4, 7])))
    if s["surrogate"]["kind"] == "gp" and not gp:
        s["surrogate"] = dict(kind="rbf", kernel="cubic", tail="linear", cap=False)
    if gp:
        s["tol"] = [0.05, 0.5, 2.0][int(rng.integers(3))]
        s["batch"] = 1 if rng.random() < 0.7 else 2
    return s


def run_case(spec, out):
    if spec["mode"] == "twin":
        rng = np.random.default_rng(spec["seed"])
        return restart_twin(twin(rng, spec), rng, out)
    run_sim(spec, out, make, [Restart()])
