import numpy as np

from ..mon import Budget, Dispatch, Feasible, History, InitialDesign, Progress, Radius, ResumeState, SurrogateData
from ..sim import gen_spec
from ..simcheck import run_sim
from ..twin import resume_twin

RULE = ("distinct (strategy, mode, completed, initial points left, run, phase, resumes, batch state) situations right after a "
        "resume, plus the situations seen by the run monitors afterwards")
NEED = {"crashes": 80, "resumes": 80, "resumes-in-initial-design": 15, "crashes-planned-after-restart": 15, "finished-resumed-runs": 50, "resume-twins": 40}


def cases(tier, seed):
    n, m = (150, 90) if tier == "quick" else (1500, 1200)
    return [dict(mode="crash") for _ in range(n)] + [dict(mode="twin", i=i) for i in range(m)]


def twin(rng, spec):
    st = ["srbf", "dycors", "sop", "srbf", "ei", "sop", "srbf", "dycors", "lcb"][spec["i"] % 9]
    s = gen_spec(rng, strat=st, dim=int(rng.choice([1, 2, 3])), extras=False, num_cand=20, budget=int(rng.choice([30, 60, 120])),
                 fkind=str(rng.choice(["flat", "flat", "func", "script", "drift"])), restarts=bool(rng.random() < 0.8))
    gp = st in ("ei", "lcb")
    if gp:
        s["max_evals"] = s["design"]["n"] + 8
    elif s["surrogate"]["kind"] == "gp":
        s["surrogate"] = dict(kind="rbf", kernel="tps", tail="linear", cap=False)
    s["pre"] = 3 * s["max_evals"]
    s["steps"] = 30 if gp else 120
    s["at_convergence"] = bool(rng.random() < 0.6)
    if s["at_convergence"] and st in ("srbf", "dycors"):
        s["prob"]["fkind"] = "flat"
        s["max_evals"] += 80
        s["pre"] = 10 ** 4 if rng.random() < 0.7 else s["pre"]
    return s



def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.4, 0.25, 0.25, 0.05, 0.05]))
    s = gen_spec(rng, strat=st, fkind=str(rng.choice(["flat", "func", "func", "script", "drift"])), dim=int(rng.choice([1, 2, 3])),
                 num_cand=20, faults=str(rng.choice(["none", "adapt", "any"])))
    n0 = s["design"]["n"]
    k = int(rng.integers(1, 4))
    s["crashes"] = [int(rng.integers(1, 1 + int(rng.choice([n0, 2 * n0, 3 * s["max_evals"], 6 * s["max_evals"]])))) for _ in range(k)]
    s["crash_in_save"] = bool(rng.random() < 0.35)
    if st in ("srbf", "dycors") and rng.random() < 0.35:  # die while a restart hands out its design
        s["prob"]["fkind"], s["use_restarts"], s["crash_in_save"] = "flat", True, False
        s["asynchronous"], s["adv"]["order"] = True, "straggler"
        s["max_evals"] += 40 * len(s["prob"]["lb"]) + 40
        s["crashes"] = [10 ** 6] * 2
        s["crash_after_restart"] = rng.integers(1, 25, 2).tolist()
    return s


def run_case(spec, out):
    if spec["mode"] == "twin":
        rng = np.random.default_rng(spec["seed"])
        return resume_twin(twin(rng, spec), rng, out)
    s = make(np.random.default_rng(spec["seed"]), spec)
    mons = [ResumeState(), Budget(), Progress(), Feasible(), History(), SurrogateData(), InitialDesign(), Dispatch()]
    if s["strat"] in ("srbf", "dycors") and s["adv"]["fail_kinds"] == "adapt":
        mons.append(Radius())
    run_sim(spec, out, make, mons)
