from ..mon import SurrogateData
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (event, class, runs since its start, data size, strategy, in flight) situations after which the surrogate data was compared"
NEED = {"stale-completions": 20, "current-completions": 2000}
cases = long_cases(plain_cases(250, 2500), 8)


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.4, 0.25, 0.2, 0.075, 0.075]))
    tiny = st in ("srbf", "dycors", "sop") and rng.random() < 0.2  # few integer points: many are evaluated again
    s = gen_spec(rng, strat=st, order=str(rng.choice(["random", "straggler", "lifo"])),
                 fkind=str(rng.choice(["flat", "flat", "drift", "func", "near", "script"])), restarts=bool(rng.random() < 0.9),
                 dim=int(3) if tiny else int(rng.choice([1, 2, 3, 4])), workers=int(rng.choice([1, 3])) if tiny else int(rng.choice([1, 3, 5, 8])),
                 ints="none" if tiny else "some", extras=False if tiny else None,
                 budget=None if rng.random() < 0.5 else int(rng.integers(20, 90)) if st not in ("ei", "lcb") else 6)
    if tiny:
        p = s["prob"]
        lo = rng.integers(-3, 2, p["dim"])
        p.update(lb=lo.astype(float).tolist(), ub=(lo + rng.integers(4, 7, p["dim"])).astype(float).tolist(), int_var=list(range(p["dim"])))
        s["design"]["iters"] = 100
    if st not in ("ei", "lcb") and rng.random() < 0.06:
        s["prob"]["fkind"] = "penalty"
    elif len(s.get("extra") or []) > 1 and rng.random() < 0.5:
        s["extra"][-1] = s["extra"][0]  # the user passes a point twice
    return s


def run_case(spec, out):
    run_sim(spec, out, make, [SurrogateData()])
