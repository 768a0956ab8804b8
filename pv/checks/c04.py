from ..mon import History
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (event, completed, in flight, runs since its start, class, strategy, mode) situations after which the whole archive was compared"
NEED = {"completions": 3000, "failures": 100, "restarts": 15}
STRATS = ["srbf", "dycors", "sop", "ei", "lcb"]
cases = long_cases(plain_cases(250, 2500), 8)


def make(rng, spec):
    fk = "close" if rng.random() < 0.06 else ("jump" if rng.random() < 0.06 else None)
    st = str(rng.choice(STRATS, p=[0.35, 0.25, 0.25, 0.075, 0.075]))
    if fk is None and st not in ("ei", "lcb") and rng.random() < 0.06:
        fk = "penalty"
    return gen_spec(rng, strat=st, order=str(rng.choice(["random", "straggler", "lifo"])), fkind=fk)


def run_case(spec, out):
    run_sim(spec, out, make, [History()])
