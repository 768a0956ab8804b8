from ..mon import Dispatch
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (mode, batch size or in flight, data size, run, strategy, failures, rejections) generation situations"
NEED = {"batches": 200, "async-adaptive": 1000, "batch-retries": 50, "async-none": 20}
cases = long_cases(plain_cases(350, 3500), 4)


def make(rng, spec):
    st = str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb"], p=[0.35, 0.25, 0.25, 0.075, 0.075]))
    return gen_spec(rng, strat=st, fkind=str(rng.choice(["flat", "func", "script", "drift", "near"])))


def run_case(spec, out):
    run_sim(spec, out, make, [Dispatch()])
