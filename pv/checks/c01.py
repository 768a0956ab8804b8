from ..mon import Budget
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = ("distinct (completed, in flight, budget, event, class of point) situations and distinct event schedules in which the "
        "budget inequality was evaluated")
ASSUMPTIONS = ["the controller follows the POAP protocol (every accepted proposal ends in completion, kill or cancel)"]
NEED = {"full-runs": 50, "rejections": 100, "failures": 50}
cases = long_cases(plain_cases(400, 4000), 6)


def make(rng, spec):
    # the budget is crossed at every offset from the design size, with many workers
    def budget(r, n0):
        return int(r.choice([0, 1, 2, 5, 12, 30]))

    s = gen_spec(rng, budget=budget if rng.random() < 0.7 else None, ints=str(rng.choice(["some", "none", "all"])))
    if rng.random() < 0.1:
        s["crashes"] = [int(rng.integers(3, 3 * s["max_evals"]))]
        if s["strat"] == "random":
            s["crashes"] = []
    return s


def run_case(spec, out):
    run_sim(spec, out, make, [Budget()])
