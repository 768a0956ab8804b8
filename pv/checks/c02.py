from ..mon import Progress
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (answer, class, in flight, completed, restart, strategy) situations of a worker asking, and distinct event schedules"
NEED = {"finished-runs": 50, "restarts": 20, "failures": 50}
cases = long_cases(plain_cases(400, 4000), 5)


def make(rng, spec):
    fk = str(rng.choice(["flat", "func", "script", "improve", "worse", "drift", "int", "f32", "huge", "tiny", "near", "neg", "close", "jump"]))
    return gen_spec(rng, fkind=fk, ints=str(rng.choice(["some", "none", "all"])), restarts=bool(rng.random() < 0.6),
                    dim=int(rng.choice([1, 2, 3, 4])), heavy_dim=True)


def run_case(spec, out):
    run_sim(spec, out, make, [Progress()])
