from ..mon import Sop, uniform_bins
from ..sim import gen_spec
from ..simcheck import long_cases, plain_cases, run_sim

RULE = "distinct (failure and tabu counters of all points, mode) memory states and distinct (centres in use, points evaluated) generations"
NEED = {"memory-updates": 2000, "centre-failures": 1000, "centre-successes": 300, "tabu-started": 60, "tabu-ended": 20,
        "centre-updates": 1500, "radius-refusals": 160, "best-while-tabu": 10, "several-in-flight": 500, "queries": 2000}
cases = long_cases(plain_cases(260, 3000), 3)


def make(rng, spec):
    dim = int(rng.choice([1, 2, 2, 3, 4, 6])) if rng.random() < 0.96 else int(rng.integers(22, 30))
    s = gen_spec(rng, strat="sop", dim=dim, heavy_dim=True, fkind=str(rng.choice(["func", "func", "flat", "worse", "near", "neg", "script", "offset", "int", "improve"])),
                 budget=int(rng.choice([15, 30, 30, 50])), num_cand=int(rng.choice([20, 40])),
                 ncenters=int(rng.choice([1, 2, 3, 4, 6])), ints=str(rng.choice(["none", "none", "some"])),
                 surrogate=dict(kind="rbf", kernel=str(rng.choice(["cubic", "tps"])), tail="linear"),
                 order=str(rng.choice(["fifo", "random", "straggler", "lifo"])))
    return s


def run_case(spec, out):
    run_sim(spec, out, make, [Sop()])


def final(n, out):
    z = (n["freq-k"] - n["freq-e"]) / max(n["freq-v"], 1.0) ** 0.5
    out.check(abs(z) < 6.6, "perturbation-probability", lambda: "%d perturbed coordinates, %.0f expected (%.1f standard deviations)" % (n["freq-k"], n["freq-e"], z))
    uniform_bins(n, out, "pit ", "centre-radius", ["nfail=%d" % k for k in range(5)])
