"""Paired executions: the same seed, settings and schedule must give the same run, bit for bit."""
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from .. import engine, objs, sur
from ..engine import Inconclusive, Out
from ..mon import Base
from ..sim import Sim, extra_vals, gen_spec, key

RULE = "distinct (strategy, mode, surrogate, comparison, completed evaluations, log digest) pairs of executions compared event by event"
NEED = {"pairs-twice": 12, "pairs-process": 18, "pairs-checkpoint": 6, "pairs-interleaved": 7, "pairs-after-other-run": 12, "pairs-functions": 100,
        "compared-proposals": 2380, "nested-runs": 15, "snapshots": 190}
CHUNK = 1


def cases(tier, seed):
    big = tier != "quick"
    c = [dict(i=i, kind="pair") for i in range(1400 if big else 96)]
    c += [dict(i=i, kind="process") for i in range(60 if big else 8)]
    c += [dict(i=i, kind="functions") for i in range(800 if big else 48)]
    return c


# ---------------------------------------------------------------------------------------------------- executions
class Log(Base):
    """Everything a client can see of a run, bit for bit."""

    def __init__(self, nested=()):
        self.log = []
        self.nested = list(nested)  # (event number, spec of a run executed in the middle)
        self.k = 0
        self.ran = 0

    def on(self, sim, ev):
        self.k += 1
        e = [ev["kind"], ev.get("result"), ev.get("cls"), key(ev["x"]).hex() if ev.get("x") is not None else None]
        if ev["kind"] == "complete":
            e += [float(ev["value"]).hex(), ev["info"]["id"]]
        for k, d in ev.get("spied") or ():
            if k in ("predict", "predict_std"):
                e.append((k, d["n"], objs_digest(d["X"], d["y"])))
            if k == "design":
                e.append((k, objs_digest(d["X"])))
        self.log.append(e)
        while self.nested and self.nested[0][0] <= self.k:
            other = self.nested.pop(0)[1]
            self.ran += 1
            execute_inside(other)

    def end(self, sim):
        s = sim.strategy
        if sim.spec["strat"] != "random":
            self.log.append(["end", objs_digest(s.X, s.fX), objs_digest(s.surrogate.X, s.surrogate.fX)])
        else:
            self.log.append(["end"])


def objs_digest(*arrs):
    import hashlib

    h = hashlib.blake2b(digest_size=8)
    for a in arrs:
        a = np.asarray(a, dtype=float)
        h.update(repr(a.shape).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def execute_inside(spec):
    """A different run in the middle of another one, with its own stream of random numbers."""
    st, st2, sink = np.random.get_state(), random.getstate(), objs.SINK
    try:
        return execute(spec)
    finally:
        np.random.set_state(st)
        random.setstate(st2)
        objs.set_sink(sink)


def execute(spec, nested=(), checkpoint=False):
    """Log of one run of fresh objects."""
    out = Out("C28")
    m = Log(nested)
    random.seed()  # only numpy's generator is part of the contract, nothing may depend on this one
    sim = Sim(spec, out, [m])
    if checkpoint:
        sim.execute_checkpointed()
    else:
        sim.execute()
    if out.viol:  # stuck runs are the business of other checks, their logs are compared all the same
        m.log.append(["ended early", out.viol[0][0]])
    m.sim = sim
    return m


def gen(rng, **kw):
    strat = kw.pop("strat", None) or str(rng.choice(["srbf", "dycors", "sop", "ei", "lcb", "random"], p=[0.27, 0.27, 0.27, 0.07, 0.07, 0.05]))
    s = gen_spec(rng, strat=strat, num_cand=20, budget=int(rng.choice([3, 10, 25])) if strat not in ("ei", "lcb") else 3, **kw)
    if rng.random() < 0.25 and strat != "random":
        gp = strat in ("ei", "lcb")
        s["surrogate"] = dict(kind="default-gp" if gp else "default-rbf", kernel="cubic", tail="linear", cap=False)
        if gp:
            s["max_evals"] = min(s["max_evals"], s["design"]["n"] + len(s.get("extra", [])) + 2)
    elif rng.random() < 0.4 and strat in ("srbf", "dycors", "sop"):
        s["surrogate"] = dict(kind="stoch")
    if s["design"]["kind"] == "slhd" and rng.random() < 0.5:
        s["design"]["iters"] = int(rng.choice([1, 30, 100]))
    return s


def compare(out, what, spec, a, b):
    la, lb = a.log, b.log
    k = next((i for i in range(max(len(la), len(lb))) if i >= len(la) or i >= len(lb) or la[i] != lb[i]), None)
    out.check(k is None, "differs:" + what,
              lambda: "%s: a %s run with the same seed, settings and schedule differs at event %d of %d/%d: %s against %s"
              % (what, spec["strat"], k, len(la), len(lb), str((la + [None])[k])[:300], str((lb + [None])[k])[:300]))
    out.ok("pairs-" + what)
    out.ok("compared-proposals", len(a.sim.proposals) if hasattr(a, "sim") else sum(e[:2] == ["ask", "eval"] for e in la))
    out.state(what, spec["strat"], spec["asynchronous"], str(spec.get("surrogate")), len(la), json.dumps(la[-1]))


def disturb(rng):
    """Draw random numbers and use the library in between."""
    np.random.rand(int(rng.integers(1, 50)))
    random.random()
    from pySOT.experimental_design import LatinHypercube

    LatinHypercube(2, 7, iterations=2).generate_points()


def pair(rng, out):
    what = str(rng.choice(["twice", "checkpoint", "interleaved", "after-other-run"]))
    spec = gen(rng)
    while what == "checkpoint" and spec["strat"] == "random":  # has no state to save
        spec = gen(rng)
    if what == "checkpoint" and rng.random() < 0.5:  # snapshots between the fits of a model that fits at random
        spec = gen(rng, strat=str(rng.choice(["srbf", "dycors", "sop"])), asynchronous=True, workers=int(rng.choice([3, 5])))
        spec.update(surrogate=dict(kind="stoch"), max_evals=spec["max_evals"] + 10)
        spec["adv"].update(p_fail=0.35, fail_kinds="any")
    a = execute(spec)
    if what == "twice":
        disturb(rng)
        b = execute(json.loads(json.dumps(spec)))
    elif what == "checkpoint":
        b = execute(spec, checkpoint=True)
        out.ok("snapshots", len(b.sim.t.finished))
    elif what == "after-other-run":
        for _ in range(int(rng.integers(1, 3))):
            execute(gen(rng, **(dict(strat=spec["strat"], dim=spec["prob"]["dim"]) if rng.random() < 0.7 else {})))
        b = execute(spec)
    else:
        ev = sorted(int(v) for v in rng.integers(1, max(2, len(a.log)), int(rng.integers(1, 4))))
        other = [gen(rng, **(dict(strat=spec["strat"], dim=spec["prob"]["dim"]) if rng.random() < 0.7 else {})) for _ in ev]
        if rng.random() < 0.3:
            other[0] = dict(spec, sseed=spec["sseed"] + 1, aseed=spec["aseed"] + 1)
        b = execute(spec, nested=list(zip(ev, other)))
        out.ok("nested-runs", b.ran)
    compare(out, what, spec, a, b)
    out.sample(dict(comparison=what, strategy=spec["strat"], events=len(a.log), proposals=len(a.sim.proposals)))


def process(rng, out):
    """Repeat several runs, in another order, in a new interpreter with another hash seed."""
    specs = [gen(rng) for _ in range(5)]
    logs = [execute(s) for s in specs]
    order = [int(i) for i in rng.permutation(len(specs))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10000))))
    with tempfile.TemporaryDirectory(prefix="pv-c28-") as d:
        f = os.path.join(d, "in.json")
        json.dump(dict(repo=engine.REPO, here=engine.HERE, specs=[specs[i] for i in order]), open(f, "w"))
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(engine.HERE, "pv", "pairchild.py"), f], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=d, timeout=240)
        if r.returncode:
            raise Inconclusive("child: " + r.stderr.decode()[-800:])
        res = json.loads(r.stdout.decode().splitlines()[-1])
    for i, l in zip(order, res):
        b = Log()
        b.log = l
        a = Log()
        a.log = json.loads(json.dumps(logs[i].log))
        compare(out, "process", specs[i], a, b)


def functions(rng, out):
    """Single entry points called twice with the same seed, other calls in between."""
    import pySOT.auxiliary_problems as ap
    from pySOT.experimental_design import LatinHypercube, SymmetricLatinHypercube, TwoFactorial
    from pySOT.utils import GeneticAlgorithm

    dim, lb, ub = sur.domain(rng, int(rng.integers(1, 5)))
    iv = np.array([], dtype=int)
    if rng.random() < 0.4:
        iv = np.sort(rng.choice(dim, int(rng.integers(1, dim + 1)), replace=False))
        lb[iv] = np.floor(lb[iv])
        ub[iv] = lb[iv] + 45
    n = dim + 2 + int(rng.integers(2, 10 if rng.random() < 0.6 else 40))
    X = sur.points(rng, lb, ub, n, 0.02)
    for j in iv:
        X[:, j] = np.round(X[:, j])
    f = sur.values(rng, X, lb, ub)
    p = objs.Prob(dict(dim=dim, lb=lb.tolist(), ub=ub.tolist(), int_var=[int(i) for i in iv], fkind="func", fseed=1))
    kind = str(rng.choice(["rbf", "gp"]))
    make, desc = sur.make(rng, kind, dim, lb, ub)

    def fitted():
        m = make()
        m.add_points(X, f)
        return m

    w = [0.2, 0.9]
    cm = lambda: dict(num_pts=2, opt_prob=p, surrogate=fitted(), X=X, fX=f, weights=w, Xpend=X[:1] + 0.01, num_cand=20)
    fns = {
        "lhd": lambda: LatinHypercube(dim, n, iterations=3).generate_points(lb=lb, ub=ub),
        "slhd": lambda: SymmetricLatinHypercube(dim, n, iterations=20).generate_points(lb=lb, ub=ub),
        "lhd-unit": lambda: LatinHypercube(dim, n, iterations=2).generate_points(),
        "slhd-unit": lambda: SymmetricLatinHypercube(dim, n, iterations=int(20 + n % 9 * 5)).generate_points(),
        "slhd-int": lambda: SymmetricLatinHypercube(dim, n, iterations=100).generate_points(lb=-3.0 * np.ones(dim) * n, ub=3.0 * np.ones(dim) * n, int_var=np.arange(dim)),
        "2fact": lambda: TwoFactorial(dim).generate_points(lb=lb, ub=ub),
        "srbf": lambda: ap.candidate_srbf(sampling_radius=0.2, **cm()),
        "uniform": lambda: ap.candidate_uniform(**cm()),
        "dycors": lambda: ap.candidate_dycors(prob_perturb=0.4, **cm()),
        "ga": lambda: GeneticAlgorithm(lambda P: (P ** 2).sum(axis=1).reshape(-1, 1), dim=dim, lb=lb, ub=ub, pop_size=8, num_gen=5, start="Random",
                                       int_var=iv).optimize(),
        "ga-slhd": lambda: GeneticAlgorithm(lambda P: (P ** 2).sum(axis=1).reshape(-1, 1), dim=dim, lb=lb, ub=ub, pop_size=8, num_gen=5,
                                            start="SLHD", int_var=iv).optimize(),
        "ga-lhd": lambda: GeneticAlgorithm(lambda P: (P ** 2).sum(axis=1).reshape(-1, 1), dim=dim, lb=lb, ub=ub, pop_size=2 * n, num_gen=2,
                                           start="LHD", int_var=iv).optimize(),
        "fit": lambda: fitted().predict(lb + 0.3 * (ub - lb)),
    }
    if kind == "gp" and rng.random() < 0.1:
        fns["ei_ga"] = lambda: ap.ei_ga(num_pts=1, opt_prob=p, surrogate=fitted(), X=X, fX=f, dtol=0.001)
        fns["lcb_ga"] = lambda: ap.lcb_ga(num_pts=1, opt_prob=p, surrogate=fitted(), X=X, fX=f, dtol=0.001, lcb_target=1e10)
    seed = int(rng.integers(1 << 30))
    first = {}

    def call(k):
        np.random.seed(seed)
        random.seed()
        r = fns[k]()
        r = () if r is None else (r if isinstance(r, tuple) else (r,))
        return objs_digest(*r), np.random.random()

    names = list(fns)
    for k in rng.permutation(names):  # an earlier use with another seed is without consequence
        if rng.random() < 0.3:
            np.random.seed(seed ^ 1)
            fns[str(k)]()
    for k in names:
        first[k] = call(k)
    for k in rng.permutation(names):
        k = str(k)
        if rng.random() < 0.4:
            disturb(rng)
        b = call(k)
        out.check(b[0] == first[k][0], "differs:" + k, lambda: "%s with the same seed gave another result (dim %d, %s)" % (k, dim, desc))
        # the amount of randomness used belongs to the contract too: later draws of a seeded program depend on it
        out.check(b[1] == first[k][1], "draws:" + k, lambda: "%s with the same seed consumed another amount of the seeded stream" % k)
        out.ok("pairs-functions")
        out.state("functions", k, first[k])


def run_case(spec, out):
    rng = np.random.default_rng(spec["seed"])
    globals()[spec["kind"]](rng, out)
