"""Glue for checks that attach monitors to adversarial runs."""
import numpy as np

from .sim import Sim, gen_spec


def plain_cases(nq, nt):
    def cases(tier, seed):
        return [dict(i=i) for i in range(nq if tier == "quick" else nt)]

    return cases


def long_cases(cases, k):
    """The same workloads and k (thorough: 10 k) of them with hundreds of evaluations."""
    def more(tier, seed):
        c = cases(tier, seed)
        return [dict(c[i % len(c)], i=len(c) + i, long=True) for i in range(k if tier == "quick" else 10 * k)] + c

    return more


def lengthen(s, rng):
    if s["strat"] in ("ei", "lcb") or s.get("crashes") or s["prob"]["dim"] > 12:
        return
    s["max_evals"] += int(rng.integers(60, 120) if s["strat"] == "sop" else rng.integers(290, 360))
    s["num_cand"] = 20
    s["adv"]["p_update"] = min(s["adv"]["p_update"], 0.1)
    if s["strat"] != "random":
        s["surrogate"] = dict(kind="poly", degree=1, cap=False) if rng.random() < 0.5 else dict(kind="rbf", kernel="linear", tail="constant", cap=False)


def run_sim(spec, out, make_spec, monitors, after=None):
    rng = np.random.default_rng(spec["seed"])
    s = make_spec(rng, spec)
    if spec.get("long"):
        lengthen(s, rng)
    sim = Sim(s, out, monitors)
    if s.get("crashes"):
        sim.execute_checkpointed()
    else:
        sim.execute()
    out.state("schedule", "".join(sim.shape)) if len(sim.shape) > 3 else None
    out.ok("runs-" + s["strat"])
    out.ok("runs-async" if s["asynchronous"] else "runs-sync")
    if len(out.samples) < 1:
        out.sample(dict(strategy=s["strat"], dim=s["prob"]["dim"], objective=s["prob"]["fkind"], asynchronous=s["asynchronous"],
                        workers=s["W"], batch=s["batch"], budget=s["max_evals"], adversary=s["adv"], events=sim.events,
                        schedule="".join(sim.shape)[:160]))
    if after:
        after(sim)
    return sim
