#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SIM = "runtime monitoring: adversarial simulated runs of the real strategy, online monitor against a client-side record"
T = {
    "C01": SIM, "C02": SIM, "C03": SIM, "C04": SIM, "C05": SIM, "C06": SIM, "C07": SIM, "C08": SIM,
    "C09": "runtime monitoring: spied model queries of real runs, each selection recomputed by an oracle",
    "C10": "runtime monitoring: spied model queries of real runs plus numerical-integration oracle for the criteria",
    "C11": "runtime monitoring: executable model of the radius rule run alongside adversarial runs",
    "C12": SIM,
    "C13": "runtime monitoring with fault injection: real saves killed at every file operation, full disk, file inspected after each",
    "C14": "runtime monitoring with fault injection: crash at random steps, resume from the real checkpoint, monitors continue",
    "C15": "runtime monitoring: event logs of real thread, simulated-time and serial controllers checked offline",
    "C16": "runtime monitoring: random fitting histories, independent linear-algebra oracle",
    "C17": "runtime monitoring: numerical differentiation oracle",
    "C18": "runtime monitoring: random operation histories on surrogates against a list model",
    "C19": "runtime monitoring: independent GP and ridge regression oracles",
    "C20": "runtime monitoring: structural oracles on generated designs, aggregated statistical test",
    "C21": "runtime monitoring: objective hook in the genetic algorithm, trace oracle",
    "C22": "runtime monitoring: independent formulas on random, boundary and minimising points",
    "C23": "runtime monitoring: brute-force domination oracle",
    "C24": "runtime monitoring: executable model of the centre bookkeeping alongside adversarial runs",
    "C25": "runtime monitoring: exact-arithmetic oracles",
    "C26": "runtime monitoring: generated valid and invalid constructions",
    "C27": "runtime monitoring: deep snapshots of every caller-owned object around every operation",
    "C28": "runtime monitoring: paired executions compared event by event, in process and across processes",
    "C29": "runtime monitoring: instrumented transformation, independent refit oracle",
    "C30": "runtime monitoring: spied candidates, exact support oracle plus aggregated goodness-of-fit test",
}
NOTE = {
    "C13": ("fault_enumeration", "every file-system call of a save is made the last one of the process, plus full-disk and failing-call variants"),
}
DEFAULT_NOTE = "seeded random and adversarial executions of the real code; holds for what was observed, counts in the evidence file"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "pv", "checks", i.lower() + ".py")):
            lev, note = NOTE.get(i, ("exploration", DEFAULT_NOTE))
            checks.append(dict(property=i, quick_cmd="%s check.py %s --tier quick" % (PY, i),
                               thorough_cmd="%s check.py %s --tier thorough" % (PY, i),
                               evidence_file="evidence/%s.json" % i, technique=T[i], level=lev, level_note=note))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="%s -c \"import numpy, scipy, sklearn, poap, dill\"" % PY, checks=checks, not_applicable=na,
             notes="Run from /verif. check.py <ID> --replay FILE re-executes one recorded violation. Findings: known_findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not built")


main()
