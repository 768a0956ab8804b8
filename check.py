#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

Runs the monitors of one property against the pySOT source tree in /repo (or $PV_REPO).
Exit 0: held on everything observed; 1: violation (VIOLATION line printed); 2: no verdict.
"""
import os
import sys

ENV = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONPYCACHEPREFIX": "/nonexistent/pv-pycache",  # never trust cached bytecode of the tree under test
}
PY = "/opt/venv/bin/python"


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        env = dict(os.environ)
        env.update(ENV)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get("PV_REPO", "/repo")
    sys.path[:0] = [repo, here]
    from pv import engine

    sys.exit(engine.main(sys.argv[1:], repo, here))


if __name__ == "__main__":
    main()
