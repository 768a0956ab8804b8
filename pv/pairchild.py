"""Executes run specs in a new interpreter and prints their event logs (C28)."""
import json
import logging
import sys


def main():
    d = json.load(open(sys.argv[1]))
    sys.path[:0] = [d["repo"], d["here"]]
    import numpy as np

    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    from pv.checks.c28 import execute

    print(json.dumps([execute(s).log for s in d["specs"]]))


main()
