#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed.  Exit 2: the check itself
could not give an answer.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    from mc import framework

    sys.exit(framework.main(sys.argv[1:]))
