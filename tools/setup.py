#!/usr/bin/env python3
"""Nothing to build: the checks import calkulate from /repo's working tree.  Verify
that the interpreter and the dependencies are there."""
import sys
sys.dont_write_bytecode = True
import matplotlib, numpy, pandas, PyCO2SYS, scipy  # noqa
print("ok", sys.version.split()[0])
