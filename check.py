#!/usr/bin/env python3
"""check.py <property id>: decides one property on the current tree of /repo (see DESIGN.md)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3                                                          # noqa
except ImportError:
    if os.environ.get("CBV_REEXEC") or not os.path.exists(PY):
        raise
    os.environ["CBV_REEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
from cbv import decide                                                 # noqa
sys.exit(decide.main(sys.argv[1]))
