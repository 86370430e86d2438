#!/usr/bin/env python3
"""check.py <property>: decide one property (see DESIGN.md, MANIFEST.json)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, run  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        run.build()
        sys.exit(0)
    prop = sys.argv[1]
    sys.exit(run.main(prop, checks.CHECKS[prop]))
