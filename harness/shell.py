"""The program as a user starts it: python -m geec ..., in a process of its own."""
import os
import runpy
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shim  # noqa: E402

if __name__ == "__main__":
    scratch, repo = sys.argv[1:3]
    shim.setup(scratch, repo)
    warnings.simplefilter("ignore")
    import geec.api

    shim.logdir(geec.api, scratch)
    sys.argv = ["geec"] + sys.argv[3:]
    runpy.run_module("geec", run_name="__main__", alter_sys=True)
